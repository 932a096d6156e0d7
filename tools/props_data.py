H = B + "handlers/"
HM = B + "html/manips/"
IM = HM + "images/"
CM = B + "css/manips/"
JM = B + "js/manips/"

# ------------------------------------------------------------ orchestration
prop("O01", "An incremental build gives what a clean build gives",
     """After any sequence of successful builds, in either mode, interleaved with adding, editing and deleting source files and
     with changes of vanillaplusjs.json (environment variables its constants name included), the published output tree (paths and
     contents, no empty folders) is the one a build from scratch of the current sources in the last mode would produce: every output reflects the current contents of every file it depends on, directly or through other
     outputs, no output of a deleted or changed source is left behind, and outputs still claimed by some source
     survive. A file edited while a build runs is up to date after the next build.""",
     ["histories", "schedules", "inputs"],
     """All projects of up to 3 source files with arbitrary acyclic dependency edges (on sources or on outputs),
     shared outputs, every change set, every order in which the parallel file builds complete.""",
     "Tests run a handful of fixed two-step projects; the guarantee is over change sets, dependency shapes and completion orders.",
     [B + "hot_incremental_rebuild.py", B + "cold_incremental_rebuild.py", H + "copy.py", H + "hash.py"],
     [("closure over dependants, output cleaning, scheduling", B + "hot_incremental_rebuild.py")])
prop("O02", "A file is built only after everything it depends on is rebuilt",
     """Whenever the build of a file starts, every file it depends on that is also being rebuilt has already been
     rebuilt successfully, and every file that needs rebuilding is built exactly once, in every order in which the
     parallel builds may complete. Two builds that write the same output are never running at the same time.""",
     ["schedules", "inputs"],
     "All dependency graphs and output claims over up to 4 files, all change sets, all completion orders of in-flight builds.",
     "Completion order of a process pool is not controlled by the tests, which use small fixed projects.",
     [B + "hot_incremental_rebuild.py"],
     [("scheduling loop", B + "hot_incremental_rebuild.py")])
prop("O03", "A failed build never leaves a later build wrong",
     """If a build stops because building or scanning some file fails, or because it is killed, then after the cause is removed the next
     build of the same project, in either mode and with any configuration, completes and leaves exactly the outputs a build from scratch would leave. Nothing
     stale that the failed build left on disk is taken for up to date.""",
     ["crash_points", "histories", "schedules"],
     "All projects of up to 3 files, all change sets, a failure injected at any file build or scan, all completion orders.",
     "Tests never fail a build half way.",
     [B + "hot_incremental_rebuild.py", B + "cold_incremental_rebuild.py", V + "runners/build.py"],
     [("graphs stored only at the end; outputs unlinked before building", B + "hot_incremental_rebuild.py")])
prop("O04", "What a build stores makes the next unchanged build a no-op",
     """A successful build records for every source file its current signature, its dependencies, its outputs and
     its placeholders. Building again in the same mode without touching any source or the configuration scans nothing, builds nothing and leaves the
     output tree and the stored records unchanged.""",
     ["histories", "inputs"],
     "All projects of up to 3 files with arbitrary edges, outputs and placeholders, after a first and after a second (incremental) build.",
     "Tests check single fixed rebuilds, not the recorded state after arbitrary histories.",
     [B + "hot_incremental_rebuild.py", B + "cold_incremental_rebuild.py", B + "graph.py"],
     [("construction of the new graphs", B + "hot_incremental_rebuild.py")])
prop("O05", "Dependency cycles are reported, everything else terminates",
     """Building a project in which different files depend on each other in a cycle, where a file of the cycle needs building,
     ends with a cyclic dependency error and never hangs or silently skips files; building a project without such a cycle never reports
     one and terminates.""",
     ["inputs", "schedules"],
     "All dependency relations (cyclic or not) over up to 4 files, all change sets, all completion orders.",
     "The suite has no cyclic project beyond one fixed example; the guarantee is over every relation.",
     [B + "hot_incremental_rebuild.py", B + "exceptions.py"],
     [("no rebuildable files and nothing pending", B + "hot_incremental_rebuild.py")])
prop("O06", "Change detection selects exactly the added, changed and deleted files",
     """A build started on an existing project treats as added exactly the source files it has no record of, as
     deleted exactly the recorded files that are gone, and as changed exactly the files whose size, modification
     time or inode differs from the record; a file differing in none of them is left alone.""",
     ["inputs", "histories"],
     "All recorded and current signatures (unbounded integers for size and inode, arbitrary reals for mtime) over up to 3 files in nested folders.",
     "Tests use a few fixed edits; exactness is over every combination of signature values.",
     [B + "cold_incremental_rebuild.py", B + "graph.py", B + "file_signature.py"],
     [("signature comparison", B + "cold_incremental_rebuild.py"), ("check_file", B + "graph.py")])
prop("O07", "The dependency graph stays consistent under every operation sequence",
     """Whatever sequence of adding files, removing files and replacing edges is applied, a file is listed as a
     parent exactly where the other is listed as its child, removed files leave no trace, and parents, children,
     direct and nested relationship queries agree with the edges that were set. With cycle prevention on, an operation that
     would create a cycle is rejected and changes nothing.""",
     ["histories", "inputs"],
     "All sequences of up to 4 operations over 3 or 4 files with arbitrary arguments.",
     "The tests exercise fixed short sequences of operations.",
     [B + "graph.py"], [("set_children, remove_file and relationship queries", B + "graph.py")])
prop("O08", "Stored graphs load back identical",
     """Storing a dependency graph and loading it again yields an equal graph: same files, signatures, parents and
     children in the same order, for any path names and signatures; two graphs that differ in any of these compare
     unequal.""",
     ["inputs"],
     "All graphs over up to 3 files (cycles included), path names of up to 2 arbitrary characters, arbitrary signatures.",
     "Tests store a few fixed graphs with plain names.",
     [B + "graph.py"], [("store / load / __eq__", B + "graph.py")])
prop("O09", "The dev watcher never loses a change",
     """Whatever sequence of file events (create, modify, delete, move, for files and folders) arrives before, between and during
     rebuilds in watch mode, the set of changed, added and deleted files handed to the rebuilds accounts for the
     final state of the source tree: each file that differs from the last successful build is eventually passed to a rebuild in the
     right role, and no file that does not exist is passed as changed or added.""",
     ["histories", "schedules"],
     "All sequences of up to 4 events over 2 files plus folder moves, consistent with some sequence of file system operations.",
     "Tests only drive a couple of single edits through a real watcher.",
     [V + "runners/dev.py"], [("event handler coalescing", V + "runners/dev.py")])
prop("O10", "External files always end up with the declared content",
     """After the external file check succeeds, each declared external file exists with content matching its declared integrity, files that are no
     longer declared but were placed by an earlier build are gone, and files that already match are not
     downloaded again. A download whose content does not match the declared integrity fails the build and is never put
     in place.""",
     ["histories", "fault_sequences", "inputs"],
     "All combinations of declared, recorded and on-disk state for up to 2 files, all server answers, over up to 3 successive builds.",
     "The external file tests need a network server and check a few fixed situations.",
     [B + "cold_incremental_rebuild.py", B + "build_context.py"],
     [("check_external_files", B + "cold_incremental_rebuild.py")])
prop("O11", "Only files under src/public are published, at distinct mirrored paths",
     """A source file is published exactly when it lies inside the src/public folder, at the same path relative to the
     served folder, followed by the fixed suffix for its hash; files elsewhere (for example partials, or folders whose name merely
     starts with "public") are never copied into the served folder and are still accepted by the build. Distinct public sources never map to the
     same published path.""",
     ["inputs"],
     "All source paths src/public<x> and src/<x> with x up to 4 arbitrary characters, per kind of file.",
     "The tests publish a few ordinary names.",
     [H + "copy.py", H + "hash.py", H + "copy_and_hash.py", H + "css.py", H + "js.py", H + "html.py"],
     [("get_target_path", H + "copy.py"), ("get_target_path", H + "hash.py")])
prop("O12", "Clean removes what the tool generated and nothing else",
     """Cleaning a project removes the build outputs and the generated placeholder files it recorded, and never
     touches any other source file, the configuration, or anything outside the project; it also succeeds when some of those
     files are already gone.""",
     ["inputs", "histories"],
     "All presence combinations of outputs, graph files, placeholders, sources and neighbours; all flag combinations.",
     "Tests clean one fixed project.",
     [V + "runners/clean.py"], [("clean", V + "runners/clean.py")])
prop("O13", "Init creates what is missing and overwrites nothing",
     """Initialising a folder never changes or removes a file that was already there, the configuration included; whatever of the
     standard layout is missing is created, running it a second time changes nothing, and a project whose configuration it wrote
     is accepted by a build, with the host that was asked for.""",
     ["inputs", "histories"],
     "All combinations of pre-existing files and configuration keys.",
     "Tests only init an empty folder.",
     [V + "runners/init.py"], [("init", V + "runners/init.py")])

# ------------------------------------------------------------ cache busting
prop("O14", "A build runs with exactly what the configuration states",
     """A build uses the host, image settings, external files, constants and placeholder setting exactly as vanillaplusjs.json states them
     (constants of the form env://NAME taken from the environment), with the mode, folder and options given on the command line and the
     graphs stored by the build before; settings that are missing, malformed or of another version are an error and nothing is built.""",
     ["configurations", "inputs"],
     "All image settings of up to 2 formats with symbolic limits and names, external files and constants with symbolic texts, every combination of command line options and stored graphs, one wrong setting at a time.",
     "Tests build with the settings that init writes and never check where a changed setting arrives.",
     [B + "build_context.py", "vanillaplusjs/runners/build.py", IM + "settings.py"], [("load_image_settings", IM + "settings.py"), ("load_js_constants", B + "build_context.py")])
prop("C01", "Local links and scripts in HTML carry the content hash",
     """In a built HTML page every script source, stylesheet link or preload link whose address is a path within the site (starting with a single slash,
     or relative to the page), without a query or fragment, keeps that address and gets a version parameter equal to the hash of the published content
     of exactly the file it leads to, plus the processor version, and the page is recorded as depending on that file's hash. Links with
     another scheme or host (protocol-relative ones included), or which already have a query or fragment, and all other tags are left as they
     were. A link to a file that does not exist fails the build.""",
     ["inputs"],
     "All addresses assembled from a prefix of every kind and up to 3 arbitrary characters, all page depths up to 2.",
     "Tests cover a few literal hrefs.",
     [HM + "link_hash.py", HM + "link_rel_stylesheet_hash.py"], [("LinkHashManipulator", HM + "link_hash.py")])
prop("C02", "JavaScript imports carry the content hash of the imported file",
     """In a built script every static import or re-export whose specifier is a path (starting with a slash or dots, without query and fragment) of another file of
     the site has its specifier replaced by the absolute path of that file with the hash of its published content and the processor version, and the importing file is
     recorded as depending on it, when scanning and when building. Everything else keeps its meaning: specifiers of other origins, bare ones, those marked to
     be ignored and strings that are no specifiers stay, and at most comments are added. An import of a missing file fails the build.""",
     ["inputs", "programs"],
     "All import and re-export forms with every name of the grammar and all spacings, specifiers of every kind with up to 3 arbitrary characters, up to 3 statements next to 42 kinds of other code.",
     "Tests cover a few literal imports.",
     [JM + "hash_imports.py"], [("HashImportsManipulator", JM + "hash_imports.py")])
prop("C03", "Local CSS url() references carry the content hash",
     """In built CSS every url() (quoted or not) with an absolute path within the site and no query gets the hash of the published content of exactly that
     file and the processor version added, while its path and fragment stay, and the stylesheet is recorded as depending on that file's hash; data URIs,
     other origins (protocol-relative ones included), relative urls, same-document fragments, urls with a query and text that is not in a url() are
     unchanged. A url of a file that does not exist fails the build.""",
     ["inputs"],
     "All urls assembled from a prefix of every kind, up to 3 arbitrary characters and an ending, in every quoting.",
     "Tests cover a few literal urls.",
     [CM + "version_urls.py"], [("VersionURLsManipulator", CM + "version_urls.py")])
prop("C04", "Scanning declares everything the build later reads and writes",
     """For every source file, the dependencies and outputs reported by scanning equal those the build of the same
     contents reports, nothing listed twice nor both produced and reused; scanning again after the build, and building again over
     existing outputs, report the same. Apart from the file itself, the build reads only what is declared
     (a dependency's published copy and hash included) and writes or removes nothing in the output folder that is not declared, and everything declared is there afterwards. So build order and
     rebuild decisions made from the scan are right.""",
     ["inputs", "programs"],
     "All pages, sheets, scripts and image lists composed of up to 2 (thorough 3) of the constructs the handlers know; names with an arbitrary simple character.",
     "Tests check the final output of fixed projects, not scan/build agreement.",
     [H + "html.py", H + "css.py", H + "js.py", H + "image_glue.py", HM + "link_hash.py", CM + "version_urls.py", JM + "hash_imports.py"],
     [("scan_result / build_result of each manipulator", B)])

# --------------------------------------------------------------- transforms
prop("T01", "CSS without framework directives keeps its meaning",
     """Passing a stylesheet that uses no framework directive through the CSS pipeline yields a stylesheet that a
     standards-conforming CSS tokenizer reads as the same token sequence (same identifiers, strings, numbers with their notation-independent value and type,
     units, urls and delimiters; comments and white space amounts aside), for every input including malformed ones, and never crashes.""",
     ["inputs", "programs"],
     "All inputs of up to 4 characters (alphabet with every character class the CSS syntax distinguishes) and longer ones within fixed contexts.",
     "Tests compare a few literal stylesheets.",
     [B + "css/tokenizer.py", B + "css/serializer.py", B + "ioutil.py"],
     [("tokenize", B + "css/tokenizer.py"), ("serialize", B + "css/serializer.py")])
prop("T02", "JavaScript keeps its meaning",
     """Passing a syntactically valid script that uses no framework directive through the JS pipeline yields a script with the same sequence of
     tokens (identifiers with the same name, keywords, numbers, punctuators, regular expressions, template literals, and string literals with the same
     value), with line terminators and white space kept between them; only comments and the notation of strings and escaped names may change. No input makes it fail.""",
     ["inputs", "programs"],
     "All regular expressions, strings, templates and comments of up to 3 arbitrary characters in 151 syntactic contexts with every kind of spacing.",
     "Tests compare a few literal scripts.",
     [B + "js/tokenizer.py", B + "js/serializer.py"],
     [("tokenize", B + "js/tokenizer.py"), ("serialize", B + "js/serializer.py")])
prop("T03", "Builders apply each manipulator's edits exactly where it asked",
     """When a manipulator marks a position in the token stream and later replaces, inserts or removes tokens there, the
     final stream is the original with exactly those edits, in order, no token lost or duplicated, no matter how the
     marked region and the remaining tokens interleave; successive manipulators each see the previous one's result.""",
     ["inputs", "histories"],
     "All token streams of up to 5 tokens and all mark/replace decision sequences of a manipulator with up to 2 marks, for the HTML, CSS and JS builders.",
     "Tests exercise the builders only through concrete manipulators.",
     [B + "html/builder.py", B + "css/builder.py", B + "js/builder.py", B + "html/manipulate_and_serialize.py",
      B + "css/manipulate_and_serialize.py", B + "js/manipulate_and_serialize.py"],
     [("HTMLBuilder, CSSBuilder, JSBuilder", B)])
prop("T04", "Peeking and reading the text streams agree with the text",
     """Whatever sequence of peeks and reads is made on the buffering text wrappers, the concatenation of what is
     read is the underlying text (for the preprocessing wrapper: after newline normalisation), a peek shows what the next read returns
     and consumes nothing, and the end is reported only at the end.""",
     ["inputs", "histories"],
     "All texts of up to 5 arbitrary characters and all sequences of up to 4 operations with sizes -1..3.",
     "No test drives arbitrary read/peek sequences or carriage returns at every boundary.",
     [B + "ioutil.py"], [("PeekableTextIO, PreprocessedTextIO", B + "ioutil.py")])
prop("T05", "JS constants files hold exactly the configured values",
     """The published constants file exports, for the mode that is built, exactly the shared constants overridden and extended by the ones of
     that mode (never one of the other mode), whatever is left over from an earlier build, each as a JavaScript expression that evaluates to the
     configured JSON value (strings, numbers, booleans, null, lists and objects); a top-level string env://NAME stands for the environment variable's value.""",
     ["inputs", "configurations"],
     "All constant tables of up to 3 entries with values of every JSON type, strings of up to 3 arbitrary characters, integers and nesting depth 2.",
     "Tests cover one or two literal configurations.",
     [H + "js_constants.py", B + "js/serializer.py", B + "build_context.py"], [("build_file / jsify", H + "js_constants.py")])
prop("T06", "Imports of style rules are replaced by the content of the rule they name",
     """A comment "! PREPROCESSOR: import SELECTOR [FROM /url]" in a rule of a style sheet is replaced by the declarations of the first top-level rule with
     that selector of that sheet (without FROM of the default sheet), whose own imports are replaced likewise, wherever in the sheets the rules are and
     however they are ended, and declarations that follow stay separate; everything else in the sheet is unchanged. Rules in at-rules and comments do not
     count. An import that names no such rule, one that leads back to itself and a malformed FROM fail the build. The sheets
     imported from are recorded as dependencies, the same by scanning and building.""",
     ["inputs", "programs"],
     "Up to 4 rules in up to 3 sheets with every combination of items, symbolic selectors and values, notations of the directive, other statements around the rules.",
     "Tests cover a few literal directives.",
     [CM + "nest.py"], [("NestManipulator", CM + "nest.py")])
prop("T07", "Inline image data in CSS becomes an equivalent file",
     """A quoted data:image url in a url() of a style sheet is moved to a published file which holds exactly the bytes that a browser
     would decode from it (percent-encoding, forgiving base64, parameters), in a folder of the sheet's own and with an extension for its type; the url
     then refers to that file with the file's hash as the version and keeps its fragment. Images of the same type and bytes within a
     sheet share one file, different ones never do, whatever is left over from earlier builds; the files are declared as produced
     when scanning and when building, and anything that is not image data is left alone.""",
     ["inputs"],
     "All data urls with a payload of up to 3 arbitrary characters (plain, percent-encoded and base64) and every parameter form.",
     "Tests cover one literal svg.",
     [CM + "outline_image_data.py"], [("OutlineImageDataManipulator", CM + "outline_image_data.py")])

prop("T08", "Icon directives expand to the classes and pictures the settings call for",
     """An icon directive of a style sheet is replaced by one class for each requested size and colour and one button (with hover and disabled colours) for each
     requested button and size, in that order; lists keep the written order, unknown or repeated names are dropped, and what is not given falls back to all colours and sizes of the
     :root rule of the main sheet and to the configured buttons (those with unknown colours are dropped). Every colour that is referenced gets a published picture, the source picture with
     its quoted colour replaced by that colour's value (3 or 6 digits or any CSS colour name), with its hash; addresses carry that version. Dependencies and outputs are exactly the picture, the main sheet and these files,
     in scans and builds alike. Directives with an unknown initial colour or nothing to make are left alone, malformed ones make nothing."""
     ,
     ["inputs", "configurations"],
     "Settings of up to 7 declarations, all colour values and names, directives with every combination of argument kinds, names with arbitrary characters, pictures with colours in several notations.",
     "Tests cover a few literal icons.",
     [CM + "icons/parser.py", CM + "icons/tokenizer.py", CM + "icons/command.py", CM + "icons/settings.py", CM + "icons/manip.py"],
     [("icon parser", CM + "icons/parser.py"), ("IconManipulator", CM + "icons/manip.py")])

prop("T09", "A page comes out of the build as the same document",
     """What no directive of a page concerns is served as it was written: an HTML parser sees the same document in the built page as in the source page: doctype, elements, nesting,
     attributes with their names and values, texts (with every character reference and white space) and comments, wherever they stand: in elements of every content model (raw text such as script, style
     and iframe, escaped raw text such as title and textarea, pre, noscript, tables, lists, forms), in svg and math, and in pages that omit optional tags. The build may add or change the charset declaration (UTF-8, which the file really is in), write boolean
     attributes without a value and end the body with a newline.""",
     ["inputs"],
     "Every one of about 80 kinds of places in a page with every combination of up to 2 character references and arbitrary characters in it, and symbolic element and attribute names.",
     "Tests compare a handful of small pages.",
     [B + "html/tokenizer.py", B + "html/manipulate_and_serialize.py", B + "html/builder.py", H + "html.py"],
     [("tokenize", B + "html/tokenizer.py"), ("manipulate_and_serialize", B + "html/manipulate_and_serialize.py")])

# --------------------------------------------------------------------- html
prop("H01", "Canonical links point at the page's own absolute URL",
     """A canonical link with an address that is relative (to the page or to the site root) becomes that address resolved on the configured host; an absolute
     address is kept; an empty one becomes the bare host; and without one the link becomes the configured host followed by the page's own published
     path, percent-encoded where needed. Where a host is required and none is configured the build fails. Nothing else in the page changes.""",
     ["inputs", "configurations"],
     "All page paths with up to 3 arbitrary characters at depth up to 2, all addresses assembled from a prefix of every kind and up to 3 arbitrary characters.",
     "Tests cover two literal pages.",
     [HM + "link_rel_canonical.py"], [("LinkRelCanonicalManipulator", HM + "link_rel_canonical.py")])
prop("H02", "Templates and stacks expand to the partial with the given variables",
     """A template directive is replaced by the contents of the named partial (below src/partials when its path starts with a slash, otherwise relative to the
     file that has the directive), partials within partials included, and each retrieve directive by exactly the text or integer that its variable
     has in that file: given by the including directive (possibly passed on from a variable there) or defined earlier in the file, never leaking into
     or out of other files. Everything else stays as it is; a missing variable or partial and a partial that includes itself are errors
     and no page is written; the page depends on exactly the partials used, when scanning and when building.""",
     ["inputs", "programs"],
     "All partials of up to 4 tokens with symbolic text around and inside variables, nesting depth 2.",
     "Tests cover a few literal templates.",
     [HM + "template.py"], [("TemplateManipulator", HM + "template.py")])
prop("H03", "Inline scripts and styles are moved to files unchanged",
     """Every inline JavaScript and every style of a page (or of a partial it includes), however many there are, is replaced by a script or stylesheet
     link with the element's other attributes and the address of a published file of its own, numbered in the page's own folder below js/gen or css/gen,
     which is what ordinary processing makes of exactly the element's text, with the file's hash as the version. Scripts that refer to a file, data
     blocks and other types stay as they are; the files and the dependencies of their contents are reported when scanning and when building, and nothing
     is left in the sources, also while other pages are handled at the same time.""",
     ["inputs", "schedules"],
     "All pages with up to 3 inline elements whose text has up to 3 arbitrary characters and arbitrary attribute subsets.",
     "Tests cover literal scripts, one per page.",
     [HM + "outline.py"], [("OutlineManipulator", HM + "outline.py")])
prop("H04", "Picture markup offers exactly the produced images",
     """An image directive becomes a picture element listing exactly the outputs produced for that target, each with its own url
     and width, the fallback image having the requested size, and loading lazily exactly when asked.""",
     ["inputs"],
     "All metadata with up to 3 outputs of 2 formats and symbolic sizes.",
     "Tests cover one literal picture.",
     [IM + "manip.py", IM + "command.py"], [("ImagesManipulator", IM + "manip.py")])

# ------------------------------------------------------------------- images
prop("I01", "Cover-fit cropping always covers the target without distortion",
     """For every source size, target size and accepted crop settings, the computed crop lies inside the image left after the
     requested minimum crops, is not empty when that image is at least as large as the target, has the target's aspect ratio up to rounding, is as large as possible, and is placed according to the
     requested percentages; impossible requests are rejected.""",
     ["inputs"],
     "All source and target sizes up to 4096 and all crop settings (pre-crops up to the source size, percentages as reals in [0,1]).",
     "Tests check a few sizes.",
     [IM + "cover_fit.py"], [("cover_fit", IM + "cover_fit.py")])
prop("I02", "Generated resolutions never upscale and include the requested size",
     """The list of sizes generated for an image starts with the requested size, keeps its aspect ratio, never exceeds the source
     image or the configured maximum factor, is strictly increasing and has no duplicates.""",
     ["inputs", "configurations"],
     "All requested and source sizes up to 4096 and all resolution settings within range.",
     "Tests check a few sizes.",
     [IM + "resolutions.py"], [("get_unique_resolutions / steps", IM + "resolutions.py")])
prop("I03", "Image settings hash: equal settings equal hash, different settings differ",
     """The hash that decides whether processed images can be reused is the same for equal settings regardless of key order or
     process, and differs whenever one setting differs: a number, a character of a text, a setting added or removed.""",
     ["inputs", "configurations"],
     """All pairs of settings over the bounded settings structure that differ in one place, with symbolic values
     (the 64-bit polynomial cannot be injective over several settings at once).""",
     "No test compares hashes of different settings.",
     [IM + "settings.py"], [("hash_image_settings", IM + "settings.py")])
prop("I04", "Image metadata finds a target exactly when it was recorded for it",
     """Looking up the processed outputs of an image returns a recorded target exactly when the source contents, the settings
     and the requested size, crop and crop settings all match, and returns its outputs unchanged; storing and loading the records loses
     nothing, and anything stale is rebuilt, never reused and never an error.""",
     ["inputs", "histories"],
     "All metadata stores of up to 2 images with 2 targets each with symbolic values, all lookups.",
     "Tests look up only what they just stored.",
     [IM + "metadata.py"], [("get_target, add_target, load, store", IM + "metadata.py")])
prop("I05", "Image commands parse to exactly what was written",
     """An image directive is parsed into exactly the path, width, height, crop style, crop arguments and laziness
     written in it, with documented defaults for what is omitted; a path that starts with a slash is looked up in the public folder and
     any other one beside the page; and everything malformed (sizes that are not positive included) is
     rejected with an error; the same holds for the image requests a script makes in a .images.json file.""",
     ["inputs"],
     "All directives of the documented grammar with symbolic paths, numbers and spacing, and arbitrary suffixes of up to 3 characters.",
     "Tests parse a few literal commands.",
     [IM + "command.py", H + "image_glue.py"], [("parse_command", IM + "command.py")])
prop("I06", "The preferred export of each size is published and shows the right crop",
     """For every size and format of an image target exactly one picture is published whenever some configured export applies
     to that area: one that applies and that no other applicable export beats on encoded size divided by preference (encoded sizes below the
     format's minimum counting as the minimum). It shows exactly the fitted crop of the source scaled to that size, encoded with that export's options, and
     no rejected export is left behind.""",
     ["inputs", "configurations"],
     "All configurations of up to 3 exports with symbolic limits and encoded sizes, up to 3 resolutions, all crops of pictures of 24 to 40 pixels.",
     "Tests only check that pictures exist.",
     [IM + "exporter.py", IM + "settings.py"], [("export_command, produce_image", IM + "exporter.py"), ("compare_in_format", IM + "settings.py")])
prop("I07", "The images.js module lists exactly the pictures produced for its list",
     """Building a list of pictures (.images.json) publishes a module that exports, under every name of the list, the settings of that
     picture (defaults filled in) and exactly the outputs produced for it, each with its format, size, export and a url that leads to the published picture, and
     stores the module's digest beside it; building a changed list leaves no outdated entry. A placeholder is generated in the sources only when
     configured and never replaces a file that exists, nothing else is written there, and no source .images.js is ever published. A list with an
     entry that cannot be honoured produces nothing and fails nothing.""",
     ["inputs", "configurations", "histories"],
     "All lists of up to 2 (thorough 3) entries over names, pictures, sizes, crops, formats and resolutions; two builds with different lists; malformed entries.",
     "Tests cover one literal list.",
     [H + "image_glue.py", IM + "exporter.py", IM + "scanner.py"], [("scan_file / build_file", H + "image_glue.py")])
