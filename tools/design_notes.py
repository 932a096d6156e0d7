"""How each property is decided (what the harness does, against what, why tests cannot)."""
ORCH = """The real `cold_incremental_rebuild`, `hot_incremental_rebuild` and `graph.py` run over an in-memory project whose files carry their own dependency list; the handlers are a stand-in
that reads dependencies and outputs from the file, so that the relation between files is symbolic, and the process pool completes calls in a symbolic order. """
NOTES = {
    "O01": ORCH + """After every build the outputs, artifacts and stored graphs are compared with those of a clean build of the same sources (made by the oracle in `orch.py`, which has no graph).
Tests build a few fixed projects in one order; here all relations, edits and orders within the bounds are covered.""",
    "O02": ORCH + """Every call records what it reads; a call that starts before a file it depends on is finished, or that runs at the same time as another one that writes the same file, is a violation. Races cannot be
shown by tests that run with whatever order the machine happens to have.""",
    "O03": ORCH + """A scan or build raises at a symbolic point, or the process is killed at any modification of the disk (every write, rename, unlink and mkdir asks a symbolic variable); then later builds have to give what a clean build gives.""",
    "O04": ORCH + """After builds with symbolic edits the project is built once more without any change: no handler may run, no output may be written, and the graphs must be stored again as they were.""",
    "O05": ORCH + """All dependency relations, cyclic or not; a cycle has to be reported as an error, and everything else has to end. "Does not terminate" is a path that exceeds the step limit; it is replayed like any other counterexample.""",
    "O06": """`cold_incremental_rebuild` walks a real folder while `os.lstat` answers with symbolic sizes, times and inodes, against a symbolic record; the lists passed to the hot rebuild have to be exactly the added, changed and
deleted files, for all values of the signatures.""",
    "O07": """One arbitrary operation of `FileDependencyGraph` from an arbitrary consistent graph (so that by induction every sequence is covered for graphs of that size), and all short sequences from the empty graph; afterwards the
parents, children, nodes and signatures have to agree with a set-of-edges oracle, and no operation may change what it was given.""",
    "O08": "`store` writes a symbolic graph to an in-memory stream, `load` reads it back; equal in all files, edges and signatures. Strings are symbolic up to any code point, so escaping is covered.",
    "O09": "The real watcher class of `runners/dev.py` gets file events in a symbolic order and timing against a small file system; after the last rebuild that succeeded, every file must have been rebuilt after its last change.",
    "O10": "The real builds with `external_files` of symbolic configurations and a server with symbolic answers; afterwards each declared file has the declared content or the build failed, and undeclared files are gone.",
    "O11": "All handlers' `scan_file` and `build_file` run for a symbolic path; what they write must be at the mirrored path below out/www (or generated below the page's own folder), only for files in src/public, and never at the same place for two sources.",
    "O12": "`runners/clean.py` runs on a symbolic tree; afterwards everything recorded or below out/ and artifacts/ is gone (if confirmed), and everything else is untouched. All deletions happen in the in-memory tree.",
    "O13": "`runners/init.py` runs on a symbolic tree of existing files; nothing that was there may change, everything else is created with the fixed content, and the result builds.",
    "O14": "`load_image_settings`, `load_external_files`, `load_js_constants` and `runners/build.py` run on configurations with symbolic numbers, texts and presence of settings; what arrives at the (intercepted) rebuild is compared with what was written, and wrong configurations must fail before it.",
    "C01": "`LinkHash` and the HTML builder run for tags with symbolic addresses; the oracle resolves the address as a browser does (percent-decoding, dot segments, hosts) and says which file it names and which url has to be written.",
    "C02": "The real JavaScript tokenizer, `HashImports`, builder and serializer run on modules composed of symbolic parts; expected: each local import names the file and its hash, others are unchanged, and dependencies are exactly the imported files.",
    "C03": "The real CSS tokenizer, `VersionURLs`, builder and serializer; as C01, with the value of the url token as a browser reads it.",
    "C04": "The real `scan_file` and `build_file` run on files composed of every construct the handlers know; the in-memory disk records what the build reads and writes. Scanned dependencies and outputs must be those of the build, and contain all that it touched.",
    "T01": "Whole sheets through tokenizer and serializer with symbolic characters; `cssref.py` (written from CSS Syntax 3) reads input and output, and both must have the same tokens with the same values (white space and comments aside).",
    "T02": "Programs composed so that the expected tokens are known by construction (what a slash means after each beginning; what is in strings, templates, regular expressions); the output has to have the same tokens, values and line breaks where they matter.",
    "T03": "The HTML, CSS and JavaScript builders and `JSYieldManipulator` run with manipulators whose decisions are symbolic; the output must be what replacing the marked tokens, one manipulator after the other, gives.",
    "T04": "`PeekableTextIO` and `PreprocessedTextIO` over a symbolic text with symbolic sequences of reads and peeks; each result must be the next characters of the (preprocessed) text, and a peek must not consume.",
    "T05": "`js_constants` writes the file for symbolic constants; a JavaScript reader written for the check reads it, and must find exactly the configured values.",
    "T06": "The real handler builds sheets composed of rules, imports and noise, with symbolic selectors; an independent expander gives the expected sheet, and both are compared as tokens by `cssref.py`.",
    "T07": "The real handler builds sheets with data urls of symbolic payloads; the oracle decodes per the WHATWG data url algorithm; files, names, hashes, urls and declared outputs are compared.",
    "T08": "The real `load_icon_settings`, `scan_file` and `build_file` run on a main sheet, a picture and a directive composed of symbolic choices (and symbolic digits, names and picture text); the output must have the same CSS tokens as a sheet written from the documented expansion, and the published pictures, hashes, dependencies and outputs must be exactly those it needs.",
    "T09": "The real handler, and html5lib and minidom themselves (instrumented like the repository's code), parse, walk and serialize a page with symbolic characters in a place of it; the output is parsed again, and z3 decides for every path that both token streams are the same for all characters.",
    "H01": "`LinkRelCanonicalManipulator` runs for symbolic page names, hosts and addresses; the oracle resolves urls by RFC 3986 and the WHATWG path rules.",
    "H02": "`TemplateManipulator` expands partials with symbolic variables; the oracle expands them from the composition of the pages.",
    "H03": "`OutlineManipulator` on pages with symbolic scripts and styles; the files written have to have exactly the text, once each, with names of their own, and the tags have to refer to them with the hash.",
    "H04": "`ImagesManipulator` on symbolic pages and pictures; the markup must offer exactly the exports on disk, in order of preference, with the type and size they have.",
    "I01": "`cover_fit` runs on symbolic integers and reals; z3 decides the inequalities (inside of the picture, covers the target, aspect ratio within one pixel, maximal) for all values.",
    "I02": "`resolutions.py` runs with symbolic sizes; sizes have to be increasing, without repetitions, up to the picture's size or factor, and contain the requested one.",
    "I03": """The settings hash runs on symbolic settings. z3 shows that two settings that differ in one place have different hashes, and that the order of keys is irrelevant. The hash is a 64-bit polynomial, so that several
differences at once can cancel (a counting argument); also an option 128 and an option "a" collide since types are not part of it. Both are outside of the property as stated.""",
    "I04": "`metadata.py` and the scanner run with symbolic records and requests; a target is found if and only if it was recorded for the same content, crop, size and settings.",
    "I05": "The command parser runs on symbolic command texts: what the documented grammar can write is parsed to what it says, all else is refused.",
    "I06": "`exporter.py` runs with a model of Pillow whose encoded sizes are symbolic; the published export must be the one the preferences ask for, and show the right part of the picture.",
    "I07": "`image_glue.py` builds an images.json file in an in-memory project with a model of Pillow; the module it writes is read back with the reader of T05 and must list exactly the published pictures of each entry, format and size.",
}
