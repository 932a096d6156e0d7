SEEDS = []


def seed(**k):
    SEEDS.append(k)


IO = "vanillaplusjs/build/ioutil.py"
CF = "vanillaplusjs/build/html/manips/images/cover_fit.py"
GR = "vanillaplusjs/build/graph.py"

seed(id="I01-pre-bottom", property="I01",
     edits=[(CF, """            source_height=source_height - pre_top_crop - pre_bottom_crop,
            dest_width""", """            source_height=source_height - max(pre_top_crop, pre_bottom_crop),
            dest_width""")],
     demo="""
from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
x, y, w, h = cover_fit(1000, 1000, 10, 1000, pre_top_crop=100, pre_bottom_crop=200)
assert y >= 100 and y + h <= 800, (x, y, w, h)
""",
     needs="both a top and a bottom minimum crop on one image",
     breaks="the crop rectangle reaches into the bottom area that must be cut off")

seed(id="I01-floor", property="I01",
     edits=[(CF, """        crop_height = round(dest_height * source_resolution)""",
             """        crop_height = dest_height * int(source_resolution)""")],
     demo="""
from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
x, y, w, h = cover_fit(15, 40, 10, 10)
assert h == 15, (x, y, w, h)
""",
     needs="a source taller than the target whose width is not a multiple of the target's",
     breaks="the crop has another aspect ratio than the target, so the image is distorted")

seed(id="O07-set-children-alias", property="O07",
     edits=[(GR, """        for child in node.children:
            child.parents.remove(node)
        node.children.clear()
        for child in children:
            child_node = self.nodes[child]
            child_node.parents.append(node)
            node.children.append(child_node)

    def __repr__""", """        kept = set(children)
        for child in node.children:
            if child.path not in kept:
                child.parents.remove(node)
        known = set(child.path for child in node.children)
        node.children.clear()
        for child in children:
            child_node = self.nodes[child]
            if child not in known:
                child_node.parents.append(node)
            node.children.append(child_node)

    def __repr__""")],
     demo="""
from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
g.add_file("a", 1, 1, 1)
g.add_file("b", 1, 1, 1)
g.set_children("a", ["b", "b"])
g.set_children("a", ["b"])
assert g.get_parents("b") == ["a"], g.get_parents("b")
""",
     needs="a child listed twice, then once",
     breaks="parents and children disagree about the edges")

seed(id="O07-remove-clear", property="O07",
     edits=[(GR, """        if node.children:
            for child in node.children:
                child.parents.remove(node)
            node.children.clear()

        del""", """        if node.children and not node.parents:
            for child in node.children:
                child.parents.remove(node)
            node.children.clear()

        del"""),
            (GR, """            for parent in node.parents:
                parent.children.remove(node)
            node.parents.clear()

        if""", """            for parent in node.parents:
                parent.children.remove(node)

        if""")],
     demo="""
from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
for n in "abc":
    g.add_file(n, 1, 1, 1)
g.set_children("b", ["c"])
g.set_children("a", ["b"])
g.remove_file("b", clear_parents=True, clear_children=True)
assert g.get_parents("c") == [], g.get_parents("c")
""",
     needs="removing a file which has both parents and children",
     breaks="a removed file stays behind as a parent")

seed(id="O08-mtime", property="O08",
     edits=[(GR, """                        "mtime": node.mtime,""", """                        "mtime": round(node.mtime, 7),""")],
     demo="""
import io
from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
g.add_file("a", 1, 1.1234567890123, 1)
fp = io.StringIO()
g.store(fp)
fp.seek(0)
assert FileDependencyGraph.load(fp) == g
""",
     needs="a modification time with more than seven decimals",
     breaks="signatures change across store and load, so files look modified")

seed(id="O08-node-order", property="O08",
     edits=[(GR, """            for path, item in json.load(fp).items():
                node: FileDependencyGraphNode = nodes.get(path)
                if node is None:
                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])
                    nodes[path] = node
""", """            for path, item in json.load(fp).items():
                node: FileDependencyGraphNode = nodes.get(path)
                if node is None or not item["children"]:
                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])
                    nodes[path] = node
""")],
     demo="""
import io
from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
g.add_file("b", 1, 1, 1)
g.add_file("a", 1, 1, 1, children=["b"])
h = FileDependencyGraph()
h.add_file("a", 1, 1, 1)
h.add_file("b", 2, 2, 2)
h.set_children("a", ["b"])
fp = io.StringIO()
h.store(fp)
fp.seek(0)
r = FileDependencyGraph.load(fp)
assert r.nodes["a"].children[0].filesize == 2
assert r == h
""",
     needs="a file stored after a file that depends on it",
     breaks="the loaded graph holds two nodes for one file, with the wrong signature behind the edge")
