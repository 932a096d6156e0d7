"""Do the edits of a folder of mutants match the code and compile?"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 1:
    os.environ["FOLDER"] = sys.argv[1]
import mutate
n = 0
for f, name, props, eds in mutate.load([]):
    txt = {}
    for path, old, new in eds:
        t = txt.get(path) or open("/repo/vanillaplusjs/" + path, newline="").read().replace("\r\n", "\n")
        if t.count(old) != 1:
            print(name, t.count(old), old[:60])
        txt[path] = t.replace(old, new)
    for path, t in txt.items():
        try:
            compile(t, path, "exec")
        except SyntaxError as e:
            print(name, e)
    n += 1
print(n)
