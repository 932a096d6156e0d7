"""sub(path, old, new): replace the only occurrence, keeping the file's line endings."""


def sub(path, old, new, root="/repo/"):
    t = open(root + path, newline="").read()
    if "\r\n" in t:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert t.count(old) == 1, "%d matches in %s" % (t.count(old), path)
    open(root + path, "w", newline="").write(t.replace(old, new))
