"""Text streams whose contents may be symbolic (same interface in replays)."""


class TextIn:
    """A readable text stream over a string."""

    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.text[self.pos:]
            self.pos = len(self.text)
            return r
        r = self.text[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        i = self.text.find("\n", self.pos)
        end = len(self.text) if i < 0 else i + 1
        r = self.text[self.pos:end]
        self.pos = end
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l


class TextOut:
    def __init__(self, done=None):
        self.text = ""
        self.done = done

    def write(self, s):
        self.text = self.text + s
        return len(s)

    def close(self):
        if self.done is not None:
            self.done(self.text)
            self.done = None

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
