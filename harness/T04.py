"""Text streams: peek/read sequences against the (normalised) text."""
from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
from harness.sio import TextIn

SIZES = (-1, 1, 2, 3)
OPS = [(k, n) for k in ("read", "peek") for n in SIZES]


def normalised(text):
    """Newline normalisation of https://www.w3.org/TR/css-syntax-3/#input-preprocessing"""
    out = ""
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\r":
            if i + 1 < len(text) and text[i + 1] == "\n":
                i += 1
            out = out + "\n"
        elif c == "\f":
            out = out + "\n"
        else:
            out = out + c
        i += 1
    return out


def scen(make, norm, length, nops, ops=OPS):
    def fn(s):
        text = s.text("t", length)
        want = normalised(text) if norm else text
        st = make(TextIn(text))
        pos = 0
        log = []
        for k in range(nops):
            kind, n = s.choice("op%d" % k, ops)
            got = getattr(st, kind)(n)
            exp = want[pos:] if n == -1 else want[pos: pos + n]
            log.append(got)
            if len(exp) == 0:
                s.check(got is None or got == "", "%s(%d) at the end returns text" % (kind, n))
                s.reach("at-end")
            else:
                s.check(got is not None, "%s(%d) reports the end early" % (kind, n))
                s.check(got == exp, "%s(%d) differs from the text at this position" % (kind, n))
                s.reach("text")
            if kind == "read":
                pos += len(exp)
        # whatever happened before, the rest is still there, once
        rest = st.read(-1) or ""
        s.check(rest == want[pos:], "the remaining text is not what has not been read yet")
        s.check(not st.read(-1), "text after the end")
        s.observe("log", log)
        s.reach("end")

    return fn


def scenarios(tier):
    out = []
    lens, nops = ((0, 1, 2, 3, 4), 2) if tier == "quick" else ((0, 1, 2, 3, 4, 5), 3)
    for n in lens:
        out.append(dict(name="peekable-%d" % n, fn=scen(PeekableTextIO, False, n, nops),
                        reach=["end", "at-end"] + (["text"] if n else [])))
        out.append(dict(name="preprocessed-%d" % n,
                        fn=scen(lambda fp: PreprocessedTextIO(PeekableTextIO(fp)), True, n, nops),
                        reach=["end", "at-end"] + (["text"] if n else [])))
    # long enough for a peek of three characters over pairs
    for n in (5, 6) if tier == "quick" else (6,):
        out.append(dict(name="preprocessed-long-%d" % n,
                        fn=scen(lambda fp: PreprocessedTextIO(PeekableTextIO(fp)), True, n, nops,
                                [("peek", -1), ("peek", 2), ("peek", 3), ("read", 2)]), reach=["end", "text"]))
    if tier == "quick":
        out.append(dict(name="peekable-3ops", fn=scen(PeekableTextIO, False, 2, 3), reach=["end"]))
        out.append(dict(name="preprocessed-3ops",
                        fn=scen(lambda fp: PreprocessedTextIO(PeekableTextIO(fp)), True, 3, 3), reach=["end"]))
    return out


BOUNDS = ("texts of up to 4 (thorough 5) arbitrary code points, all sequences of 2-3 (thorough 3) reads and peeks "
          "with sizes -1, 1, 2, 3, followed by a read of everything")
OUTSIDE = "longer texts and sequences, size 0, lone surrogates, streams that return short reads before the end"
STUBS = ["the wrapped text stream is an in-memory stream with the contract of io.TextIOBase.read"]
