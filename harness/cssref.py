"""Reference CSS tokenizer, written from CSS Syntax Level 3 section 4
(independent of the repository).  Comments are dropped (they separate tokens),
numbers are kept as the exact decimal value of their source representation.
Used as the meaning of a stylesheet: two texts mean the same if they have the
same reference tokens."""

HEX = "0123456789abcdefABCDEF"
DIG = "0123456789"
WS = "\n\t "


def is_hex(c):
    return c in HEX


def is_digit(c):
    return c in DIG


def is_name_start(c):
    o = ord(c)
    return o >= 0x80 or (65 <= o and o <= 90) or (97 <= o and o <= 122) or o == 95


def is_name(c):
    o = ord(c)
    return o >= 0x80 or (65 <= o and o <= 90) or (97 <= o and o <= 122) or o == 95 or (48 <= o and o <= 57) or o == 45


def is_nonprint(c):
    o = ord(c)
    return o <= 8 or o == 11 or (o >= 14 and o <= 31) or o == 127


class Ref:
    def __init__(self, text):
        self.t = text
        self.i = 0
        self.n = len(text)

    def at(self, k=0):
        j = self.i + k
        return self.t[j] if j < self.n else ""

    def valid_escape(self, k):
        if self.at(k) == "\\":
            c = self.at(k + 1)
            # a backslash at the end of the input is a valid escape start in the spec
            return c != "\n"
        return False

    def starts_ident(self, k):
        c = self.at(k)
        if c == "":
            return False
        if c == "-":
            d = self.at(k + 1)
            if d == "":
                return False
            return is_name_start(d) or d == "-" or self.valid_escape(k + 1)
        if is_name_start(c):
            return True
        if c == "\\":
            return self.valid_escape(k)
        return False

    def starts_number(self, k):
        c = self.at(k)
        if c == "":
            return False
        if c in "+-":
            d = self.at(k + 1)
            if d != "" and is_digit(d):
                return True
            if d == ".":
                e = self.at(k + 2)
                return e != "" and is_digit(e)
            return False
        if c == ".":
            d = self.at(k + 1)
            return d != "" and is_digit(d)
        return is_digit(c)

    def escaped(self):
        """after the backslash"""
        c = self.at()
        if c == "":
            return "\ufffd"
        if is_hex(c):
            h = ""
            while len(h) < 6 and self.at() != "" and is_hex(self.at()):
                h = h + self.at()
                self.i += 1
            if self.at() != "" and self.at() in WS:
                self.i += 1
            v = int(h, 16)
            if v == 0 or (0xD800 <= v and v <= 0xDFFF) or v > 0x10FFFF:
                return "\ufffd"
            return chr(v)
        self.i += 1
        return c

    def name(self):
        out = ""
        while True:
            c = self.at()
            if c == "":
                return out
            if is_name(c):
                out = out + c
                self.i += 1
            elif self.valid_escape(0):
                self.i += 1
                out = out + self.escaped()
            else:
                return out

    def number(self):
        """(sign, digits text normalised..., is_integer)"""
        sign = ""
        c = self.at()
        if c != "" and c in "+-":
            sign = c
            self.i += 1
        ip = ""
        while self.at() != "" and is_digit(self.at()):
            ip = ip + self.at()
            self.i += 1
        fp = ""
        integer = True
        if self.at() == "." and self.at(1) != "" and is_digit(self.at(1)):
            integer = False
            self.i += 1
            while self.at() != "" and is_digit(self.at()):
                fp = fp + self.at()
                self.i += 1
        ep = ""
        e0 = self.at()
        if e0 != "" and e0 in "eE":
            d = self.at(1)
            if d != "" and is_digit(d):
                ok, adv = True, 1
            elif d != "" and d in "+-" and self.at(2) != "" and is_digit(self.at(2)):
                ok, adv = True, 2
                if d == "-":
                    ep = "-"
            else:
                ok, adv = False, 0
            if ok:
                integer = False
                self.i += adv
                while self.at() != "" and is_digit(self.at()):
                    ep = ep + self.at()
                    self.i += 1
        return sign, ip, fp, ep, integer

    def numeric(self):
        sign, ip, fp, ep, integer = self.number()
        val = num_value(sign, ip, fp, ep)
        signed = sign != ""
        if self.starts_ident(0):
            return ("dimension", val, signed, integer, self.name())
        if self.at() == "%":
            self.i += 1
            return ("percentage", val)
        return ("number", val, signed, integer)

    def ident_like(self):
        nm = self.name()
        if len(nm) == 3 and self.at() == "(" and nm.lower() == "url":
            self.i += 1
            while self.at() != "" and self.at() in WS and self.at(1) != "" and self.at(1) in WS:
                self.i += 1
            a, b = self.at(), self.at(1)
            if a == '"' or a == "'":
                return ("function", nm.lower())
            if a != "" and a in WS and (b == '"' or b == "'"):
                return ("function", nm.lower())
            return self.url()
        if self.at() == "(":
            self.i += 1
            return ("function", nm)
        return ("ident", nm)

    def url(self):
        val = ""
        while self.at() != "" and self.at() in WS:
            self.i += 1
        while True:
            c = self.at()
            if c == "":
                return ("url", val)
            self.i += 1
            if c == ")":
                return ("url", val)
            if c in WS:
                while self.at() != "" and self.at() in WS:
                    self.i += 1
                if self.at() == "":
                    return ("url", val)
                if self.at() == ")":
                    self.i += 1
                    return ("url", val)
                self.bad_url()
                return ("bad_url",)
            if c in "\"'(" or is_nonprint(c):
                self.bad_url()
                return ("bad_url",)
            if c == "\\":
                self.i -= 1
                if self.valid_escape(0):
                    self.i += 1
                    val = val + self.escaped()
                    continue
                self.i += 1
                self.bad_url()
                return ("bad_url",)
            val = val + c

    def bad_url(self):
        while True:
            c = self.at()
            if c == "":
                return
            if self.valid_escape(0):
                self.i += 1
                self.escaped()
                continue
            self.i += 1
            if c == ")":
                return

    def string(self):
        q = self.at()
        self.i += 1
        val = ""
        while True:
            c = self.at()
            if c == "":
                return ("string", val)
            if c == q:
                self.i += 1
                return ("string", val)
            if c == "\n":
                return ("bad_string",)
            if c == "\\":
                d = self.at(1)
                self.i += 1
                if d == "":
                    continue
                if d == "\n":
                    self.i += 1
                    continue
                val = val + self.escaped()
                continue
            val = val + c
            self.i += 1

    def next(self):
        c = self.at()
        if c == "":
            return ("eof",)
        if c == "/" and self.at(1) == "*":
            self.i += 2
            while self.at() != "":
                if self.at() == "*" and self.at(1) == "/":
                    self.i += 2
                    return None
                self.i += 1
            return None
        if c in WS:
            while self.at() != "" and self.at() in WS:
                self.i += 1
            return ("ws",)
        if c == '"' or c == "'":
            return self.string()
        if c == "#":
            d = self.at(1)
            if (d != "" and is_name(d)) or self.valid_escape(1):
                is_id = self.starts_ident(1)
                self.i += 1
                return ("hash", self.name(), bool(is_id))
            self.i += 1
            return ("delim", "#")
        if c == "+" or c == "-" or c == ".":
            if self.starts_number(0):
                return self.numeric()
            if c == "-":
                if self.at(1) == "-" and self.at(2) == ">":
                    self.i += 3
                    return ("cdc",)
                if self.starts_ident(0):
                    return self.ident_like()
            self.i += 1
            return ("delim", c)
        if c in "(){}[],:;":
            self.i += 1
            return ("punct", c)
        if c == "<":
            if self.at(1) == "!" and self.at(2) == "-" and self.at(3) == "-":
                self.i += 4
                return ("cdo",)
            self.i += 1
            return ("delim", c)
        if c == "@":
            if self.starts_ident(1):
                self.i += 1
                return ("at", self.name())
            self.i += 1
            return ("delim", c)
        if c == "\\":
            if self.valid_escape(0):
                return self.ident_like()
            self.i += 1
            return ("delim", c)
        if is_digit(c):
            return self.numeric()
        if is_name_start(c):
            return self.ident_like()
        self.i += 1
        return ("delim", c)

    def all(self):
        out = []
        while True:
            t = self.next()
            if t is None:
                continue
            if t[0] == "eof":
                return out
            out.append(t)


def num_value(sign, ip, fp, ep):
    """Exact value as (integer mantissa, exponent of ten), normalised.  Digit
    strings may be symbolic; values stay symbolic where they can."""
    mant = ip + fp
    m = int(mant) if mant != "" else 0
    if sign == "-":
        m = -m
    e = -len(fp)
    if ep != "" and ep != "-":
        e = e + int(ep)
    return (m, e)


def num_equal(a, b):
    (m1, e1), (m2, e2) = a, b
    d = e1 - e2
    k = int(d)  # concretised: exponents are short
    if k >= 0:
        return m1 * (10 ** k) == m2
    return m1 == m2 * (10 ** -k)


def tokens(text):
    return Ref(text).all()


def same(a, b):
    """Are two reference token lists equal?"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        if x[0] != y[0]:
            return False
        if x[0] in ("number", "dimension", "percentage"):
            if not num_equal(x[1], y[1]):
                return False
            for p, q in zip(x[2:], y[2:]):
                if not (p == q):
                    return False
            continue
        for p, q in zip(x[1:], y[1:]):
            if not (p == q):
                return False
    return True
