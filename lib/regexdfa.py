"""Regular languages of the regex literals: ECMAScript subset -> DFA over bytes; inclusion,
disjointness and witnesses are decided by product construction (no string is ever matched)."""
from functools import lru_cache

ICASE, NOSUBS, OPTIMIZE, COLLATE, ECMA = 1, 2, 4, 8, 16
ALL = frozenset(range(256))


class Unsupported(Exception):
    pass


CLS = {"d": frozenset(range(48, 58)), "w": frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95]),
       "s": frozenset((9, 10, 11, 12, 13, 32))}
NAMED = {"digit": CLS["d"], "d": CLS["d"], "alpha": frozenset(list(range(65, 91)) + list(range(97, 123))), "space": CLS["s"], "s": CLS["s"],
         "alnum": CLS["w"] - {95}, "w": CLS["w"], "lower": frozenset(range(97, 123)), "upper": frozenset(range(65, 91))}
ESC = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "0": 0}


class NFA:
    def __init__(self):
        self.n = 0
        self.eps, self.tr = {}, {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, cs, b):
        self.tr.setdefault(a, []).append((cs, b))


class Parser:
    def __init__(self, s, icase):
        self.s, self.i, self.ic = s, 0, icase
        self.a = NFA()

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def lits(self, cs):
        if self.ic:
            x = set(cs)
            for c in cs:
                if 65 <= c <= 90:
                    x.add(c + 32)
                if 97 <= c <= 122:
                    x.add(c - 32)
            return frozenset(x)
        return frozenset(cs)

    def alt(self):
        fr = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            fr.append(self.cat())
        if len(fr) == 1:
            return fr[0]
        s, e = self.a.new(), self.a.new()
        for x, y in fr:
            self.a.e(s, x)
            self.a.e(y, e)
        return s, e

    def cat(self):
        s = self.a.new()
        e = s
        while self.peek() not in (None, "|", ")"):
            x, y = self.rep()
            self.a.e(e, x)
            e = y
        return s, e

    def rep(self):
        start = self.i
        x, y = self.atom()
        end = self.i
        while True:
            c = self.peek()
            if c in ("*", "+", "?"):
                self.i += 1
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            elif c == "{":
                j = self.s.index("}", self.i)
                t = self.s[self.i + 1:j].split(",")
                lo = int(t[0])
                hi = lo if len(t) == 1 else (int(t[1]) if t[1] else None)
                self.i = j + 1
            else:
                return x, y
            if self.peek() == "?":
                self.i += 1
            save = self.i

            def copy():
                p = self.i
                self.i = start
                r = self.atom()
                self.i = p
                return r
            s = self.a.new()
            cur = s
            if lo > 64 or (hi or 0) > 64:
                raise Unsupported("large repetition")
            for _ in range(lo):
                a, b = copy()
                self.a.e(cur, a)
                cur = b
            out = self.a.new()
            if hi is None:
                a, b = copy()
                m = self.a.new()
                self.a.e(cur, m)
                self.a.e(m, a)
                self.a.e(b, m)
                self.a.e(m, out)
            else:
                self.a.e(cur, out)
                for _ in range(hi - lo):
                    a, b = copy()
                    self.a.e(cur, a)
                    cur = b
                    self.a.e(cur, out)
            self.i = save
            x, y = s, out
            if self.peek() in ("*", "+", "{"):
                raise Unsupported("nested quantifier")

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            if self.s[self.i:self.i + 2] == "?:":
                self.i += 2
            elif self.peek() == "?":
                raise Unsupported("lookaround")
            r = self.alt()
            if self.peek() != ")":
                raise Unsupported("paren")
            self.i += 1
            return r
        if c == "[":
            cs = self.cls()
        elif c == ".":
            cs = ALL - {10, 13}
        elif c == "\\":
            cs = self.lits(self.esc())
        elif c in ("^", "$"):
            # regex_match anchors both ends anyway; only meaningful at the ends
            if (c == "^" and self.i == 1) or (c == "$" and self.i == len(self.s)):
                s = self.a.new()
                return s, s
            raise Unsupported("inner anchor")
        elif c in ("*", "+", "?", "{", "}", "]"):
            raise Unsupported("syntax " + c)
        else:
            cs = self.lits({ord(c)})
        s, e = self.a.new(), self.a.new()
        self.a.t(s, frozenset(cs), e)
        return s, e

    def esc(self):
        c = self.peek()
        self.i += 1
        if c in CLS:
            return CLS[c]
        if c is not None and c.lower() in CLS and c.isupper():
            return ALL - CLS[c.lower()]
        if c in ESC:
            return frozenset((ESC[c],))
        if c is None or c.isalnum():
            raise Unsupported("escape")
        return frozenset((ord(c),))

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        cs = set()
        while self.peek() != "]":
            c = self.peek()
            if c is None:
                raise Unsupported("class")
            if c == "[" and self.s[self.i + 1:self.i + 2] in (":", ".", "="):
                j = self.s.index("]", self.i)
                nm = self.s[self.i + 2:j - 1]
                if self.s[self.i + 1] != ":" or nm not in NAMED:
                    raise Unsupported("class name")
                cs |= NAMED[nm]
                self.i = j + 1
                continue
            self.i += 1
            if c == "\\":
                a = self.esc()
                if len(a) > 1:
                    cs |= a
                    continue
                (lo,) = a
            else:
                lo = ord(c)
            if self.peek() == "-" and self.s[self.i + 1:self.i + 2] not in ("]", ""):
                self.i += 1
                d = self.peek()
                self.i += 1
                hi = ord(d)
                if d == "\\":
                    (hi,) = self.esc()
                cs |= set(range(lo, hi + 1))
            else:
                cs.add(lo)
        self.i += 1
        cs = self.lits(cs)
        return ALL - cs if neg else cs


class DFA:
    def __init__(self, tr, acc, start=0):
        self.tr, self.acc, self.start = tr, acc, start   # tr: list of list[256]


@lru_cache(maxsize=None)
def compile(pattern, flags=0):
    if flags & ~(ICASE | NOSUBS | OPTIMIZE | ECMA):
        raise Unsupported("grammar flags")
    p = Parser(pattern, bool(flags & ICASE))
    s, e = p.alt()
    if p.i != len(pattern):
        raise Unsupported("trailing")
    a = p.a

    def clo(xs):
        xs = set(xs)
        w = list(xs)
        while w:
            x = w.pop()
            for y in a.eps.get(x, ()):
                if y not in xs:
                    xs.add(y)
                    w.append(y)
        return frozenset(xs)
    st0 = clo({s})
    ids, work, tr = {st0: 0}, [st0], []
    while work:
        x = work.pop(0)
        row = [None] * 256
        tr.append(row)
        moves = {}
        for q in x:
            for cs, y in a.tr.get(q, ()):
                for c in cs:
                    moves.setdefault(c, set()).add(y)
        for c in range(256):
            y = clo(moves.get(c, ()))
            if y not in ids:
                ids[y] = len(ids)
                work.append(y)
            row[c] = ids[y]
    return DFA(tr, frozenset(i for x, i in ids.items() if e in x))


def literal(s):
    return compile("".join("\\" + c if not c.isalnum() else c for c in s))


def firstset(cs):
    """strings (non-empty) whose first byte is in cs"""
    tr = [[1 if c in cs else 2 for c in range(256)], [1] * 256, [2] * 256]
    return DFA(tr, frozenset((1,)))


def charat(k, cs, short=False):
    """strings whose byte k is in cs (short: or that are not longer than k)"""
    tr = [[i + 1] * 256 for i in range(k)] + [[k + 1 if c in cs else k + 2 for c in range(256)], [k + 1] * 256, [k + 2] * 256]
    return DFA(tr, frozenset((k + 1,)))


def literal_at(k, s):
    """strings with s at byte offset k"""
    m = len(s)
    acc, sink = k + m, k + m + 1
    tr = [[i + 1] * 256 for i in range(k)]
    for i, c in enumerate(s):
        tr.append([k + i + 1 if x == ord(c) else sink for x in range(256)])
    tr += [[acc] * 256, [sink] * 256]
    return DFA(tr, frozenset((acc,)))


def sizes(lo, hi):
    """strings of length lo..hi (hi None: unbounded)"""
    top = lo if hi is None else hi
    tr = [[min(i + 1, top if hi is None else top + 1)] * 256 for i in range(top + 1)]
    if hi is not None:
        tr.append([top + 1] * 256)
    return DFA(tr, frozenset(range(lo, top + 1)))


def witness(pos, neg=()):
    """shortest string in all of pos and none of neg, or None"""
    ds = list(pos) + list(neg)
    np = len(pos)
    start = tuple(d.start for d in ds)
    seen = {start: ""}
    work = [start]
    while work:
        nxt = []
        for x in work:
            if all((x[i] in d.acc) == (i < np) for i, d in enumerate(ds)):
                return seen[x]
            for c in list(range(33, 127)) + list(range(0, 33)) + list(range(127, 256)):
                y = tuple(d.tr[x[i]][c] for i, d in enumerate(ds))
                if y not in seen:
                    seen[y] = seen[x] + chr(c)
                    nxt.append(y)
        work = nxt
    return None


def subset(a, b):
    return witness([a], [b])


def equal(a, b):
    w = subset(a, b)
    return w if w is not None else subset(b, a)
