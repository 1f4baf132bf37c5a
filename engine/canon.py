"""Canonical values for the analysis of block functions (engine/kern.py, engine/x86.py).

Public values (sizes, counters, pointers) are linear in a few symbols (Lin). Data values belong to one of two
domains with canonical forms, so that two ways of computing the same thing give the same object:

Bits   machine words: a word is either a sum modulo 2^w of words, or an xor of and-products of rotated words under
       constant masks (algebraic normal form). This is canonical for rotations, shifts, masks and boolean functions
       of atoms, and for sums of those.
Ints   unsigned integers with exact ranges: polynomials over atoms, in which carries and truncations are floor
       quotients. A weighted sum of limbs loses its carries again by cancellation.
"""


class CanonError(Exception):
    pass


class DataDecision(CanonError):
    """flow or an address depends on the data processed."""


class Garbage:
    """a value that differs from one iteration to the next in no way the analysis follows."""
    def __repr__(self):
        return "garbage"


GARB = Garbage()


# ---- public values ----------------------------------------------------------------------------------------------
class Lin:
    __slots__ = ("m", "c")

    def __init__(self, m, c):
        self.m = m
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Lin) and self.m == o.m and self.c == o.c

    def __hash__(self):
        return hash((self.m, self.c))

    def __repr__(self):
        s = ["%s%s" % ("" if v == 1 else "%d*" % v, k) for k, v in self.m]
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)


def lin(m, c):
    m = tuple(sorted((k, v) for k, v in m.items() if v))
    return Lin(m, c) if m else c


def lsym(name):
    return Lin(((name, 1),), 0)


def _d(a):
    return (dict(a.m), a.c) if isinstance(a, Lin) else ({}, a)


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    m, c = _d(a)
    n, d = _d(b)
    for k, v in n.items():
        m[k] = m.get(k, 0) + v
    return lin(m, c + d)


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    return lin({s: v * k for s, v in a.m}, a.c * k)


def lsub(a, b):
    return ladd(a, lmul(b, -1))


def lsubst(a, s, v):
    if not isinstance(a, Lin):
        return a
    m, c = _d(a)
    k = m.pop(s, 0)
    return ladd(lin(m, c), lmul(v, k))


def is_pub(v):
    return isinstance(v, (int, Lin))


class Cond:
    """pred over public values: eq, ne, ult, ule, slt, sle (unsigned and signed alike: all values are small)."""
    __slots__ = ("p", "a", "b")

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.p, self.a, self.b) == (o.p, o.a, o.b)

    def __hash__(self):
        return hash((self.p, self.a, self.b))

    def __repr__(self):
        return "%r %s %r" % (self.a, self.p, self.b)


NEG = {"eq": "ne", "ne": "eq"}


def cond(p, a, b):
    """normalised to eq, ne, ult, ule."""
    p = {"slt": "ult", "sle": "ule", "sgt": "ugt", "sge": "uge"}.get(p, p)
    if p == "ugt":
        return cond("ult", b, a)
    if p == "uge":
        return cond("ule", b, a)
    return Cond(p, a, b)


def negate(c):
    if c.p in NEG:
        return Cond(NEG[c.p], c.a, c.b)
    return Cond("ule" if c.p == "ult" else "ult", c.b, c.a)


def nonneg(a, facts=()):
    """is a >= 0, every symbol being >= 0 and every fact >= 0?"""
    def pos(x):
        return x >= 0 if isinstance(x, int) else x.c >= 0 and all(v >= 0 for _, v in x.m)
    if pos(a):
        return True
    for f in facts:
        if pos(lsub(a, f)):
            return True
    for f in facts:
        for g in facts:
            if pos(lsub(lsub(a, f), g)):
                return True
    return False


def decide(c, facts=()):
    d = lsub(c.b, c.a)          # b - a
    if c.p in ("eq", "ne"):
        if d == 0:
            return c.p == "eq"
        if nonneg(d, facts) and nonneg(lmul(d, -1), facts):
            return c.p == "eq"
        if nonneg(ladd(d, -1), facts) or nonneg(ladd(lmul(d, -1), -1), facts):
            return c.p == "ne"
        return None
    k = 1 if c.p == "ult" else 0
    if nonneg(ladd(d, -k), facts):
        return True
    if nonneg(ladd(lmul(d, -1), k - 1), facts):
        return False
    return None


def facts_of(c, facts=()):
    """consequences (each >= 0) of the condition being true."""
    d = lsub(c.b, c.a)
    if c.p == "eq":
        return (d, lmul(d, -1))
    if c.p == "ne":
        if nonneg(d, facts):
            return (ladd(d, -1),)
        if nonneg(lmul(d, -1), facts):
            return (ladd(lmul(d, -1), -1),)
        return ()
    return (ladd(d, -1 if c.p == "ult" else 0),)


def csubst(c, s, v):
    return Cond(c.p, lsubst(c.a, s, v), lsubst(c.b, s, v))


# ---- words ------------------------------------------------------------------------------------------------------
class V:
    """kind: atom (data: name), sum (((V, coefficient), ...), constant), anf (((factors, mask), ...), constant)."""
    __slots__ = ("w", "kind", "data", "h", "id")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


def show(v, d=0):
    if isinstance(v, int):
        return hex(v)
    if not isinstance(v, V):
        return repr(v)
    if v.kind == "atom":
        return v.data
    if d > 2:
        return "(..)"
    if v.kind == "sum":
        s = ["%s%s" % ("" if k == 1 else "%d*" % k, show(t, d + 1)) for t, k in v.data[0][:6]]
        if len(v.data[0]) > 6:
            s.append("..")
        if v.data[1]:
            s.append(hex(v.data[1]))
        return "(" + " + ".join(s) + ")"
    s = []
    full = (1 << v.w) - 1
    for f, m in v.data[0][:6]:
        x = "&".join(show(t, d + 1) + ("<<<%d" % r if r else "") for t, r in f)
        s.append(x if m == full else "%s&%x" % (x, m))
    if len(v.data[0]) > 6:
        s.append("..")
    if v.data[1]:
        s.append(hex(v.data[1]))
    return "(" + " ^ ".join(s) + ")"


class Bits:
    name = "bits"

    def __init__(self):
        self.tab = {}
        self.n = 0

    def mk(self, w, kind, data):
        k = (w, kind, data)
        v = self.tab.get(k)
        if v is None:
            v = V()
            self.n += 1
            v.w, v.kind, v.data, v.id = w, kind, data, self.n
            v.h = hash(self.n * 2654435761)
            self.tab[k] = v
        return v

    def atom(self, name, w):
        return self.mk(w, "atom", name)

    def fresh(self, name, w, vals=()):
        return self.atom(name, w)

    def lin(self, w, a):
        """a public value as data."""
        if isinstance(a, int):
            return a & ((1 << w) - 1)
        r = a.c & ((1 << w) - 1)
        for s, k in a.m:
            r = self.add(w, r, self.mulc(w, self.atom(s, w), k))
        return r

    def data(self, w, a):
        return self.lin(w, a) if isinstance(a, (int, Lin)) else a

    # normal forms
    def anf(self, w, v):
        if isinstance(v, int):
            return {}, v
        if v.kind == "anf":
            if v.w != w:
                raise CanonError("width")
            return dict(v.data[0]), v.data[1]
        if v.kind == "sum" and v.w == w and v.data[1] == (1 << w) - 1 and len(v.data[0]) == 1 and v.data[0][0][1] == v.data[1]:
            m, c = self.anf(w, v.data[0][0][0])         # -x - 1 is the complement of x
            return m, c ^ v.data[1]
        return {((v, 0),): (1 << v.w) - 1}, 0

    def mkanf(self, w, m, c):
        m = {f: k for f, k in m.items() if k}
        full = (1 << w) - 1
        if not m:
            return c & full
        if len(m) == 1:
            (f, k), = m.items()
            if len(f) == 1 and f[0][1] == 0 and f[0][0].w == w and k == full:
                if c == 0:
                    return f[0][0]
                if c == full:
                    return self.mksum(w, {f[0][0]: full}, full)
        return self.mk(w, "anf", (tuple(sorted(m.items(), key=_fkey)), c & full))

    def sum(self, w, v):
        if isinstance(v, int):
            return {}, v
        if v.kind == "sum" and v.w == w:
            return dict(v.data[0]), v.data[1]
        return {v: 1}, 0

    def mksum(self, w, m, c):
        mod = (1 << w) - 1
        out = {}
        for v, k in m.items():
            k &= mod
            if k:
                out[v] = k
        c &= mod
        if not out:
            return c
        if len(out) == 1 and c == 0:
            (v, k), = out.items()
            if k == 1:
                return v
        return self.mk(w, "sum", (tuple(sorted(out.items(), key=lambda e: e[0].id)), c))

    # operations
    def add(self, w, a, b):
        mod = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return a + b & mod
        if not isinstance(a, int) and not isinstance(b, int) and not (self.poss(w, a) & self.poss(w, b)):
            return self.xor(w, a, b)
        if isinstance(a, int) and a and not (a & self.poss(w, b)) and b.kind == "anf" or \
                isinstance(b, int) and b and not (b & self.poss(w, a)) and a.kind == "anf":
            return self.xor(w, a, b)
        m, c = self.sum(w, a)
        n, d = self.sum(w, b)
        for v, k in n.items():
            m[v] = m.get(v, 0) + k
        return self.mksum(w, m, c + d)

    def mulc(self, w, a, k):
        if isinstance(a, int):
            return a * k & (1 << w) - 1
        m, c = self.sum(w, a)
        return self.mksum(w, {v: x * k for v, x in m.items()}, c * k)

    def mul(self, w, a, b):
        if isinstance(a, int):
            return self.mulc(w, b, a)
        if isinstance(b, int):
            return self.mulc(w, a, b)
        raise CanonError("product of two words")

    def sub(self, w, a, b):
        return self.add(w, a, self.mulc(w, b, -1))

    def poss(self, w, v):
        """bits that can be set."""
        if isinstance(v, int):
            return v
        if v.kind == "anf":
            r = v.data[1]
            for _, k in v.data[0]:
                r |= k
            return r
        return (1 << v.w) - 1

    def xor(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        m, c = self.anf(w, a)
        n, d = self.anf(w, b)
        for f, k in n.items():
            m[f] = m.get(f, 0) ^ k
        return self.mkanf(w, m, c ^ d)

    def and_(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        m, c = self.anf(w, a)
        n, d = self.anf(w, b)
        out = {}
        for f, k in m.items():
            if d & k:
                out[f] = out.get(f, 0) ^ (d & k)
            for g, j in n.items():
                x = k & j
                if x:
                    h = _merge(f, g)
                    out[h] = out.get(h, 0) ^ x
            if len(out) > 20000:
                raise CanonError("product too large")
        for g, j in n.items():
            if c & j:
                out[g] = out.get(g, 0) ^ (c & j)
        return self.mkanf(w, out, c & d)

    def or_(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if not (self.poss(w, a) & self.poss(w, b)):
            return self.xor(w, a, b)
        return self.xor(w, self.xor(w, a, b), self.and_(w, a, b))

    # A factor (v, r) in a word of w bits: v, zero extended to w bits if it has fewer, rotated left by r (within w bits,
    # or within its own width if that is more) and cut to w bits.
    def _move(self, a, w, f):
        """f(mask, v, r) -> [(mask part, v, r')]: the factors of every monomial replaced, bit by bit."""
        m, c = a
        out = {}
        for fs, k in m.items():
            parts = {(): k}
            for v, r in fs:
                nxt = {}
                for g, x in parts.items():
                    for y, r2 in f(x, v, r):
                        if y:
                            h = g + ((v, r2),)
                            nxt[h] = nxt.get(h, 0) ^ y
                parts = nxt
            for g, x in parts.items():
                g = tuple(sorted(set(g), key=_vkey))
                out[g] = out.get(g, 0) ^ x
        return out

    def rotl(self, w, a, k):
        k %= w
        if isinstance(a, int):
            return (a << k | a >> w - k) & (1 << w) - 1
        if k == 0:
            return a
        full = (1 << w) - 1
        m, c = self.anf(w, a)
        out = {}
        for f, x in m.items():
            # the bits that go up, and those that come round
            hi, lo = (x << k) & full, x >> w - k
            for y, d in ((hi, k), (lo, k - w)):
                if y:
                    g = tuple(sorted(((v, (r + d) % max(v.w, w)) for v, r in f), key=_vkey))
                    out[g] = out.get(g, 0) ^ y
        return self.mkanf(w, out, (c << k | c >> w - k) & full)

    def shl(self, w, a, k):
        if k >= w:
            return 0
        if isinstance(a, int):
            return a << k & (1 << w) - 1
        return self.and_(w, self.rotl(w, a, k), ((1 << w) - 1) >> k << k)

    def lshr(self, w, a, k):
        if k >= w:
            return 0
        if isinstance(a, int):
            return a >> k
        return self.and_(w, self.rotl(w, a, w - k), ((1 << w) - 1) >> k)

    def zext(self, w, a, fw):
        """fw bits to w bits."""
        if isinstance(a, int) or w == fw:
            return a
        if w < fw:
            raise CanonError("zext")

        def f(x, v, r):
            c = max(v.w, fw)            # r turns within c bits
            if c >= w:
                return [(x, r)]
            lo = (1 << r) - 1           # bits that came round
            return [(x & ~lo, r), (x & lo, (r - c) % w)]
        m, c = self.anf(fw, a)
        return self.mkanf(w, self._move((m, c), w, f), c)

    def trunc(self, w, a, fw):
        if w == fw:
            return a
        mask = (1 << w) - 1
        if isinstance(a, int):
            return a & mask
        if a.kind == "sum":
            # a sum modulo 2^fw, modulo 2^w
            r = a.data[1] & mask
            for v, k in a.data[0]:
                r = self.add(w, r, self.mulc(w, self.trunc(w, v, fw), k))
            return r
        m, c = self.anf(fw, a)
        m = {f: k & mask for f, k in m.items() if k & mask}

        def f(x, v, r):
            if v.w >= fw:
                return [(x, r)]
            t = max(v.w, w)
            full = (1 << v.w) - 1
            valid = (full << r | full >> fw - r) & (1 << fw) - 1
            return [(x & valid, r % t)]
        return self.mkanf(w, self._move((m, c), w, f), c & mask)

    def byte(self, w, a, i):
        return self.trunc(8, self.lshr(w, a, 8 * i), w)

    def cat(self, parts):
        """[(value, bits), ...] little end first."""
        w = sum(n for _, n in parts)
        r, s = 0, 0
        for v, n in parts:
            r = self.xor(w, r, self.shl(w, self.zext(w, v, n), s))
            s += n
        return r

    def select(self, w, c, a, b):
        raise DataDecision("a choice depends on data")

    def icmp(self, p, w, a, b):
        raise CanonError("a comparison of data")

    def affine(self, w, a, b):
        """the constant b - a, if it is one."""
        d = self.sub(w, b, a)
        return d if isinstance(d, int) else None


def _vkey(e):
    return (e[0].id, e[1])


def _fkey(e):
    return tuple((v.id, r) for v, r in e[0])


def _merge(f, g):
    return tuple(sorted(set(f) | set(g), key=_vkey))


# ---- integers ---------------------------------------------------------------------------------------------------
class I:
    """polynomial over atoms (monomial -> coefficient) and its range."""
    __slots__ = ("p", "lo", "hi", "key")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi
        self.key = None

    def k(self):
        if self.key is None:
            self.key = tuple(sorted(self.p.items()))
        return self.key

    def __eq__(self, o):
        return isinstance(o, I) and self.p == o.p

    def __hash__(self):
        return hash(self.k())

    def __repr__(self):
        return "poly(%d terms in [%d,%d])" % (len(self.p), self.lo, self.hi)


class Ints:
    name = "ints"

    def __init__(self):
        self.atoms = []     # (name, lo, hi, definition or None); a monomial is a sorted tuple of atom indexes
        self.names = {}
        self.defs = {}
        self.xors = {}      # atom -> the two numbers it is the exclusive or of

    def atom(self, name, w=None, lo=0, hi=None):
        i = self.names.get(name)
        if hi is None:
            hi = (1 << w) - 1
        if i is None:
            i = len(self.atoms)
            self.atoms.append((name, lo, hi, None))
            self.names[name] = i
        return I({(i,): 1}, self.atoms[i][1], self.atoms[i][2])

    def fresh(self, name, w, vals=()):
        lo, hi = 0, 0
        for v in vals:
            v = self.data(w, v)
            lo, hi = min(lo, self.lo(v)), max(hi, self.hi(v))
        return self.atom("%s[%d,%d]" % (name, lo, hi), w, lo, hi)

    def within(self, new, old):
        return self.lo(new) >= self.lo(old) and self.hi(new) <= self.hi(old)

    @staticmethod
    def lo(v):
        return v if isinstance(v, int) else v.lo

    @staticmethod
    def hi(v):
        return v if isinstance(v, int) else v.hi

    @staticmethod
    def p(v):
        return ({(): v} if v else {}) if isinstance(v, int) else v.p

    def lin(self, w, a):
        if isinstance(a, int):
            return a & (1 << w) - 1
        raise CanonError("a counter used as data")

    def data(self, w, a):
        return self.lin(w, a) if isinstance(a, (int, Lin)) else a

    def mk(self, p, lo, hi):
        p = {m: k for m, k in p.items() if k}
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        l, h = self.range(p)
        return I(p, max(lo, l), min(hi, h))

    def range(self, p):
        lo = hi = 0
        for m, k in p.items():
            a = b = 1
            for i in m:
                l, h = self.atoms[i][1:3]
                e = (a * l, a * h, b * l, b * h)
                a, b = min(e), max(e)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def padd(self, a, b, kb=1):
        p = dict(self.p(a))
        for m, k in self.p(b).items():
            p[m] = p.get(m, 0) + k * kb
        lo = self.lo(a) + (self.lo(b) * kb if kb > 0 else self.hi(b) * kb)
        hi = self.hi(a) + (self.hi(b) * kb if kb > 0 else self.lo(b) * kb)
        return self.mk(p, lo, hi)

    def pmul(self, a, b):
        p = {}
        for m, k in self.p(a).items():
            for n, j in self.p(b).items():
                x = []
                for i in sorted(m + n):
                    if x and x[-1] == i and self.atoms[i][1] >= 0 and self.atoms[i][2] <= 1:
                        continue
                    x.append(i)
                x = tuple(x)
                p[x] = p.get(x, 0) + k * j
        es = [self.lo(a) * self.lo(b), self.lo(a) * self.hi(b), self.hi(a) * self.lo(b), self.hi(a) * self.hi(b)]
        return self.mk(p, min(es), max(es))

    def floor(self, a, d):
        if isinstance(a, int):
            return a // d
        if a.lo >= 0 and a.hi < d:
            return 0
        if a.lo >= -1 and a.hi <= 0:
            return a
        if a.lo < 0 <= a.hi < d:
            # a difference: the range of its parts may hide that it is never negative
            if self.bounds(a)[0] >= 0:
                return 0
        q, r = {}, {}
        for m, k in a.p.items():
            if m == ():
                c = k // d if len(a.p) == 1 else 0
                # a constant is split only when the rest is a multiple
                q[m], r[m] = c, k - c * d
                continue
            if k % d == 0:
                q[m] = k // d
            else:
                r[m] = k
        r = {m: k for m, k in r.items() if k}
        Q = self.mk(q, -1 << 4000, 1 << 4000)
        if not r:
            return self.clip(Q, a.lo // d, a.hi // d)
        if len(r) == 1 and () in r:
            return self.clip(self.padd(Q, r[()] // d), a.lo // d, a.hi // d)
        lo = a.lo - (self.hi(Q) * d)
        hi = a.hi - (self.lo(Q) * d)
        R = self.mk(r, -1 << 4000, 1 << 4000)
        if not self.p(Q):
            R = I(R.p, max(R.lo, a.lo), min(R.hi, a.hi))
        if R.lo >= 0 and R.hi < d:
            return self.clip(Q, a.lo // d, a.hi // d)
        if self.p(Q) and not (R.lo >= 0 or True):
            return None
        # low parts that never carry are dropped
        if d & d - 1 == 0:
            best = None
            for t in sorted({(k & -k).bit_length() - 1 for k in R.p.values()}, reverse=True):
                if 0 < t and 1 << t < d:
                    low = {m: k for m, k in R.p.items() if k % (1 << t)}
                    l, h = self.range(low)
                    if l >= 0 and h < 1 << t:
                        best = t
                        break
            if best:
                high = self.mk({m: k >> best for m, k in R.p.items() if not k % (1 << best)}, R.lo >> best, R.hi >> best)
                return self.clip(self.padd(Q, self.floor(high, d >> best)), a.lo // d, a.hi // d)
        # floor of a floor
        if len(R.p) == 1:
            (m, k), = R.p.items()
            if k == 1 and len(m) == 1 and self.atoms[m[0]][3]:
                e, f = self.atoms[m[0]][3]
                return self.clip(self.padd(Q, self.floor(e, f * d)), a.lo // d, a.hi // d)
        if R.lo // d == -1 and R.hi // d == 0:
            e = 1 << max(-R.lo - 1, R.hi).bit_length()
            if e < d:
                return self.clip(self.padd(Q, self.floor(R, e)), a.lo // d, a.hi // d)
            R = self.padd(R, d)         # a borrow: -1 + a 0/1 quotient
            Q = self.padd(Q, -1)
        key = (R.k(), d)
        i = self.defs.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(("q%d" % i, R.lo // d, R.hi // d, (R, d)))
            self.defs[key] = i
        elif self.atoms[i][1] < R.lo // d or self.atoms[i][2] > R.hi // d:
            n, l, h, df = self.atoms[i]
            self.atoms[i] = (n, max(l, R.lo // d), min(h, R.hi // d), df)
        at = self.atoms[i]
        return self.clip(self.padd(Q, I({(i,): 1}, at[1], at[2])), a.lo // d, a.hi // d)

    def clip(self, v, lo, hi):
        if isinstance(v, int):
            return v
        return I(v.p, max(v.lo, lo), min(v.hi, hi))

    def mod(self, a, d):
        if isinstance(a, int):
            return a % d
        if a.lo >= 0 and a.hi < d:
            return a
        return self.clip(self.padd(a, self.floor(a, d), -d), 0, d - 1)

    # operations
    def add(self, w, a, b):
        return self.mod(self.padd(a, b), 1 << w)

    def sub(self, w, a, b):
        return self.mod(self.padd(a, b, -1), 1 << w)

    def mul(self, w, a, b):
        return self.mod(self.pmul(a, b), 1 << w)

    def shl(self, w, a, k):
        return 0 if k >= w else self.mod(self.pmul(a, 1 << k), 1 << w)

    def lshr(self, w, a, k):
        return self.floor(a, 1 << k)

    def zext(self, w, a, fw):
        return a

    def trunc(self, w, a, fw):
        return self.mod(a, 1 << w)

    def byte(self, w, a, i):
        return self.mod(self.floor(a, 1 << 8 * i), 256)

    def cat(self, parts):
        r, s = 0, 0
        for v, n in parts:
            r = self.padd(r, v, 1 << s)
            s += n
        if isinstance(r, I):
            r = I(r.p, max(r.lo, 0), min(r.hi, (1 << s) - 1))
        return r

    def boolmask(self, w, a):
        """b with a = (2^w - 1) * b and b in {0, 1}."""
        if isinstance(a, int):
            return {0: 0, (1 << w) - 1: 1}.get(a)
        n = (1 << w) - 1
        if any(k % n for k in a.p.values()):
            return None
        q = self.mk({m: k // n for m, k in a.p.items()}, -1 << 4000, 1 << 4000)
        b = self.isbool(q)
        return q if b else None

    def isbool(self, q):
        """is it 0 or 1? a polynomial in 0/1 atoms that only takes these values."""
        if isinstance(q, int):
            return q in (0, 1)
        at = sorted({i for m in q.p for i in m})
        if len(at) > 8 or any(self.atoms[i][1] < 0 or self.atoms[i][2] > 1 for i in at):
            return q.lo >= 0 and q.hi <= 1
        for s in range(1 << len(at)):
            env = {i: s >> j & 1 for j, i in enumerate(at)}
            t = 0
            for m, k in q.p.items():
                x = k
                for i in m:
                    x *= env[i]
                t += x
            if t not in (0, 1):
                return False
        return True

    def and_(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        for x, y in ((a, b), (b, a)):
            m = self.boolmask(w, x)
            if m is not None and not (isinstance(x, int) and x not in (0, (1 << w) - 1)):
                return self.clip(self.pmul(m, y), 0, self.hi(y))
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            raise CanonError("and of two numbers")
        r, i = 0, 0
        while b >> i:
            if not b >> i & 1:
                i += 1
                continue
            j = i
            while b >> j & 1:
                j += 1
            r = self.padd(r, self.padd(self.floor(a, 1 << i), self.floor(a, 1 << j), -(1 << j - i)), 1 << i)
            i = j
        return self.clip(r, 0, b)

    def or_(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        for x, y in ((a, b), (b, a)):
            j = 0
            g = 0
            for k in self.p(x).values():
                g |= k & -k if not g else 0
                g = min(g, k & -k) if g else k & -k
            if g and self.hi(y) < g and self.lo(y) >= 0:
                return self.clip(self.padd(a, b), 0, (1 << w) - 1)
        if self.exclusive(a, b):
            return self.clip(self.padd(a, b), 0, max(self.hi(a), self.hi(b)))
        raise CanonError("or of overlapping numbers")

    def exclusive(self, a, b):
        """is one of them zero, whichever way a 0/1 atom goes?"""
        at = {i for v in (a, b) for m in self.p(v) for i in m if self.atoms[i][1] >= 0 and self.atoms[i][2] <= 1}
        for i in at:
            if all(not self.p(self.fix(a, i, v)) or not self.p(self.fix(b, i, v)) for v in (0, 1)):
                return True
        return False

    def fix(self, a, i, v):
        p = {}
        for m, k in self.p(a).items():
            if i in m:
                if v == 0:
                    continue
                m = tuple(x for x in m if x != i)
            p[m] = p.get(m, 0) + k
        return self.mk(p, -1 << 4000, 1 << 4000)

    def deep(self, v, seen=None):
        """the atoms of a value, those of its quotients included."""
        seen = set() if seen is None else seen
        for m in self.p(v):
            for i in m:
                if i not in seen:
                    seen.add(i)
                    if self.atoms[i][3]:
                        self.deep(self.atoms[i][3][0], seen)
        return seen

    def subst(self, v, env, memo):
        """the value with atoms replaced, inside quotients as well."""
        r = 0
        for m, k in self.p(v).items():
            t = k
            for i in m:
                if i not in memo:
                    df = self.atoms[i][3]
                    if i in env:
                        memo[i] = env[i]
                    elif df:
                        memo[i] = self.floor(self.subst(df[0], env, memo), df[1])
                    else:
                        memo[i] = I({(i,): 1}, self.atoms[i][1], self.atoms[i][2])
                t = self.pmul(t, memo[i])
            r = self.padd(r, t)
        return r

    def xor(self, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        full = (1 << w) - 1
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == full:
                return self.padd(full, y, -1)
            if isinstance(x, int) and x == 0:
                return y
            if isinstance(x, int) and x == 1 and self.lo(y) >= 0 and self.hi(y) <= 1:
                return self.padd(1, y, -1)
        try:
            return self.or_(w, a, b)
        except CanonError:
            pass
        # a ^ (m & (a ^ b)) chooses b where m is 1
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, I):
                continue
            for i in {i for m in x.p for i in m if i in self.xors}:
                if not all(m.count(i) == 1 for m in x.p):
                    continue
                m = self.mk({tuple(j for j in mo if j != i): k for mo, k in x.p.items()}, -1 << 400, 1 << 400)
                if not self.isbool(m):
                    continue
                for u, v in (self.xors[i], self.xors[i][::-1]):
                    if u == y:
                        return self.select(w, m, v, u)
        ka, kb = sorted((tuple(sorted(self.p(v).items())) for v in (a, b)))
        n = len(self.atoms)
        r = self.atom("xor%d:%r" % (w, (ka, kb)), w)
        if len(self.atoms) > n:
            self.xors[n] = (a, b)
        return r

    def rotl(self, w, a, k):
        k %= w
        return self.padd(self.mod(self.pmul(a, 1 << k), 1 << w), self.floor(a, 1 << w - k))

    def icmp(self, p, w, a, b):
        """a 0/1 value."""
        if p == "ult":
            # a < b  <=>  floor((a - b) / 2^w) = -1
            return self.clip(self.padd(0, self.floor(self.padd(a, b, -1), 1 << w), -1), 0, 1)
        if p == "ugt":
            return self.icmp("ult", w, b, a)
        if p == "ule":
            return self.padd(1, self.icmp("ult", w, b, a), -1)
        if p == "uge":
            return self.padd(1, self.icmp("ult", w, a, b), -1)
        if p in ("eq", "ne") and isinstance(a, int):
            a, b = b, a
        if p in ("eq", "ne") and isinstance(b, int) and isinstance(a, I) and a.lo >= 0 and a.hi <= 1:
            r = a if b == 1 else self.padd(1, a, -1)
            return r if p == "eq" else self.padd(1, r, -1)
        if p in ("eq", "ne") and b == 0:
            r = self.icmp("ult", w, a, 1)
            return r if p == "eq" else self.padd(1, r, -1)
        raise CanonError("comparison " + p)

    def select(self, w, c, a, b):
        return self.clip(self.padd(self.pmul(c, a), self.pmul(self.padd(1, c, -1), b)), min(self.lo(a), self.lo(b)),
                         max(self.hi(a), self.hi(b)))

    def affine(self, w, a, b):
        return None

    def bounds(self, a):
        """range of a polynomial, by eliminating quotients with 0 <= e - d*q <= d - 1, last defined first."""
        def elim(p, want_lo):
            p = dict(p)
            extra = 0
            for _ in range(200):
                qs = sorted({i for m in p for i in m if self.atoms[i][3]}, reverse=True)
                qs = [i for i in qs if all(m == (i,) or i not in m for m in p)]
                if not qs:
                    break
                i = qs[0]
                k = p.pop((i,))
                e, d = self.atoms[i][3]
                # k*q = (k/d) * (e - rem), rem in [0, d-1]
                if k % d:
                    # not a multiple of the divisor: bound the atom by its range
                    extra += k * (self.atoms[i][1] if (k > 0) == want_lo else self.atoms[i][2])
                    continue
                f = k // d
                for m, c in self.p(e).items():
                    p[m] = p.get(m, 0) + f * c
                # minus f * rem
                if (f > 0) == want_lo:
                    extra -= f * (d - 1)
                p = {m: c for m, c in p.items() if c}
            lo, hi = self.range(p)
            return (lo if want_lo else hi) + extra
        return elim(self.p(a), True), elim(self.p(a), False)
