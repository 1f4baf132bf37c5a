"""Value numbering terms and a small polyhedral (linear inequality) domain.

A machine integer is a Python int or an interned Term.  Terms are kept in
normal forms (linear forms modulo 2^w, byte concatenations, sorted operand
lists) so that equal computations get the same object: this is classical
global value numbering, extended with a relational domain of linear
inequalities used to decide comparisons and memory ranges.
"""
import struct as _struct
from math import gcd

_intern = {}


class Term:
    __slots__ = ("op", "w", "a", "id", "lo", "hi", "taint")

    def __repr__(self):
        return show(self)


def mk(op, w, *a):
    k = (op, w) + tuple(x if not isinstance(x, Term) else ("t", x.id) for x in a)
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op, t.w, t.a, t.id = op, w, a, len(_intern)
        t.lo, t.hi = 0, (1 << w) - 1
        _intern[k] = t
    return t


_fresh = [0]


def next_id():
    return len(_intern)


_maxsym = {}


def maxsym(t):
    """largest id of a symbol inside t."""
    if not isinstance(t, Term):
        return -1
    r = _maxsym.get(t)
    if r is None:
        if t.op == "sym":
            r = t.id
        else:
            r = -1
            for x in t.a:
                if isinstance(x, Term):
                    r = max(r, maxsym(x))
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term):
                            r = max(r, maxsym(y))
                        elif isinstance(y, tuple) and isinstance(y[0], Term):
                            r = max(r, maxsym(y[0]))
        _maxsym[t] = r
    return r


def has_new(t, mark):
    return maxsym(t) >= mark


_sizey = {}


def sizey(t):
    """built from sizes only: no memory contents, no results of opaque calls."""
    if not isinstance(t, Term):
        return True
    r = _sizey.get(t)
    if r is None:
        if t.op == "sym":
            r = True
        elif t.op in ("lin", "zext", "trunc", "udiv", "urem", "icmp", "not", "and", "or", "mul", "isnull"):
            r = True
            for x in t.a:
                if isinstance(x, Term):
                    r = r and sizey(x)
                elif isinstance(x, tuple):
                    for y in x:
                        r = r and sizey(y[0] if isinstance(y, tuple) else y)
        else:
            r = False
        _sizey[t] = r
    return r



def sym(name, w, lo=0, hi=None):
    t = mk("sym", w, name)
    t.lo = lo
    t.hi = (1 << w) - 1 if hi is None else hi
    return t


def fresh(name, w, lo=0, hi=None):
    _fresh[0] += 1
    return sym("%s#%d" % (name, _fresh[0]), w, lo, hi)


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if t.op == "sym":
        return t.a[0]
    if d > 6:
        return "..."
    if t.op == "lin":
        c, m = t.a
        s = []
        for x, k in m:
            if k >> (t.w - 1):
                k -= 1 << t.w
            s.append(("%s" % show(x, d + 1)) if k == 1 else "%d*%s" % (k, show(x, d + 1)))
        if c:
            if c >> (t.w - 1):
                c -= 1 << t.w
            s.append(str(c))
        return "(" + " + ".join(s) + ")"
    return "%s(%s)" % (t.op, ",".join(show(x, d + 1) if not isinstance(x, tuple) else
                                       "[" + ",".join(show(y, d + 1) for y in x) + "]" for x in t.a))


# linear forms modulo 2^w ---------------------------------------------------

def _lin(t, w):
    """t -> (const, {atom: coef}) modulo 2^w."""
    if not isinstance(t, Term):
        return t & ((1 << w) - 1), {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _unlin(c, m, w):
    mask = (1 << w) - 1
    m = [(x, k & mask) for x, k in m.items() if k & mask]
    c &= mask
    if not m:
        return c
    if c == 0 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    m.sort(key=lambda p: p[0].id)
    k = ("lin", w, c) + tuple((x.id, y) for x, y in m)
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op, t.w, t.a, t.id = "lin", w, (c, tuple(m)), len(_intern)
        t.lo, t.hi = 0, mask
        _intern[k] = t
    return t


def add(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return (a + b) & ((1 << w) - 1)
    c, m = _lin(a, w)
    d, n = _lin(b, w)
    for x, k in n.items():
        m[x] = m.get(x, 0) + k
    return _unlin(c + d, m, w)


def neg(w, a):
    if not isinstance(a, Term):
        return -a & ((1 << w) - 1)
    c, m = _lin(a, w)
    return _unlin(-c, {x: -k for x, k in m.items()}, w)


def sub(w, a, b):
    return add(w, a, neg(w, b))


def mulc(w, a, k):
    if not isinstance(a, Term):
        return (a * k) & ((1 << w) - 1)
    c, m = _lin(a, w)
    return _unlin(c * k, {x: y * k for x, y in m.items()}, w)


def mul(w, a, b):
    if not isinstance(a, Term):
        return mulc(w, b, a)
    if not isinstance(b, Term):
        return mulc(w, a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


# bytes ---------------------------------------------------------------------

def byte(t, i):
    """i-th least significant byte of t (which is wider than 8 bits or equal)."""
    if not isinstance(t, Term):
        return (t >> (8 * i)) & 255
    if t.op == "cat":
        return t.a[0][i] if i < len(t.a[0]) else 0
    if t.op == "zext":
        n = (t.a[0].w + 7) // 8
        if i >= n:
            return 0
        if t.a[0].w % 8 == 0:
            return byte(t.a[0], i)
        if t.a[0].w < 8:
            return mk("zext", 8, t.a[0])
    if t.w <= 8:
        return t if i == 0 else 0
    if t.op in ("xor", "and", "or"):
        bs = [byte(x, i) for x in t.a]
        if not any(isinstance(b, Term) and b.op == "byte" for b in bs):
            f = {"xor": xor, "and": and_, "or": or_}[t.op]
            r = bs[0]
            for b in bs[1:]:
                r = f(8, r, b)
            return r
    if i == 0 and t.op == "lin":
        return trunc(8, t, t.w)
    return mk("byte", 8, t, i)


def cat(bs):
    """little-endian list of bytes -> value of width 8*len."""
    n = len(bs)
    if all(not isinstance(b, Term) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b << (8 * i)
        return v
    if n == 1:
        return bs[0]
    b0 = bs[0]
    q = b0 if isinstance(b0, Term) and b0.op == "byte" and b0.a[1] == 0 else bs[1]
    if isinstance(q, Term) and q.op == "byte" and q.a[1] == (0 if q is b0 else 1):
        t = q.a[0]
        m = t.w // 8
        if m >= 1 and n >= m and all(bs[i] is byte(t, i) for i in range(m)):
            if n == m:
                return t
            if all(not isinstance(b, Term) and b == 0 for b in bs[m:]):
                return mk("zext", 8 * n, t)
        elif n < m and t.op != "lin" and all(bs[i] is byte(t, i) for i in range(n)):
            return mk("trunc", 8 * n, t)
    if all(not isinstance(b, Term) and b == 0 for b in bs[1:]):
        return mk("zext", 8 * n, b0)
    return _mkcat(n, tuple(bs))


def _mkcat(n, bs):
    k = ("cat", n) + tuple(b if not isinstance(b, Term) else ("t", b.id) for b in bs)
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op, t.w, t.a, t.id = "cat", 8 * n, (bs,), len(_intern)
        t.lo, t.hi = 0, (1 << (8 * n)) - 1
        _intern[k] = t
    return t


def to_bytes(t, n):
    return [byte(t, i) for i in range(n)]


def bswap(w, a):
    n = w // 8
    return cat(to_bytes(a, n)[::-1])


def zext(w, a, fw):
    if not isinstance(a, Term):
        return a
    if a.op == "zext":
        return mk("zext", w, a.a[0])
    if a.op == "cat":
        return cat(list(a.a[0]) + [0] * ((w - fw) // 8))
    return mk("zext", w, a)


def trunc(w, a, fw):
    if not isinstance(a, Term):
        return a & ((1 << w) - 1)
    if a.op == "zext":
        s = a.a[0]
        if s.w == w:
            return s
        if s.w < w:
            return zext(w, s, s.w)
        return trunc(w, s, s.w)
    if a.op == "trunc":
        return trunc(w, a.a[0], a.a[0].w)
    if w % 8 == 0 and a.op == "cat":
        return cat(list(a.a[0][:w // 8]))
    if a.op == "lin":
        c, m = a.a
        r = c & ((1 << w) - 1)
        for x, k in m:
            r = add(w, r, mulc(w, trunc(w, x, fw), k))
        return r
    if w == 8 and fw > 8:
        return byte(a, 0)
    if a.op in ("xor", "and", "or") and False:
        pass
    return mk("trunc", w, a)


def sext(w, a, fw):
    if not isinstance(a, Term):
        return (a - (1 << fw) if a >> (fw - 1) else a) & ((1 << w) - 1)
    if a.op == "zext":
        return mk("zext", w, a.a[0])
    return mk("sext", w, a)


def _bytelike(t):
    return isinstance(t, Term) and t.op in ("cat", "byte", "zext") or not isinstance(t, Term)


def _nary(op, w, xs):
    xs = sorted(xs, key=lambda t: t.id if isinstance(t, Term) else -1)
    return mk(op, w, *xs)


def _flat(op, a):
    if isinstance(a, Term) and a.op == op:
        return list(a.a)
    return [a]


def _bools(w, a, b):
    return (w > 1 and isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "zext"
            and a.a[0].w == b.a[0].w == 1)


def xor(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a ^ b
    if _bools(w, a, b):
        return zext(w, xor(1, a.a[0], b.a[0]), 1)
    if a is b:
        return 0
    if w > 8 and w % 8 == 0 and ((isinstance(a, Term) and a.op == "cat") or (isinstance(b, Term) and b.op == "cat")):
        n = w // 8
        return cat([xor(8, x, y) for x, y in zip(to_bytes(a, n), to_bytes(b, n))])
    c = 0
    s = {}
    for x in _flat("xor", a) + _flat("xor", b):
        if isinstance(x, Term):
            if x in s:
                del s[x]
            else:
                s[x] = 1
        else:
            c ^= x
    xs = list(s)
    if w == 1 and len(xs) == 1:
        return not1(xs[0]) if c else xs[0]
    if c:
        xs.append(c)
    if not xs:
        return 0
    if len(xs) == 1:
        return xs[0]
    return _nary("xor", w, xs)


def and_(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a & b
    if a is b:
        return a
    if not isinstance(a, Term):
        a, b = b, a
    if not isinstance(b, Term):
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        if w % 8 == 0 and w > 8:
            bs = [(b >> (8 * i)) & 255 for i in range(w // 8)]
            if all(x in (0, 255) for x in bs) and a.op in ("cat", "byte", "zext", "sym"):
                ab = to_bytes(a, w // 8)
                return cat([y if x else 0 for x, y in zip(bs, ab)])
        if b & (b + 1) == 0:
            k = b.bit_length()
            if a.op == "zext" and a.a[0].w <= k:
                return a
            return urem(w, a, 1 << k)
        if a.op == "zext" and b < (1 << a.a[0].w):
            return zext(w, and_(a.a[0].w, a.a[0], b), a.a[0].w)
        return mk("and", w, a, b)
    if _bools(w, a, b):
        return zext(w, and_(1, a.a[0], b.a[0]), 1)
    return _nary("and", w, list(dict.fromkeys(_flat("and", a) + _flat("and", b))))


def or_(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a | b
    if a is b:
        return a
    if not isinstance(a, Term):
        a, b = b, a
    if not isinstance(b, Term):
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
    if _bools(w, a, b):
        return zext(w, or_(1, a.a[0], b.a[0]), 1)
    if w % 8 == 0 and w > 8:
        n = w // 8
        ab, bb = to_bytes(a, n), to_bytes(b, n)
        if all((not isinstance(x, Term) and x == 0) or (not isinstance(y, Term) and y == 0)
               for x, y in zip(ab, bb)):
            return cat([y if not isinstance(x, Term) and x == 0 else x for x, y in zip(ab, bb)])
    return _nary("or", w, list(dict.fromkeys(_flat("or", a) + _flat("or", b))))


def lshr(w, a, k):
    if not isinstance(k, Term):
        if k >= w:
            return 0
        if not isinstance(a, Term):
            return a >> k
        if k == 0:
            return a
        if k % 8 == 0 and w % 8 == 0:
            return cat(to_bytes(a, w // 8)[k // 8:] + [0] * (k // 8))
        return udiv(w, a, 1 << k)
    return mk("lshr", w, a, k)


def shl(w, a, k):
    if not isinstance(k, Term):
        if k >= w:
            return 0
        if k and k % 8 == 0 and w % 8 == 0 and isinstance(a, Term) and a.op in ("cat", "byte", "zext") and _bytesized(a):
            return cat([0] * (k // 8) + to_bytes(a, w // 8)[:w // 8 - k // 8])
        return mulc(w, a, 1 << k)
    if not isinstance(a, Term) and a == 0:
        return 0
    return mk("shl", w, a, k)


def _bytesized(a):
    return a.op != "zext" or a.a[0].w % 8 == 0


def udiv(w, a, b):
    if not isinstance(b, Term):
        if b == 1:
            return a
        if not isinstance(a, Term):
            return a // b if b else 0
    t = mk("udiv", w, a, b)
    if not isinstance(b, Term) and b:
        t.hi = min(t.hi, (a.hi if isinstance(a, Term) else a) // b)
    return t


def urem(w, a, b):
    if not isinstance(b, Term):
        if b == 1:
            return 0
        if not isinstance(a, Term):
            return a % b if b else 0
        if b and b & (b - 1) == 0:
            a = _mod(w, a, b)
            if not isinstance(a, Term):
                return a
    t = mk("urem", w, a, b)
    if not isinstance(b, Term) and b:
        t.hi = min(t.hi, b - 1)
    return t


def _mod(w, a, b):
    """canonical representative of a modulo the power of two b (which divides 2^w)."""
    while True:
        c, m = _lin(a, w)
        n = {}
        k = c % b
        changed = False
        for x, y in m.items():
            y %= b
            if not y:
                changed = True
                continue
            if x.op == "urem" and not isinstance(x.a[1], Term) and x.a[1] % b == 0:
                d, q = _lin(x.a[0], w)
                k += d * y
                for z, v in q.items():
                    n[z] = n.get(z, 0) + v * y
                changed = True
            else:
                n[x] = n.get(x, 0) + y
        r = _unlin(k % b, {x: y % b for x, y in n.items()}, w)
        if not changed:
            return r
        a = r
        if not isinstance(a, Term):
            return a


def not1(c):
    if not isinstance(c, Term):
        return c ^ 1
    if c.op == "not":
        return c.a[0]
    return mk("not", 1, c)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def icmp(pred, w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        p = pred[-2:] if pred not in ("eq", "ne") else pred
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
    if a is b:
        return int(pred in ("eq", "uge", "ule", "sge", "sle"))
    if pred == "ne":
        return not1(icmp("eq", w, a, b))
    if pred in ("ugt", "sgt"):
        return icmp(pred[0] + "lt", w, b, a)
    if pred in ("uge", "sge"):
        return not1(icmp(pred[0] + "lt", w, a, b))
    if pred in ("ule", "sle"):
        return not1(icmp(pred[0] + "lt", w, b, a))
    if pred == "eq":
        if isinstance(b, Term) and isinstance(a, Term) and a.id > b.id or not isinstance(a, Term):
            a, b = b, a
        if w == 1 and not isinstance(b, Term):
            return a if b else not1(a)
        # zext / cat against constants
        if a.op == "zext" and not isinstance(b, Term):
            if b >> a.a[0].w:
                return 0
            return icmp("eq", a.a[0].w, a.a[0], b)
    if pred == "ult":
        if not isinstance(b, Term) and b == 0:
            return 0
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "zext" and a.a[0].w == b.a[0].w:
            return icmp("ult", a.a[0].w, a.a[0], b.a[0])
    return mk("icmp", 1, pred, a, b)


# linear inequalities -------------------------------------------------------

class Lin:
    """mathematical (integer) linear expression."""
    __slots__ = ("c", "m", "pk")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}
        self.pk = None

    def packed(self):
        r = self.pk
        if r is None:
            M = 0xffffffffffffffff
            a = [len(self.m), self.c & M, (self.c >> 64) & M]
            for k, v in self.m.items():
                a += (k.id, v & M, (v >> 64) & M)
            r = self.pk = _struct.pack("<%dQ" % len(a), *a)
        return r

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, dict(self.m))
        m = dict(self.m)
        for k, v in o.m.items():
            v += m.get(k, 0)
            if v:
                m[k] = v
            else:
                m.pop(k, None)
        return Lin(self.c + o.c, m)

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Lin(self.c * k, {x: v * k for x, v in self.m.items()}) if k else Lin()

    def key(self):
        return (self.c,) + tuple(sorted((k.id, v) for k, v in self.m.items()))

    def __repr__(self):
        return " + ".join(["%d*%s" % (v, show(k)) for k, v in self.m.items()] + [str(self.c)])


class Poly:
    """conjunction of linear constraints e >= 0 over atoms (Terms)."""

    def __init__(self, cons=None, seen=None, facts=None):
        self.cons = cons or ()
        self.cache = {}
        self.mcache = {}
        self.rems = set()
        self.rematoms = ()
        self.divs = ()          # quotient atoms: (atom, divisor, dividend as a linear expression)
        self.yes = set()
        self.seen = seen if seen is not None else set()
        self.facts = facts if facts is not None else {}   # bool term -> 0/1

    def clone(self):
        p = Poly(self.cons, set(self.seen), dict(self.facts))
        p.cache = self.cache
        p.mcache = dict(self.mcache)
        p.rems = set(self.rems)
        p.rematoms = self.rematoms
        p.divs = self.divs
        p.yes = set(self.yes)
        return p

    # atoms ---------------------------------------------------------------
    def _define(self, t):
        """bounds and defining constraints of an atom."""
        if t in self.seen:
            return
        self.seen.add(t)
        new = [Lin(-t.lo, {t: 1}), Lin(t.hi, {t: -1})]
        self.cons = self.cons + tuple(new)
        if t.op in ("udiv", "urem") and not isinstance(t.a[1], Term) and t.a[1]:
            b = t.a[1]
            if t.op == "urem":
                self.rematoms = self.rematoms + (t,)
            q = udiv(t.w, t.a[0], b)
            r = urem(t.w, t.a[0], b)
            for y in (q, r):
                if isinstance(y, Term) and y not in self.seen:
                    if y is q:
                        self.seen.add(y)
                        self.cons = self.cons + (Lin(0, {y: 1}), Lin(y.hi, {y: -1}))
                    else:
                        self._define(y)
            x = self.math(t.a[0])
            rl = Lin(0, {r: 1}) if isinstance(r, Term) else Lin(r)
            e = x - (Lin(0, {q: b}) if isinstance(q, Term) else Lin(q * b)) - rl
            self.cons = self.cons + (e, -e)
            if isinstance(q, Term) and x.m:
                self.divs = self.divs + ((q, b, x),)
                for c in self.cons:
                    self._quotient(c, q, b, x)

    def _quotient(self, e, q, b, x):
        """what e >= 0 says of the quotient q of x by b, when it bounds x by a constant (q is an integer)."""
        if len(e.m) != len(x.m):
            return
        k, v = next(iter(x.m.items()))
        s = e.m.get(k)
        if s == -v and all(e.m.get(y) == -z for y, z in x.m.items()):
            self.cons = self.cons + (Lin((x.c + e.c) // b, {q: -1}),)
        elif s == v and all(e.m.get(y) == z for y, z in x.m.items()) and (x.c - e.c) // b > 0:
            self.cons = self.cons + (Lin(-((x.c - e.c) // b), {q: 1}),)

    def math(self, t):
        """integer value of t as a linear expression."""
        if not isinstance(t, Term):
            return Lin(t)
        r = self.mcache.get(t)
        if r is not None:
            return r
        if t.op == "lin":
            c, m = t.a
            h = 1 << (t.w - 1)
            f = 1 << t.w
            e = Lin(c - f if c >= h else c)
            for x, k in m:
                e = e + self.math(x).scale(k - f if k >= h else k)
            for x in m:
                self._define(x[0])
            lo, hi = self._interval(e)
            if (lo >= 0 or self.entails(e)) and (hi < f or self.entails(-e + (f - 1))):
                self.mcache[t] = e
                return e
            # another multiple of 2^w
            for j in range(max(-lo // f, -2), min(-(hi // f) + 2, 3)) if hi - lo < 8 * f else ():
                if j:
                    g = e + j * f
                    if self.entails(g) and self.entails(-g + (f - 1)):
                        self.mcache[t] = g
                        return g
            self._define(t)
            return Lin(0, {t: 1})
        if t.op == "zext":
            return self.math(t.a[0])
        if t.op == "trunc":
            e = self.math(t.a[0])
            f = 1 << t.w
            if self.entails(-e + (f - 1)):
                return e
        if t.op == "urem" and not isinstance(t.a[1], Term):
            self._define(t)
            if t not in self.rems:
                e = self._smallrem(t)
                if e is not None:
                    self.rems.add(t)
                    e = e - Lin(0, {t: 1})
                    if e.m:
                        self.cons = self.cons + (e, -e)
        self._define(t)
        return Lin(0, {t: 1})

    def _smallrem(self, t):
        """urem(x + y, b) as x%b + y%b - j*b when the inequalities pin j down."""
        b = t.a[1]
        if b & (b - 1) or not isinstance(t.a[0], Term):
            return None
        key = ("rem", t, id(self.cons))
        r = self.cache.get(key)
        if r is not None and r[1] is self.cons:
            return r[0]
        out = None
        c, m = _lin(t.a[0], t.w)
        if len(m) <= 4 and (len(m) > 1 or c or any(y != 1 for y in m.values())):
            self.cache[key] = (None, self.cons)
            cands = [(None, 1, c, m)]
            for u in list(self.rematoms):
                if u.a[1] == b and u is not t and u.w == t.w:
                    d = _mod(t.w, sub(t.w, t.a[0], u.a[0]), b)
                    dc, dm = _lin(d, t.w)
                    if len(dm) < len(m) and len(dm) <= 2 and len(_lin(u.a[0], t.w)[1]) > 1:
                        cands.append((u, 1, dc, dm))
                    dc, dm = _lin(_mod(t.w, add(t.w, t.a[0], u.a[0]), b), t.w)
                    if not dm:
                        cands.append((u, -1, dc, dm))
            for u, sign, c, m in cands:
                e = Lin(c % b) if u is None else Lin(c % b, {u: sign})
                for x, y in m.items():
                    y %= b
                    if y > b // 2:
                        y -= b
                    q = urem(t.w, x, b)
                    if q is x and x.hi >= b:
                        break
                    e = e + self.math(q).scale(y)
                else:
                    lo, hi = self._interval(e)
                    for j in range(max(lo // b, -3), min(hi // b, 3) + 1):
                        f = e + (-j * b)
                        if self.entails(f) and self.entails(-f + (b - 1)):
                            out = f
                            break
                if out is not None:
                    break
        elif len(m) == 1:
            x = t.a[0]
            e = self.math(x)
            if self.entails(-e + (b - 1)):
                out = e
        self.cache[("rem", t, id(self.cons))] = (out, self.cons)
        return out

    def _interval(self, e):
        lo = hi = e.c
        for x, k in e.m.items():
            if k > 0:
                lo += k * x.lo
                hi += k * x.hi
            else:
                lo += k * x.hi
                hi += k * x.lo
        return lo, hi

    # queries ---------------------------------------------------------------
    def add(self, e):
        if not e.m:
            if e.c < 0:
                self.cons = self.cons + (Lin(-1),)
            return
        self.cons = self.cons + (e,)
        for q, b, x in self.divs:
            self._quotient(e, q, b, x)

    def entails(self, e):
        lo, hi = self._interval(e)
        if lo >= 0:
            return True
        if hi < 0:
            return not self.feasible()
        key = e.key()
        if key in self.yes:
            return True
        k = (key, id(self.cons))
        r = self.cache.get(k)
        if r is None or r[1] is not self.cons:
            r = (not _feasible(list(self.cons) + [-e + (-1)], e.m), self.cons)
            self.cache[k] = r
        if r[0]:
            self.yes.add(key)
        return r[0]

    def pin(self, t, limit=1 << 14):
        """the constant t is known to equal, if it is one (small ones only)."""
        if not isinstance(t, Term):
            return t
        key = ("pin", t, id(self.cons))
        r = self.cache.get(key)
        if r is not None and r[1] is self.cons:
            return r[0]
        e = self.math(t)
        out = t
        if not e.m:
            out = e.c
        elif self.entails(-e + limit):
            lo, hi = 0, limit
            while lo < hi:
                mid = (lo + hi + 1) // 2
                if self.entails(e + (-mid)):
                    lo = mid
                else:
                    hi = mid - 1
            if self.entails(-e + lo):
                out = lo
        self.cache[("pin", t, id(self.cons))] = (out, self.cons)
        return out

    def feasible(self):
        return _feasible(list(self.cons), None)

    def ge(self, a, b):
        """a >= b on every valuation?"""
        if a is b:
            return True
        return self.entails(self.math(a) - self.math(b))

    def eq(self, a, b):
        if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b):
            return True
        e = self.math(a) - self.math(b)
        if not e.m:
            return e.c == 0
        return self.entails(e) and self.entails(-e)

    def truth(self, c):
        """1, 0 or None."""
        if not isinstance(c, Term):
            return c & 1
        if c in self.facts:
            return self.facts[c]
        if c.op == "not":
            r = self.truth(c.a[0])
            return None if r is None else r ^ 1
        if c.op == "and" and c.w == 1:
            rs = [self.truth(x) for x in c.a]
            if 0 in rs:
                return 0
            return 1 if all(r == 1 for r in rs) else None
        if c.op == "or" and c.w == 1:
            rs = [self.truth(x) for x in c.a]
            if 1 in rs:
                return 1
            return 0 if all(r == 0 for r in rs) else None
        if c.op == "icmp":
            p, a, b = c.a
            if p == "ult":
                e = self.math(b) - self.math(a)      # b - a >= 1
                if self.entails(e + (-1)):
                    return 1
                if self.entails(-e):
                    return 0
            elif p == "eq":
                e = self.math(a) - self.math(b)
                if self.entails(e + (-1)) or self.entails(-e + (-1)):
                    return 0
                if self.entails(e) and self.entails(-e):
                    return 1
            elif p == "slt":
                w = a.w if isinstance(a, Term) else b.w
                h = (1 << (w - 1)) - 1
                ea, eb = self.math(a), self.math(b)
                if self.entails(-ea + h) and self.entails(-eb + h):
                    e = eb - ea
                    if self.entails(e + (-1)):
                        return 1
                    if self.entails(-e):
                        return 0
        return None

    def assume(self, c, v):
        """restrict to c == v; returns False when this is certainly empty."""
        if not isinstance(c, Term):
            return (c & 1) == v
        if c.op == "not":
            return self.assume(c.a[0], v ^ 1)
        r = self.truth(c)
        if r is not None:
            return r == v
        self.facts[c] = v
        if c.op == "and" and c.w == 1 and v:
            return all(self.assume(x, 1) for x in c.a)
        if c.op == "or" and c.w == 1 and not v:
            return all(self.assume(x, 0) for x in c.a)
        if c.op == "icmp":
            p, a, b = c.a
            if p == "ult":
                e = self.math(b) - self.math(a)
                self.add(e + (-1) if v else -e)
            elif p == "eq":
                e = self.math(a) - self.math(b)
                if v:
                    self.add(e)
                    self.add(-e)
                    if not isinstance(b, Term) and b == 0 and isinstance(a, Term):
                        if a.op == "or":
                            return all(self.assume(icmp("eq", a.w, x, 0), 1) for x in a.a)
                        if a.op == "xor" and len(a.a) == 2:
                            return self.assume(icmp("eq", a.w, a.a[0], a.a[1]), 1)
                else:
                    # disequality at an end of the range becomes an inequality
                    if self.entails(e):
                        self.add(e + (-1))
                    elif self.entails(-e):
                        self.add(-e + (-1))
            elif p == "slt":
                w = a.w if isinstance(a, Term) else b.w
                h = (1 << (w - 1)) - 1
                ea, eb = self.math(a), self.math(b)
                if self.entails(-ea + h) and self.entails(-eb + h):
                    e = eb - ea
                    self.add(e + (-1) if v else -e)
                elif not isinstance(b, Term) and b == 0:
                    self.add((ea + (-h - 1)) if v else (-ea + h))
        return True


_fm = None


def _lib():
    """the compiled Fourier-Motzkin routine (same algorithm as below, in C)."""
    global _fm
    if _fm is None:
        import ctypes
        import os
        import subprocess
        import build
        so = os.path.join(build.tmpdir(), "fm.so")
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fm.c")
        try:
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", src, "-o", so], check=True)
            l = ctypes.CDLL(so)
            _fm = l.fm_feasible
            _fm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
            _fm.restype = ctypes.c_int
        except Exception:
            _fm = False
    return _fm


def _feasible(cons, focus):
    f = _lib()
    if not f:
        return _feasible_py(cons, focus)
    if focus is None:
        return bool(f(b"".join([e.packed() for e in cons]), len(cons), b"", -1))
    ids = [k.id for k in focus]
    return bool(f(b"".join([e.packed() for e in cons]), len(cons), _struct.pack("<%dQ" % len(ids), *ids), len(ids)))


def _norm(e):
    g = 0
    for v in e.m.values():
        g = gcd(g, v)
    if g > 1:
        return Lin(e.c // g, {k: v // g for k, v in e.m.items()})
    return e


def _feasible_py(cons, focus):
    """rational feasibility (with integer tightening) by Gauss + Fourier-Motzkin."""
    # restrict to the connected component of focus
    cons = [e for e in cons]
    if focus is not None:
        todo = set(focus)
        keep = []
        rest = cons
        changed = True
        while changed:
            changed = False
            nrest = []
            for e in rest:
                if not e.m or any(k in todo for k in e.m):
                    keep.append(e)
                    for k in e.m:
                        if k not in todo:
                            todo.add(k)
                    changed = True
                else:
                    nrest.append(e)
            rest = nrest
        cons = keep
    cur = {}
    for e in cons:
        e = _norm(e)
        if not e.m:
            if e.c < 0:
                return False
            continue
        k = e.key()[1:]
        if k not in cur or cur[k].c > e.c:
            cur[k] = e
    for _ in range(200):
        if not cur:
            return True
        # equalities: e and -e
        sub = None
        for k, e in cur.items():
            nk = tuple((i, -v) for i, v in k)
            o = cur.get(nk)
            if o is not None:
                if e.c + o.c < 0:
                    return False
                if e.c + o.c == 0:
                    for x, v in e.m.items():
                        if v in (1, -1):
                            sub = (x, v, e)
                            break
                    if sub:
                        break
        nxt = {}

        def put(e):
            e = _norm(e)
            if not e.m:
                return e.c >= 0
            k = e.key()[1:]
            if k not in nxt or nxt[k].c > e.c:
                nxt[k] = e
            return True
        if sub:
            x, v, q = sub
            # v*x + rest = 0  ->  x = -rest/v
            rest = Lin(q.c, {k: c for k, c in q.m.items() if k is not x}).scale(-v)
            for e in cur.values():
                c = e.m.get(x)
                if c is None:
                    ok = put(e)
                else:
                    ok = put(Lin(e.c, {k: y for k, y in e.m.items() if k is not x}) + rest.scale(c))
                if not ok:
                    return False
            cur = nxt
            continue
        # pick the cheapest atom
        pos, negs = {}, {}
        for e in cur.values():
            for x, v in e.m.items():
                (pos if v > 0 else negs).setdefault(x, []).append(e)
        best = None
        for x in set(pos) | set(negs):
            cst = len(pos.get(x, ())) * len(negs.get(x, ())) - len(pos.get(x, ())) - len(negs.get(x, ()))
            if best is None or cst < best[0]:
                best = (cst, x)
        x = best[1]
        for e in cur.values():
            if x not in e.m:
                put(e)
        for p in pos.get(x, ()):
            for n in negs.get(x, ()):
                a, b = p.m[x], -n.m[x]
                g = gcd(a, b)
                if not put(p.scale(b // g) + n.scale(a // g)):
                    return False
        cur = nxt
        if len(cur) > 3000:
            return True
    return True
