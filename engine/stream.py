"""Byte streams: what a region range holds, matched against a specified sequence.

A specification is a list of segments
    ("src", region, off, len)   bytes of an input region as it was on entry
    ("fill", value, len)        len times one byte
    ("bytes", [b0, b1, ...])    explicit bytes (terms or ints)
    ("ev", tag, off, len)       bytes produced by an opaque call
    ("any", len)
    ("fn", f, off, len)         byte i is f(off + i)
len may be symbolic.  Both sides are compared piece by piece; the polyhedron
orders the lengths, and what it cannot order splits the abstract state.
"""
from terms import Term, add, sub, byte, icmp, show, mk, xor
from absint import NeedSplit, AnalysisError, resolve, piece_byte, _lt, UNDEF, Ptr


def split_eval(eng, st, fn, limit=2000):
    """run fn(state) on a partition of st fine enough for fn to be decided."""
    work, out = [st], []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise AnalysisError("partition limit")
        try:
            out.append((s, fn(s)))
        except NeedSplit as e:
            work.extend(q for _, q in eng.fork(s, e.cond))
    return out


def eq0(st, a, b):
    if a is b:
        return True
    c = icmp("eq", 64, a, b)
    t = st.poly.truth(c)
    if t is None:
        raise NeedSplit(c)
    return bool(t)


def pieces_of(eng, st, flow):
    """flow: list of (region, mem, off, len) -> list of (len, desc)."""
    out = []
    for r, m, off, ln in flow:
        for lo, hi, d in resolve(eng, st, r, m, off, add(64, off, ln)):
            out.append((sub(64, hi, lo), d))
    return out


def shift(d, k):
    """descriptor of the same piece starting k bytes later."""
    if k == 0:
        return d
    t = d[0]
    if t == "byte":
        return d
    if t == "init":
        return ("init", d[1], add(64, d[2], k))
    if t == "cells":
        return ("cells", d[1], add(64, d[2], k))
    if t == "val":
        return ("val", d[1], add(64, d[2], k), d[3])
    if t == "map":
        return ("map", d[1], add(64, d[2], k), d[3])
    return d[:-1] + (add(64, d[-1], k),)


def seg_len(s):
    return len(s[1]) if s[0] == "bytes" else s[-1]


def seg_skip(s, k):
    if k == 0:
        return s
    if s[0] == "src":
        return ("src", s[1], add(64, s[2], k), sub(64, s[3], k))
    if s[0] == "fill":
        return ("fill", s[1], sub(64, s[2], k))
    if s[0] == "ev":
        return ("ev", s[1], add(64, s[2], k), sub(64, s[3], k))
    if s[0] == "fn":
        return ("fn", s[1], add(64, s[2], k), sub(64, s[3], k))
    if s[0] == "any":
        return ("any", sub(64, s[1], k))
    if s[0] == "vec":
        return ("vec", s[1], add(64, s[2], k), sub(64, s[3], k))
    if isinstance(k, Term):
        return ("vec", s[1], k, sub(64, len(s[1]), k))
    return ("bytes", s[1][k:])


def same_byte(st, a, b):
    """equal on every valuation (structurally, with indices compared by the polyhedron)."""
    if a is b:
        return True
    if not isinstance(a, (Term, int)) or not isinstance(b, (Term, int)):
        return False
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a == b
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and a.w == b.w:
        if a.op in ("evb", "mem", "table"):
            return a.a[0] == b.a[0] and st.poly.eq(a.a[1], b.a[1])
        if a.op == "byte" and a.a[1] == b.a[1] and a.a[0].w == b.a[0].w:
            if st.poly.eq(a.a[0], b.a[0]):
                return True
        if a.op in ("xor", "and", "or"):
            if len(a.a) == len(b.a):
                rest = list(b.a)
                for x in a.a:
                    for y in rest:
                        if same_byte(st, x, y):
                            rest.remove(y)
                            break
                    else:
                        break
                if not rest:
                    return True
    x = bits(a, 8)
    y = bits(b, 8)
    if x is not None and y is not None and len(x) == len(y) and all(_samebit(st, p, q) for p, q in zip(x, y)):
        return True
    t, v = (a, b) if isinstance(a, Term) else (b, a)
    if not isinstance(v, Term):
        r = st.poly.truth(icmp("eq", t.w, t, v))
        if r is not None:
            return bool(r)
        if t.op == "byte":
            c = st.poly.pin(t.a[0], 1 << 16)
            if not isinstance(c, Term):
                return v == (c >> (8 * t.a[1])) & 255
    return False


def _samebit(st, p, q):
    if p is q or p == q and not isinstance(p, tuple):
        return True
    if isinstance(p, tuple) and isinstance(q, tuple) and p[1] == q[1]:
        return p[0] is q[0] or (p[0].op == q[0].op and p[0].w == q[0].w and p[0].op in ("mem", "evb") and same_byte(st, p[0], q[0]))
    return False


def bits(t, w):
    """value as a list of bits (lsb first): 0, 1, or (term, index); None when not that simple."""
    if not isinstance(t, Term):
        return [(t >> i) & 1 for i in range(w)]
    w = t.w
    if t.op in ("mem", "evb", "sym"):
        return [(t, i) for i in range(w)]
    if t.op == "cat":
        out = []
        for b in t.a[0]:
            x = bits(b, 8)
            if x is None:
                return None
            out += x
        return out
    if t.op == "zext":
        x = bits(t.a[0], t.a[0].w)
        return None if x is None else x + [0] * (w - len(x))
    if t.op == "sext":
        x = bits(t.a[0], t.a[0].w)
        return None if x is None else x + x[-1:] * (w - len(x))
    if t.op == "trunc":
        x = bits(t.a[0], t.a[0].w)
        return None if x is None else x[:w]
    if t.op == "byte":
        x = bits(t.a[0], t.a[0].w)
        return [(t, i) for i in range(8)] if x is None else x[8 * t.a[1]:8 * t.a[1] + 8]
    if t.op in ("and", "or", "xor"):
        xs = [bits(y, w) for y in t.a]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = [_bit(t.op, p, q) for p, q in zip(r, x)]
            if any(b is None for b in r):
                return None
        return r
    if t.op in ("udiv", "urem") and not isinstance(t.a[1], Term) and t.a[1] & (t.a[1] - 1) == 0:
        x = bits(t.a[0], w)
        if x is None:
            return None
        k = t.a[1].bit_length() - 1
        return x[k:] + [0] * k if t.op == "udiv" else x[:k] + [0] * (w - k)
    if t.op == "lin":
        c, m = t.a
        r = bits(c, w)
        for x, k in m:
            if k & (k - 1):
                return None
            y = bits(x, w)
            if y is None:
                return None
            s = k.bit_length() - 1
            y = [0] * s + y[:w - s]
            r = [p if q == 0 else q if p == 0 else None for p, q in zip(r, y)]
            if any(b is None for b in r):
                return None
        return r
    return None


def _bit(op, p, q):
    if op == "and":
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1 or p == q:
            return p
    elif op == "or":
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0 or p == q:
            return p
    else:
        if p == 0:
            return q
        if q == 0:
            return p
        if p == q:
            return 0
    return None


def describe(d):
    t = d[0]
    if t == "init":
        return "%s[%s..]" % (d[1].name, show(d[2]))
    if t == "byte":
        return "fill %s" % show(d[1])
    if t == "cells":
        o = d[2]
        c = d[1].cells.get(o) if not isinstance(o, Term) else None
        v = c.val if c else None
        return "bytes of %s" % (show(v) if isinstance(v, (int, Term)) else repr(v))
    if t == "val":
        return "value %s" % (show(d[1]) if isinstance(d[1], (int, Term)) else repr(d[1]))
    if t == "map":
        return "computed range"
    return "%s%r" % (t, tuple(show(x) if isinstance(x, (int, Term)) else str(x) for x in d[1:]))


def show_seg(s):
    if s[0] == "src":
        return "%s[%s..+%s)" % (s[1].name, show(s[2]), show(s[3]))
    if s[0] == "fill":
        return "%s x %s" % (show(s[1]), show(s[2]))
    if s[0] == "bytes":
        return "<%s>" % ",".join(show(b) if b is not UNDEF else "undef" for b in s[1][:8])
    return "%s%s" % (s[0], tuple(show(x) if isinstance(x, (int, Term)) else str(x) for x in s[1:]))


def match(eng, st, pieces, spec, map_byte=None, prefix=False):
    """None when the pieces are exactly the specified bytes, else a mismatch text."""
    spec = list(spec)
    pos = 0
    for ln, d in pieces:
        while True:
            if eq0(st, ln, 0):
                break
            while spec and eq0(st, seg_len(spec[0]), 0):
                spec.pop(0)
            if not spec:
                return "%s more bytes than specified (%s) at position %s" % (show(ln), describe(d), show(pos))
            s = spec[0]
            sl = seg_len(s)
            if isinstance(ln, int) and isinstance(sl, int):
                k = min(ln, sl)
            else:
                k = ln if not _lt(st, sl, ln) else sl
            r = compare(eng, st, d, s, k, map_byte)
            if r is not None:
                return "at stream position %s: %s, specified %s%s" % (show(pos), describe(d), show_seg(s), r)
            spec[0] = seg_skip(s, k)
            d = shift(d, k)
            ln = sub(64, ln, k)
            pos = add(64, pos, k)
    while spec and not prefix and eq0(st, seg_len(spec[0]), 0):
        spec.pop(0)
    if spec and not prefix:
        return "missing %s at position %s" % (show_seg(spec[0]), show(pos))
    return None


def compare(eng, st, d, s, k, map_byte):
    t = d[0]
    if s[0] == "any":
        return None
    if s[0] == "src":
        if t == "init":
            if d[1] is s[1] and st.poly.eq(d[2], s[2]):
                return None
            return ""
    if s[0] == "ev" and t == "ev":
        if d[1] == s[1] and st.poly.eq(d[2], s[2]):
            return None
        return " (tag %r off %s)" % (d[1], show(d[2]))
    if s[0] == "fill" and t == "byte":
        return None if same_byte(st, d[1], s[1]) else ""
    if s[0] in ("bytes", "vec", "fn", "fill") and t == "cells":
        r = compare_cells(eng, st, d, ("fn", lambda i: s[1], 0, s[2]) if s[0] == "fill" else s, k)
        if r is not False:
            return r
    # bytewise
    if isinstance(k, Term):
        if t in ("byte", "map", "init", "ev") and s[0] in ("src", "fill", "ev", "fn"):
            # one generic byte
            from terms import fresh
            i = fresh("i", 64, 0, (1 << 62))
            st = st.clone()
            st.poly.add(st.poly.math(k) - st.poly.math(i) + (-1))
            a = piece_byte(eng, st, d, i, 0)
            b = spec_byte(eng, st, s, i)
            return None if same_byte(st, a, b) else " [generic byte %s vs %s]" % (show(a), show(b))
        if t == "init" and s[0] in ("src", "ev") or t == "ev" and s[0] in ("src", "ev"):
            return ""
        import os
        if os.environ.get("STREAMDBG"):
            print("ENUM", d, s, show(k))
        for v in range(0, 260):
            if eq0(st, k, v):
                k = v
                break
        else:
            return " (length not bounded)"
    for i in range(k):
        a = piece_byte(eng, st, d, i, i)
        b = spec_byte(eng, st, s, i)
        if not same_byte(st, a, b):
            return " [byte %d: %s vs %s]" % (i, show(a) if a is not UNDEF else "undef", show(b))
    return None


def upper(st, t, limit=4096):
    """least proved upper bound of t up to limit, or None."""
    if not isinstance(t, Term):
        return t
    e = st.poly.math(t)
    if not st.poly.entails(-e + limit):
        return None
    lo, hi = 0, limit
    while lo < hi:
        mid = (lo + hi) // 2
        if st.poly.entails(-e + mid):
            hi = mid
        else:
            lo = mid + 1
    return lo


def lower(st, t, limit=4096):
    if not isinstance(t, Term):
        return t
    e = st.poly.math(t)
    lo, hi = 0, limit
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if st.poly.entails(e + (-mid)):
            lo = mid
        else:
            hi = mid - 1
    return lo


def compare_cells(eng, st, d, s, k):
    """stored cells against explicit bytes whose positions are known only up to a common offset."""
    m, o = d[1], d[2]
    off = 0 if s[0] == "bytes" else s[2]
    at = s[1] if s[0] == "fn" else s[1].__getitem__
    if not isinstance(o, Term) and not isinstance(off, Term) and not isinstance(k, Term):
        return False
    delta = st.poly.pin(sub(64, o, off), 1 << 20)
    if isinstance(delta, Term):
        return False
    from terms import sgn
    delta = sgn(delta, 64)
    lo = lower(st, off)
    hi = upper(st, add(64, off, k))
    if s[0] != "fn":
        hi = len(s[1]) if hi is None else min(hi, len(s[1]))
    if hi is None:
        return False
    for p in range(lo, hi):
        c = m.cells.get(p + delta)
        a = UNDEF if c is None else piece_byte(eng, st, ("cells", m, p + delta), 0, 0)
        if not same_byte(st, a, at(p)):
            # not on the whole range: decide byte by byte
            return False
    return None


def spec_byte(eng, st, s, i):
    if s[0] == "vec":
        o = st.poly.pin(add(64, s[2], i))
        if isinstance(o, Term):
            for v in range(len(s[1])):
                if eq0(st, o, v):
                    return s[1][v]
        return s[1][o]
    if s[0] == "src":
        r, o = s[1], add(64, s[2], i)
        if not isinstance(o, Term):
            return eng.initial(st, r, o, 1)
        return mk("mem", 8, r.name, o)
    if s[0] == "fill":
        return s[1]
    if s[0] == "bytes":
        return s[1][i]
    if s[0] == "ev":
        return mk("evb", 8, s[1], add(64, s[2], i))
    if s[0] == "fn":
        return s[1](add(64, s[2], i))
    raise AnalysisError("spec")
