"""Codecs: which characters are produced and accepted, what they mean, how much is written."""
from terms import sym, mk, icmp, Term, show
from absint import Engine, Ptr, State, AnalysisError, NeedSplit
import evalt
import probe
import stream
from verify import outcomes

HEX = b"0123456789abcdef"
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
ERR = {16: 6, 64: 4}
HEXV = {c: int(bytes([c]), 16) for c in b"0123456789abcdefABCDEF"}
B64V = {c: i for i, c in enumerate(B64)}


class Tables:
    """value tables, shared between equal functions of different positions."""
    def __init__(self):
        self.t = {}

    def get(self, t, vs, doms):
        if not isinstance(t, Term):
            return None
        k = (evalt.shape(t, vs), tuple(map(tuple, doms)))
        r = self.t.get(k)
        if r is None:
            r = self.t[k] = evalt.table(t, vs, doms)
        return r


TAB = Tables()


def split_bools(st):
    """every fact of the path down to single comparisons."""
    for c, v in list(st.poly.facts.items()):
        work = [c]
        while work:
            c = work.pop()
            if c.op == "not":
                work.append(c.a[0])
            elif c.op in ("and", "or", "xor") and c.w == 1:
                for x in c.a:
                    if isinstance(x, Term):
                        if st.poly.truth(x) is None:
                            raise NeedSplit(x)
                        work.append(x)
            elif c.op == "icmp" and isinstance(c.a[1], Term) and c.a[1].op == "zext" and c.a[1].a[0].w == 1:
                if st.poly.truth(c.a[1].a[0]) is None:
                    raise NeedSplit(c.a[1].a[0])


def domains(st, src, n):
    """for each input byte, the values possible on this path."""
    dom = {i: set(range(256)) for i in range(n)}
    pair = []
    for c, v in st.poly.facts.items():
        vs = evalt.leaves(c)
        if not vs or any(x.op != "mem" or x.a[0] != src.name for x in vs):
            continue
        if len(vs) == 1:
            t = TAB.get(c, vs, [range(256)])
            dom[vs[0].a[1]] &= {x for x in range(256) if t[(x,)] == v}
        elif c.op in ("and", "or", "not"):
            continue            # its parts are facts of their own
        else:
            pair.append((c, v, vs))
    for c, v, vs in pair:
        if len(vs) > 2:
            raise AnalysisError("a condition over %d characters at once" % len(vs))
        ds = [sorted(dom[x.a[1]]) for x in vs]
        t = TAB.get(c, vs, ds)
        for j, x in enumerate(vs):
            dom[x.a[1]] &= {p[j] for p, r in t.items() if r == v}
    return dom


def split_leaf(st, t):
    """decide a comparison a value depends on."""
    work, seen = [t], set()
    while work:
        t = work.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.w == 1 and st.poly.truth(t) is None:
            raise NeedSplit(t)
        work += [x for x, _ in t.a[1]] if t.op == "lin" else [x for x in t.a if isinstance(x, Term)]


def known(st, v, src, dom):
    """the values v takes on this path."""
    if not isinstance(v, Term):
        return {v}
    vs = evalt.leaves(v)
    if not all(x.op == "mem" and x.a[0] == src.name for x in vs):
        raise AnalysisError("a size depends on %s" % ", ".join(map(show, vs)))
    return set(TAB.get(v, vs, [sorted(dom[x.a[1]]) for x in vs]).values())


def values(eng, st, r, n):
    return [eng.load_n(st, r, i, 1, None) for i in range(n)]


def over(st, r, n):
    m = st.rd(r)
    return [o for o in m.cells if o >= n] or [w for w in m.log if not st.poly.ge(n, w.off + w.len if isinstance(w.off, int) and isinstance(w.len, int) else 1 << 63)]


def same_fn(t, src, idx, doms, fn):
    """is the term fn of the input bytes idx, over their domains?"""
    vs = [mk("mem", 8, src.name, i) for i in idx]
    extra = [x for x in evalt.leaves(t) if x not in vs] if isinstance(t, Term) else []
    if extra:
        return "it depends on %s" % ", ".join(show(x) for x in extra)
    import itertools
    if isinstance(t, Term):
        tb = TAB.get(t, vs, doms)
        get = tb.__getitem__
    else:
        get = lambda p: t
    for p in itertools.product(*doms):
        if get(p) != fn(*p):
            return "for input %s it is %d, not %d" % ([hex(x) for x in p], get(p), fn(*p))
    return None


def encode16(i):
    if i & 1:
        return [i // 2], lambda b: HEX[b & 15]
    return [i // 2], lambda b: HEX[b >> 4]


def encode64(i, n):
    q, j = divmod(i, 4)
    left = n - 3 * q
    full = [range(256)]
    if j == 0:
        return [3 * q], lambda a: B64[a >> 2]
    if j == 1:
        return ([3 * q], lambda a: B64[(a & 3) << 4]) if left == 1 else (
            [3 * q, 3 * q + 1], lambda a, b: B64[(a & 3) << 4 | b >> 4])
    if j == 2:
        return ([], lambda: 61) if left == 1 else ([3 * q + 1], lambda a: B64[(a & 15) << 2]) if left == 2 else (
            [3 * q + 1, 3 * q + 2], lambda a, b: B64[(a & 15) << 2 | b >> 6])
    return ([], lambda: 61) if left < 3 else ([3 * q + 2], lambda a: B64[a & 63])


def run_encode(ctx):
    m = probe.load("codec.cpp")
    top = 20 if ctx.tier != "thorough" else 100
    for base in (16, 64):
        for n in range(top + 1):
            eng = Engine(m)
            src = probe.arg("in", n)
            size = 2 * n if base == 16 else (n + 2) // 3 * 4
            out = probe.arg("out", size)
            for st in probe.calls(eng, State(), [("base_%d_encode" % base, [Ptr(src), n, Ptr(out)]),
                                                 ("base_%d_encode_size" % base, [Ptr(src), n])]):
                tag = "codec:encode_%d" % base
                ctx.check(st.user["ret0"] == size and st.user["ret1"] == size, tag,
                          "base %d encode of %d bytes returns %s, encode_size %s, not %d" % (
                              base, n, show(st.user["ret0"]), show(st.user["ret1"]), size))
                ctx.check(not over(st, out, size), tag, "base %d encode of %d bytes writes beyond %d characters" % (base, n, size))
                vs = values(eng, st, out, size)
                for i, v in enumerate(vs):
                    idx, fn = encode16(i) if base == 16 else encode64(i, n)
                    r = same_fn(v, src, idx, [range(256)] * len(idx), fn)
                    ctx.check(r is None, tag, "base %d encode of %d bytes, character %d: %s" % (base, n, i, r))
                    ctx.count("characters_tabulated")
            ctx.engine(eng)


def groups16(n):
    """(first character, characters) of each output byte."""
    g, i = [], 0
    if n & 1:
        g.append([0])
        i = 1
    while i < n:
        g.append([i, i + 1])
        i += 2
    return g


def run_decode(ctx):
    m = probe.load("codec.cpp")
    top = 9 if ctx.tier != "thorough" else 24
    for base in (16, 64):
        for fn in ("decode", "decode_u", "decode_t"):
            for n in range(top + 1) if base == 16 else range(13 if ctx.tier != "thorough" else 29):
                eng = Engine(m)
                src, err = probe.arg("in", n), probe.arg("error", 4)
                room = (n + 1) // 2 if base == 16 else n * 3 // 4
                out = probe.arg("out", room)
                name = "base_%d_%s" % (base, fn)
                seen_ok = seen_bad = False
                accepted = []
                for s, val, exc in outcomes(eng, State(), [
                        ("base_%d_decode_size" % base, [Ptr(src), n]), (name, [Ptr(src), n, Ptr(out), Ptr(err)])]):
                    for q, r in stream.split_eval(eng, s, lambda q: judge(eng, q, base, n, src, out, err, val, exc, fn, room)):
                        if r == "unreachable":
                            continue
                        ok, why = r
                        seen_ok |= ok
                        seen_bad |= not ok
                        ctx.count("decode_paths_proved")
                        ctx.check(why is None, "codec:" + name, "%s of %d characters: %s" % (name, n, why))
                ctx.check(seen_ok == (n % 4 == 0 or base == 16), "codec:" + name,
                          "%s never accepts %d characters" % (name, n) if not seen_ok else "%s accepts %d characters" % (name, n))
                ctx.engine(eng)


def judge(eng, st, base, n, src, out, err, val, exc, fn, room):
    if exc is not None:
        if fn != "decode_t":
            return False, "an exception leaves the function that reports through its error argument"
        code = eng.load_n(st, exc, 0, 4, None)
    elif fn == "decode_t":
        code = 0
    else:
        code = eng.load_n(st, err, 0, 4, None)
    code = st.poly.pin(code) if isinstance(code, Term) else code
    if isinstance(code, Term):
        raise NeedSplit(icmp("eq", code.w, code, 0))
    split_bools(st)
    dom = domains(st, src, n)
    if any(not d for d in dom.values()):
        return "unreachable"
    if code not in (0, ERR[base]):
        return False, "the reported code is %d" % code
    if over(st, out, room):
        return code == 0, "more than %d bytes are written" % room
    if isinstance(val, Term):
        rs = known(st, val, src, dom)
        if len(rs) == 1:
            val, = rs
        else:
            split_leaf(st, val)
    ok = code == 0
    valid = valid16 if base == 16 else valid64
    room_for = known(st, st.user["ret0"], src, dom)
    if isinstance(val, int) and (room_for != {val} if ok else min(room_for) < val):
        return ok, "%d bytes are decoded where decode_size says %s" % (val, sorted(room_for))
    return ok, valid(eng, st, n, src, out, ok, val if exc is None else None, dom)


def written(eng, st, out, k):
    m = st.rd(out)
    return [m.cells.get(i) is not None for i in range(k)]


def valid16(eng, st, n, src, out, ok, val, dom):
    gs = groups16(n)
    good = set(HEXV)
    if ok:
        for i in range(n):
            if not dom[i] <= good:
                return "character %d may be %s in accepted input" % (i, bytes([min(dom[i] - good)]))
        if val != len(gs):
            return "%s is returned for %d bytes" % (show(val), len(gs))
        return content16(eng, st, gs, src, out, dom)
    if not any(not (dom[i] & good) for i in range(n)):
        return "valid input can be rejected"
    if val is not None:
        if not isinstance(val, int) or val > len(gs):
            return "%s is returned on failure" % show(val)
        if not all(dom[i] <= good for g in gs[:val] for i in g):
            return "%d bytes are reported decoded before the invalid character" % val
        if val == len(gs) or all(dom[i] & good for i in gs[val]):
            return "%d bytes are reported decoded, more characters before the first invalid one" % val
        return content16(eng, st, gs[:val], src, out, dom)
    return None


def content16(eng, st, gs, src, out, dom):
    for k, g in enumerate(gs):
        ds = [sorted(dom[i]) for i in g]
        f = (lambda a: HEXV[a]) if len(g) == 1 else (lambda a, b: HEXV[a] << 4 | HEXV[b])
        r = same_fn(eng.load_n(st, out, k, 1, None), src, g, ds, f)
        if r:
            return "byte %d: %s" % (k, r)
    return None


def valid64(eng, st, n, src, out, ok, val, dom):
    good = set(B64V)
    if n == 0:
        return None if ok and val in (0, None) else "empty input: error or size %s" % show(val)
    if n % 4:
        return "a size that is not a multiple of four is accepted" if ok else None if val in (0, None) else "%s is returned on failure" % show(val)
    pads = 0
    last = [dom[n - 2], dom[n - 1]]
    eq = {61}
    def body(i):
        return good
    if ok:
        for i in range(n - 2):
            if not dom[i] <= good:
                return "character %d may be %s in accepted input" % (i, bytes([min(dom[i] - good)]))
        if last[1] <= eq:
            pads = 2 if last[0] <= eq else 1
            if pads == 1 and not last[0] <= good:
                return "character %d may be %s in accepted input" % (n - 2, bytes([min(last[0] - good)]))
        elif not (last[0] <= good and last[1] <= good):
            return "the last two characters may be %s and %s in accepted input" % (
                bytes([min(last[0] - good or last[0])]), bytes([min(last[1] - good or last[1])]))
        k = n // 4 * 3 - pads
        if val != k:
            return "%s is returned for %d bytes" % (show(val), k)
        return content64(eng, st, k, src, out, dom)
    bad = any(not (dom[i] & good) for i in range(n - 2))
    if not bad:
        # last quartet: rejected iff (c2 invalid) or (c3 invalid) with the padding rules
        bad = not any(p for p in ((last[0] & good and last[1] & (good | eq)), (last[0] & eq and last[1] & eq)))
        if not bad:
            # the domains do not exclude valid padding; is every combination invalid?
            bad = not ((last[0] & good) and (last[1] & (good | eq))) and not ((last[0] & eq) and (last[1] & eq))
    if not bad:
        return "valid input can be rejected"
    if val is not None:
        if not isinstance(val, int) or val % 3 or val > n // 4 * 3:
            return "%s is returned on failure" % show(val)
        if not all(dom[i] <= good for i in range(val // 3 * 4)):
            return "%d bytes are reported decoded before the invalid character" % val
        q = val // 3
        if q >= n // 4 or q < n // 4 - 1 and all(dom[i] & good for i in range(4 * q, 4 * q + 4)):
            return "%d bytes are reported decoded, more characters before the first invalid one" % val
        return content64(eng, st, val, src, out, dom)
    return None


def content64(eng, st, k, src, out, dom):
    for i in range(k):
        q, j = divmod(i, 3)
        g = [4 * q + j, 4 * q + j + 1]
        f = ((lambda a, b: (B64V[a] << 2 | B64V[b] >> 4) & 255), (lambda a, b: (B64V[a] << 4 | B64V[b] >> 2) & 255),
             (lambda a, b: (B64V[a] << 6 | B64V[b]) & 255))[j]
        r = same_fn(eng.load_n(st, out, i, 1, None), src, g, [sorted(dom[x]) for x in g], f)
        if r:
            return "byte %d: %s" % (i, r)
    return None


def run(ctx):
    ctx.rule("encode: every output character is the alphabet's character of its bits; decode: the conditions on a path "
             "to success admit exactly the alphabet's characters (and base 64 padding) and the bytes are their values, "
             "the conditions on a path to failure exclude every valid text, and failure reports the codec's error and "
             "the bytes already written")
    run_encode(ctx)
    run_decode(ctx)
    ctx.expect("obligations", 300)
