"""HKDF and PBKDF2: what the keyed function is asked, and how its outputs become key bytes."""
from terms import sym, add, sub, xor, mk, icmp, Term, show, zext, trunc
from absint import Engine, Ptr, State, NeedSplit
import objs
import probe
import stream

SIZES = (20, 28, 32, 48, 64)


def seqs(ctx, D):
    """how many derive calls, and how many blocks each may take."""
    if ctx.tier == "thorough":
        return ((1, 5), (2, 3), (3, 1))
    return ((1, 3), (2, 1)) if D != 20 else ((1, 4), (2, 2))


def before(eng, name, obj, init, used, seq):
    """the end states of seq on a new object and, if used, on one that has derived other bytes before."""
    new = probe.calls(eng, State(), [(name + "_construct", [Ptr(obj)])])
    yield from (t for st in new for t in probe.calls(eng, st.clone(), seq))
    if used:
        n = sym("n0", 64, 1, 90)
        out = probe.arg("oldkey", n)
        for st in new:
            for s in probe.calls(eng, st.clone(), [(name + "_initialize", [Ptr(obj)] + init),
                                                   (name + "_derive", [Ptr(obj), Ptr(out), n])]):
                s.user["old"] = frozenset(s.user.get("objs", {}))
                yield from probe.calls(eng, s, seq)


def finals(st):
    H = st.user.get("objs", {})
    return [H[i] for i in sorted(H) if H[i].final and i not in st.user.get("old", ())]


def content(eng, st, f):
    return stream.pieces_of(eng, st, [g for g in f if g is not None])


def key_is(eng, st, h, spec):
    k = h.op("key")
    return stream.match(eng, st, stream.pieces_of(eng, st, [k[0]] if k[0] is not None else []), spec)


def outputs(eng, st, outs, spec, what):
    flow = []
    for i, (r, n) in enumerate(outs):
        v = st.user["ret%d" % (i + 1)]
        if not st.poly.eq(v, n):
            return "derive call %d of %s bytes returns %s" % (i + 1, show(n), show(v))
        flow.append((r, st.rd(r), 0, n))
    r = stream.match(eng, st, stream.pieces_of(eng, st, flow), spec, prefix=True)
    if r:
        return "derived key: " + r
    for i, (r, n) in enumerate(outs):
        m = st.rd(r)
        over = [o for o in m.cells if not st.poly.ge(n, o + 1)] or [
            w for w in m.log if not st.poly.ge(n, add(64, w.off, w.len))]
        if over:
            return "derive call %d writes beyond %s bytes" % (i + 1, show(n))
    return None


def check_hkdf(eng, st, D, ikm, salt, info, outs):
    ps = objs.problems(st)
    if ps:
        return "; ".join(ps)
    fs = finals(st)
    if not fs:
        return "nothing was computed"
    prk = fs[0]
    r = key_is(eng, st, prk, [("src", salt[0], 0, salt[1])])
    if r:
        return "extract key: " + r
    r = stream.match(eng, st, content(eng, st, prk.updates()), [("src", ikm[0], 0, ikm[1])])
    if r:
        return "extract input: " + r
    spec = []
    prev = None
    for i, h in enumerate(fs[1:]):
        r = key_is(eng, st, h, [("ev", "D%d" % prk.id, 0, D)])
        if r:
            return "key of block %d: %s" % (i + 1, r)
        s = [("ev", "D%d" % prev.id, 0, D)] if prev else []
        s += [("src", info[0], 0, info[1]), ("bytes", [(i + 1) & 255])]
        r = stream.match(eng, st, content(eng, st, h.updates()), s)
        if r:
            return "input of block %d: %s" % (i + 1, r)
        prev = h
        spec.append(("ev", "D%d" % h.id, 0, D))
    return outputs(eng, st, outs, spec, "hkdf")


def check_pbkdf(eng, st, D, pw, salt, it, outs):
    ps = objs.problems(st)
    if ps:
        return "; ".join(ps)
    blocks = []
    for h in finals(st):
        r = key_is(eng, st, h, [("src", pw[0], 0, pw[1])])
        if r:
            return "key of the function: " + r
        ups = content(eng, st, h.updates())
        if blocks and stream.match(eng, st, ups, [("ev", "D%d" % blocks[-1][-1].id, 0, D)]) is None:
            blocks[-1].append(h)
            continue
        i = len(blocks) + 1
        r = stream.match(eng, st, ups, [("src", salt[0], 0, salt[1]), ("bytes", list(i.to_bytes(4, "big")))])
        if r:
            return "first input of block %d: %s" % (i, r)
        blocks.append([h])
    spec = []
    for i, b in enumerate(blocks):
        c = len(b)
        if c == 1:
            ok = st.poly.ge(1, it)
        else:
            ok = st.poly.eq(it, c)
        if not ok:
            return "block %d takes %d iterations where %s were asked for" % (i + 1, c, show(it))
        def f(j, b=b):
            v = 0
            for h in b:
                v = xor(8, v, mk("evb", 8, "D%d" % h.id, j))
            return v
        spec.append(("fn", f, 0, D))
    return outputs(eng, st, outs, spec, "pbkdf2")


def run_hkdf(ctx):
    ctx.rule("over a recording hmac, extract is hmac(salt, ikm), block i is hmac(prk, block i-1 || info || i) and the "
             "bytes of successive derive calls are consecutive bytes of block 1 || block 2 || ...")
    m = probe.load("kdf.cpp")
    top = 1 << 60
    for D in SIZES:
        name = "hkdf_%d" % D
        for ncall, lim in seqs(ctx, D):
            eng = Engine(m, objs.MODELS, unroll=lim)
            obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
            ikm, salt, info = [probe.buf(x, sym(x[0] + "n", 64, 0, top)) for x in ("ikm", "salt", "info")]
            outs = [probe.buf("key%d" % i, sym("n%d" % i, 64, 0, top)) for i in range(1, ncall + 1)]
            seq = [(name + "_initialize", [Ptr(obj), Ptr(ikm[0]), ikm[1], Ptr(salt[0]), salt[1], Ptr(info[0]), info[1]])]
            seq += [(name + "_derive", [Ptr(obj), Ptr(r), n]) for r, n in outs]
            old = probe.arg("old", 3)
            for st in before(eng, name, obj, [Ptr(old), 3] * 3, ncall == 1, seq):
                for q, r in stream.split_eval(eng, st, lambda q: check_hkdf(eng, q, D, ikm, salt, info, outs)):
                    ctx.count("derivations_proved")
                    ctx.check(r is None, "hkdf", "digest %d, %d calls: %s" % (D, ncall, r))
            ctx.engine(eng)
    ctx.note("a derive call is followed for a bounded number of whole blocks (evidence: tier), any remainder; the "
             "expansion loop is the same code for every block")
    ctx.expect("obligations", 50)


def run_pbkdf(ctx):
    ctx.rule("over a recording keyed function, block i is U1^...^Uc with U1 = prf(password, salt || i) and Uj = "
             "prf(password, Uj-1), c the iteration count, and the bytes of successive derive calls are consecutive "
             "bytes of block 1 || block 2 || ...")
    m = probe.load("kdf.cpp")
    top = 1 << 60
    for D in SIZES:
        for ncall, lim in seqs(ctx, D):
            ctx.defer(lambda sub, a=(m, D, "pbkdf_%d" % D, ncall, lim): follow_pbkdf(sub, *a))
    ctx.join()
    ctx.expect("obligations", 50)


def follow_pbkdf(ctx, m, D, name, ncall, lim):
    top = 1 << 60
    eng = Engine(m, objs.MODELS, unroll=lim)
    obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
    pw, salt = [probe.buf(x, sym(x[0] + "n", 64, 0, top)) for x in ("password", "salt")]
    it = sym("it", 32)
    outs = [probe.buf("key%d" % i, sym("n%d" % i, 64, 0, top)) for i in range(1, ncall + 1)]
    seq = [(name + "_initialize", [Ptr(obj), Ptr(pw[0]), pw[1], Ptr(salt[0]), salt[1], it])]
    seq += [(name + "_derive", [Ptr(obj), Ptr(r), n]) for r, n in outs]
    old = probe.arg("old", 3)
    for st in before(eng, name, obj, [Ptr(old), 3] * 2 + [1], ncall == 1, seq):
        for q, r in stream.split_eval(eng, st, lambda q: check_pbkdf(eng, q, D, pw, salt, it, outs)):
            ctx.count("derivations_proved")
            ctx.check(r is None, "pbkdf", "digest %d, %d calls: %s" % (D, ncall, r))
    ctx.engine(eng)


def words(st, r):
    """integer words stored in a region: offset -> (size, value)."""
    out = {}
    for o, c in st.rd(r).cells.items():
        if c.i == 0 and isinstance(c.val, int):
            out[o] = (c.n, c.val)
    return out


def run_pbkdf_counter(ctx):
    """the block index is carried as a full 32 bit number from any value it can have reached."""
    ctx.rule("with the stored block index replaced by an arbitrary value, the next blocks use index, index+1, ... as "
             "32 bit big endian numbers")
    m = probe.load("kdf.cpp")
    for D in SIZES:
        name = "pbkdf_%d" % D
        eng = Engine(m, objs.MODELS, unroll=4)
        obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
        pw, salt = probe.buf("password", 5), probe.buf("salt", 7)
        seq = [(name + "_construct", [Ptr(obj)]), (name + "_initialize", [Ptr(obj), Ptr(pw[0]), 5, Ptr(salt[0]), 7, 1])]
        outs = [probe.arg("key%d" % i, (D, D, D, D)[i] if i != 1 else 3 * D + 1) for i in range(4)]
        one = lambda i, n: (name + "_derive", [Ptr(obj), Ptr(outs[i]), n])
        s1, = probe.calls(eng, State(), seq + [one(0, D)])
        w1 = words(s1, obj)
        s2, = probe.calls(eng, s1.clone(), [one(1, D)])
        w2 = words(s2, obj)
        s3, = probe.calls(eng, s2.clone(), [one(2, D)])
        w3 = words(s3, obj)
        cand = [o for o in w1 if o in w2 and o in w3 and w1[o][0] == w2[o][0] == w3[o][0]
                and w2[o][1] == w1[o][1] + 1 and w3[o][1] == w1[o][1] + 2]
        if len(cand) != 1:
            ctx.note("%s: no single stored block index, induction on it not made" % name)
            continue
        o = cand[0]
        n, v = w1[o]
        c = sym("c", 8 * n)
        s = s1.clone()
        eng.store_n(s, obj, o, n, c, False, ())
        base = len(s.user["objs"])
        for q in probe.calls(eng, s, [one(1, 3 * D + 1)]):
            hs = [h for h in finals(q) if h.id >= 0x1000 + base]
            ctx.check(len(hs) == 4, "pbkdf:counter", "%s: %d blocks computed for 4" % (name, len(hs)))
            for i, h in enumerate(hs):
                k = add(8 * n, c, 2 - v + i)
                k = zext(32, k, 8 * n) if n < 4 else trunc(32, k, 8 * n) if n > 4 else k
                want = [mk("mem", 8, salt[0].name, j) for j in range(7)] + [stream.byte(k, 3 - j) for j in range(4)]
                r = stream.match(eng, q, content(eng, q, h.updates()), [("bytes", want)])
                if r is None and n < 4:
                    r = "the block index wraps after %d blocks" % (1 << (8 * n))
                ctx.check(r is None, "pbkdf:counter", "%s: from an arbitrary block index, block +%d: %s" % (name, i, r))
        ctx.engine(eng)
