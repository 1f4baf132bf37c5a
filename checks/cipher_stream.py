"""ChaCha: which keystream byte meets which message byte, for every way of cutting a message."""
from terms import sym, add, sub, mulc, byte, xor, trunc, fresh, Term, show, mk, cat
from absint import Engine, Ptr, State, AnalysisError, resolve, piece_byte
import probe
import stream

KS = "keystream"
CONST = b"expand 32-byte k"
RATIOS = (1, 2, 4, 8)


def problem(st, text):
    st.user["problems"] = st.user.get("problems", ()) + (text,)


def state_bytes(eng, st, p, x):
    out = []
    for i in range(64):
        v = eng.load_n(st, p.r, add(64, p.off, i), 1, x)
        out.append(v)
    return out


def check_state(eng, st, p, x):
    """the 64 byte block function input: constants, key, counter, nonce."""
    u = st.user
    got = [eng.load_n(st, p.r, add(64, p.off, 4 * i), 4, x) for i in range(16)]
    want = [int.from_bytes(CONST[4 * i:4 * i + 4], "little") for i in range(4)]
    want += [u["key"](4 * i) for i in range(8)]
    want += [add(32, u["iv"](0), trunc(32, u["ks"], 64) if isinstance(u["ks"], Term) else u["ks"] & 0xffffffff)]
    want += [u["iv"](4 * i) for i in range(1, 4)]
    for i in range(16):
        if not (got[i] is want[i] or got[i] == want[i] or stream.same_byte(st, got[i], want[i])):
            problem(st, "state word %d is %s, must be %s, at %s" % (
                i, show(got[i]) if isinstance(got[i], (int, Term)) else got[i], show(want[i]), probe.locstr(x.loc)))


def transform(eng, st, x, a):
    ratio, n, state, dst, src = a
    check_state(eng, st, state, x)
    blocks = mulc(64, n, ratio)
    k0 = mulc(64, st.user["ks"], 64)
    ln = mulc(64, blocks, 64)
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "load", src, ln, x)
        acc(eng, st, "store", dst, ln, x)
    out = []
    for lo, hi, d in resolve(eng, st, src.r, st.freeze(src.r), src.off, add(64, src.off, ln)):
        rel = sub(64, lo, src.off)
        j = fresh("j", 64, 0, 1 << 62)
        v = xor(8, piece_byte(eng, st, d, j, j), mk("evb", 8, st.user["stream"], add(64, add(64, k0, rel), j)))
        out.append((add(64, dst.off, rel), sub(64, hi, lo), ("map", ("val", v, 1), j, 1, 1)))
    if src.r is dst.r and not (src.off is dst.off or src.off == dst.off):
        problem(st, "source and destination of the transformation overlap, at %s" % probe.locstr(x.loc))
    for off, m, c in out:
        eng.write_range(st, dst.r, off, m, c, False, x.loc)
    st.user["ks"] = add(64, st.user["ks"], blocks)
    eng.event(st, "transform", "transform", a, x.loc)
    return blocks


def generate(eng, st, x, a):
    ratio, n, state, dst = a
    check_state(eng, st, state, x)
    blocks = mulc(64, n, ratio)
    ln = mulc(64, blocks, 64)
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "store", dst, ln, x)
    eng.write_range(st, dst.r, dst.off, ln, ("ev", st.user["stream"], mulc(64, st.user["ks"], 64)), False, x.loc)
    st.user["ks"] = add(64, st.user["ks"], blocks)
    eng.event(st, "generate", "generate", a, x.loc)
    return blocks


MODELS = {"probe_transform": transform, "probe_generate": generate}


def word_of(region, n):
    """little endian words of an n byte input, zero padded."""
    def f(off):
        return cat([mk("mem", 8, region.name, off + i) if off + i < n else 0 for i in range(4)])
    return f


def begin(eng, ratio, obj, kn=32, vn=16, st=None, tag=""):
    key, iv = probe.arg(tag + "key", kn), probe.arg(tag + "iv", vn)
    if st is None:
        st, = probe.calls(eng, State(), [("ratio_%d_construct" % ratio, [Ptr(obj)])])
    st.user["stream"] = tag + KS
    st.user["ks"] = 0
    st.user["key"], st.user["iv"] = word_of(key, kn), word_of(iv, vn)
    return st, ("ratio_%d_initialize" % ratio, [Ptr(obj), Ptr(key), kn, Ptr(iv), vn])


def check_out(eng, st, outs, KS=KS):
    """outs: (dst region, src region, len)."""
    pos = 0
    for i, (dst, src, n) in enumerate(outs):
        def f(o, src=src, pos=pos):
            return xor(8, mk("mem", 8, src.name, o), mk("evb", 8, KS, add(64, pos, o)))
        r = stream.match(eng, st, stream.pieces_of(eng, st, [(dst, st.rd(dst), 0, n)]), [("fn", f, 0, n)])
        if r:
            return "output of call %d: %s" % (i + 1, r)
        pos = add(64, pos, n)
    return None


def run(ctx):
    ctx.rule("with the keystream backend opaque and every size symbolic, output byte i of the message is the message "
             "byte xor keystream byte i, and each backend call is made with constants, key, nonce and the block "
             "counter advanced by exactly the blocks produced so far (modulo 2^32)")
    m = probe.load("cipher_stream.cpp")
    top = 1 << 60
    for ratio in RATIOS:
        name = "ratio_%d" % ratio
        size = probe.const_global(m, name + "_sizeof")
        plans = [("encrypt", ["_encrypt", "_encrypt", "_encrypt"], False),
                 ("decrypt", ["_decrypt", "_decrypt", "_decrypt"], False),
                 ("mixed", ["_encrypt", "_decrypt", "_encrypt"], False),
                 ("char", ["_encrypt_char"], False),
                 ("again", ["_encrypt"], False),
                 ("in place", ["_encrypt", "_decrypt"], True)]
        if ctx.tier == "thorough":
            plans.append(("mixed in place", ["_decrypt", "_encrypt", "_encrypt"], True))
            plans.append(("four", ["_encrypt", "_encrypt", "_decrypt", "_encrypt"], False))
        for plan, fns, inplace in plans:
            eng = Engine(m, MODELS)
            obj = probe.arg("object", size)
            st, = probe.calls(eng, State(), [(name + "_construct", [Ptr(obj)])])
            sts = [st]
            if plan == "again":
                # an object already used with another key
                n0 = sym("n0", 64, 0, top)
                src, dst = probe.arg("oldin", n0), probe.arg("oldout", n0)
                st, init = begin(eng, ratio, obj, st=st, tag="old")
                sts = probe.calls(eng, st, [init, (name + "_encrypt", [Ptr(obj), Ptr(src), n0, Ptr(dst)])])
            for st in sts:
                st, init = begin(eng, ratio, obj, st=st)
            seq, outs = [init], []
            for i, fn in enumerate(fns):
                n = sym("n%d" % (i + 1), 64, 0, top)
                src = probe.arg("in%d" % (i + 1), n)
                dst = src if inplace else probe.arg("out%d" % (i + 1), n)
                seq.append((name + fn, [Ptr(obj), Ptr(src), n, Ptr(dst)]))
                outs.append((dst, src, n))
            what = "%s, %s" % (name, plan)
            for s in (x for st in sts for x in probe.calls(eng, st, seq)):
                for i, (_, _, n) in enumerate(outs):
                    ctx.check(s.poly.eq(s.user["ret%d" % (i + 1)], n), name + ":returns",
                              "%s: call %d returns %s" % (what, i + 1, show(s.user["ret%d" % (i + 1)])))
                for p in s.user.get("problems", ()):
                    ctx.bad(name + ":" + plan, "%s: %s" % (what, p))
                for q, r in stream.split_eval(eng, s, lambda q: check_out(eng, q, outs)):
                    ctx.count("message_cuts_proved")
                    ctx.check(r is None, name + ":" + plan, "%s: %s" % (what, r))
            ctx.engine(eng)
    # key and nonce of other sizes: zero extended or cut, never anything else
    for kn in list(range(0, 40)):
        for vn in ([16] if kn != 32 else list(range(0, 20))):
            eng = Engine(m, MODELS)
            obj = probe.arg("object", probe.const_global(m, "ratio_1_sizeof"))
            st, init = begin(eng, 1, obj, kn, vn)
            src, dst = probe.arg("in", 5), probe.arg("out", 5)
            for s in probe.calls(eng, st, [init, ("ratio_1_encrypt", [Ptr(obj), Ptr(src), 5, Ptr(dst)])]):
                ps = s.user.get("problems", ())
                ctx.check(not ps, "initialize", "key of %d bytes, nonce of %d bytes: %s" % (kn, vn, "; ".join(ps)))
            ctx.engine(eng)
    ctx.expect("obligations", 100)
