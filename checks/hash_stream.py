"""Hash: what reaches the compression function for every way of cutting a message."""
from terms import sym, add, sub, mulc, byte, urem, mul, udiv, shl, icmp, Term, show, lshr, mk
from absint import Engine, Ptr, State, AnalysisError
import probe
import stream

IV = {
    "sha_1_160": (4, [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]),
    "sha_2_224": (4, [0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4]),
    "sha_2_256": (4, [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]),
    "sha_2_384": (8, [0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939,
                      0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4]),
    "sha_2_512": (8, [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
                      0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179]),
    "sha_2_512_224": (8, [0x8c3d37c819544da2, 0x73e1996689dcd4d6, 0x1dfab7ae32ff9c82, 0x679dd514582f9fcf,
                          0x0f6d2b697bd44da8, 0x77e36f7304c48942, 0x3f9d85a86a1d36c8, 0x1112e6ad91d692a1]),
    "sha_2_512_256": (8, [0x22312194fc2bf72c, 0x9f555fa3c84c64c2, 0x2393b86b6f53b151, 0x963877195940eabd,
                          0x96283ee2a88effe3, 0xbe5e1e2553863992, 0x2b0199fc2c85b8aa, 0x0eb72ddc81c52ca2]),
}
SIZES = {"sha_1_160": 20, "sha_2_224": 28, "sha_2_256": 32, "sha_2_384": 48, "sha_2_512": 64,
         "sha_2_512_224": 28, "sha_2_512_256": 32}
CUT = {"sha_1_160_cut": ("sha_1_160", 13), "sha_2_256_cut": ("sha_2_256", 9), "sha_2_384_cut": ("sha_2_384", 48),
       "sha_2_512_cut": ("sha_2_512", 21)}


def model(words, wsize):
    def blocks(eng, st, x, a):
        n, state, src = a
        if not isinstance(state, Ptr) or not isinstance(src, Ptr):
            raise AnalysisError("backend called without memory")
        eng.event(st, "blocks", "blocks", a, x.loc, mem=(st.freeze(state.r), st.freeze(src.r)))
        probe.havoc(eng, st, state, words * wsize, "h%d" % st.user.get("blocks", 0), x.loc)
        st.user["blocks"] = st.user.get("blocks", 0) + 1
    return blocks


def check_trace(eng, st, name, B, msg, total, only=None):
    """events of st (those numbered `only`) against padding of the message; None or text. May raise NeedSplit."""
    ws, iv = IV[name]
    evs = [e for e in st.trace if e.kind == "blocks"]
    ids = list(range(st.user.get("old", 0), len(evs))) if only is None else only
    evs = [evs[i] for i in ids]
    if not evs:
        return "the compression function is never called"
    # chaining value
    for i, e in enumerate(evs):
        s = e.args[1]
        if i == 0:
            bs = []
            for w in iv:
                bs += list(w.to_bytes(ws, "little"))
            spec = [("bytes", bs)]
        else:
            spec = [("ev", "h%d" % ids[i - 1], 0, ws * len(iv))]
        r = stream.match(eng, st, stream.pieces_of(eng, st, [(s.r, e.mem[0], s.off, ws * len(iv))]), spec)
        if r:
            return "chaining value before call %d at %s: %s" % (i, probe.locstr(e.loc), r)
    flow = [(e.args[2].r, e.mem[1], e.args[2].off, mulc(64, e.args[0], B)) for e in evs]
    lb = 8 if B == 64 else 16
    bits = shl(64, total, 3)
    high = udiv(64, total, 1 << 61)
    # number of zero bytes: smallest making a multiple of B
    left = urem(64, total, B)
    short = icmp("ult", 64, left, B - lb)
    t = st.poly.truth(short)
    if t is None:
        raise stream.NeedSplit(short)
    zeros = sub(64, (B if t else 2 * B) - lb - 1, left)
    lenb = [byte(bits, 7 - i) for i in range(8)]
    if lb == 16:
        hb = [byte(high, 7 - i) for i in range(8)]
        lenb = hb + lenb
    spec = list(msg) + [("bytes", [0x80]), ("fill", 0, zeros), ("bytes", lenb)]
    r = stream.match(eng, st, stream.pieces_of(eng, st, flow), spec)
    if r:
        return r + "\n calls: " + "; ".join("%s blocks from %s+%s at %s" % (
            show(e.args[0]), e.args[2].r.name, show(e.args[2].off), probe.locstr(e.loc)) for e in evs)
    return None


def mark(st):
    st.user["old"] = st.user.get("blocks", 0)
    return True


def run(ctx):
    ctx.rule("the byte sequence handed to the compression function, over all calls, is message || 0x80 || zeros || "
             "bit length, the chaining value starts at the algorithm's constants and is only written by the "
             "compression function, and the digest is the big endian prefix of the final chaining value")
    m = probe.load("hash_stream.cpp")
    for name in IV:
        ws, iv = IV[name]
        B = probe.const_global(m, name + "_block")
        ctx.check(B == (64 if ws == 4 else 128), name + ":block", "%s: block size is %d" % (name, B))
        ctx.check(probe.const_global(m, name + "_size") == SIZES[name], name + ":size",
                  "%s: digest size is %d" % (name, probe.const_global(m, name + "_size")))
        plans = [("update_thrice", 3, "_update", ()), ("empty", 0, "_update", ()), ("char", 1, "_update_char", ()),
                 ("again", 1, "_update", (1,)), ("again after finalize", 1, "_update", (1, 1)),
                 ("again at once", 0, "_update", ())]
        for cut, (whole, size) in CUT.items():
            if whole == name:
                ctx.check(probe.const_global(m, cut + "_size") == size, cut + ":size", "%s: digest size is %d" % (
                    name, probe.const_global(m, cut + "_size")))
                ctx.defer(lambda sub, a=(m, cut, B, ws, iv, "empty", 0, "_update", (), size, name): follow(sub, *a))
        for plan, nup, fn, before in plans:
            ctx.defer(lambda sub, a=(m, name, B, ws, iv, plan, nup, fn, before): follow(sub, *a))
    ctx.join()
    ctx.expect("obligations", 250)


def follow(ctx, m, name, B, ws, iv, plan, nup, fn, before, size=None, alg=None):
    top = 1 << 60
    eng = Engine(m, {"probe_blocks": model(len(iv), ws)})
    obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
    ps = [probe.buf("message%d" % (i + 1), sym("n%d" % (i + 1), 64, 0, top)) for i in range(nup)]
    seq = [(name + "_construct", [Ptr(obj)])]
    if plan.startswith("again"):
        # an object already used for another message
        seq += [(name + "_initialize", [Ptr(obj)])]
        if before:
            old, on = probe.buf("old", sym("n0", 64, 0, top))
            seq += [(name + "_update", [Ptr(obj), Ptr(old), on])]
        if len(before) == 2:
            seq += [(name + "_finalize", [Ptr(obj)])]
    seq += [(name + "_initialize", lambda s: [Ptr(obj)] if mark(s) else None)]
    seq += [(name + fn, [Ptr(obj), Ptr(r), n]) for r, n in ps]
    seq += [(name + "_finalize", [Ptr(obj)])]
    total = 0
    for _, n in ps:
        total = add(64, total, n)
    msg = [("src", r, 0, n) for r, n in ps]
    npaths = 0
    for st in probe.calls(eng, State(), seq):
        for s, r in stream.split_eval(eng, st, lambda s: check_trace(eng, s, alg or name, B, msg, total)):
            npaths += 1
            ctx.check(r is None, "%s:%s" % (name, plan), "%s, %s: %s" % (name, plan, r))
        if plan == "empty":
            digest(ctx, eng, st, name, obj, ws, size or SIZES[name])
    ctx.count("message_cuts_proved", npaths)
    ctx.engine(eng)


def digest(ctx, eng, st, name, obj, ws, size):
    tag = "h%d" % (st.user["blocks"] - 1)
    want = []
    for i in range(size):
        w, j = divmod(i, ws)
        want.append(mk("evb", 8, tag, w * ws + (ws - 1 - j)))
    big = sym("n_big", 64, size, 1 << 62)
    for n in list(range(size + 1)) + [big]:
        out = probe.arg("digest", n)
        for p in eng.start(name + "_digest", [Ptr(obj), Ptr(out), n], st.clone()):
            if p.kind != "ret":
                ctx.bad(name + ":digest", "%s: digest does not return" % name)
                continue
            k = n if isinstance(n, int) else size
            s = p.state
            ctx.check(s.poly.eq(p.val, k), name + ":digest", "%s: digest of %s bytes returns %s" % (name, show(n), show(p.val)))
            mem = s.rd(out)
            over = [o for o in mem.cells if o >= k] or [
                w for w in mem.log if not s.poly.ge(k, add(64, w.off, w.len))]
            ctx.check(not over, name + ":digest", "%s: digest of %s bytes writes beyond the requested size" % (name, show(n)))
            r = stream.match(eng, s, stream.pieces_of(eng, s, [(out, mem, 0, k)]), [("bytes", want[:k])])
            ctx.check(r is None, name + ":digest", "%s: digest of %s bytes: %s" % (name, show(n), r))
