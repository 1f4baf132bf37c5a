"""HMAC: what the underlying hash is asked to digest."""
from terms import sym, add, xor, mk, Term, show
from absint import Engine, Ptr, State
import objs
import probe
import stream

SIZES = ((64, 20), (64, 28), (64, 32), (128, 28), (128, 32), (128, 48), (128, 64))


CUT = ((64, 32, 10), (128, 64, 33))


def check(eng, st, out, n, B, D, key, kn, msg, O=None):
    """O: size of the mac, when it is less than the hash's."""
    ps = objs.problems(st)
    if ps:
        return "; ".join(ps)
    O = O or D
    k = n if isinstance(n, int) and n < O else O
    if not st.poly.eq(st.user["ret_digest"], k):
        return "digest of %s bytes returns %s" % (show(n), show(st.user["ret_digest"]))
    mem = st.rd(out)
    over = [o for o in mem.cells if o >= k] or [w for w in mem.log if not st.poly.ge(k, add(64, w.off, w.len))]
    if over:
        return "digest of %s bytes writes beyond" % show(n)
    if k == 0:
        return None
    t = objs.tag_at(eng, st, out, mem, 0)
    if t is None:
        return "the digest is not a digest of the hash"
    r = stream.match(eng, st, stream.pieces_of(eng, st, [(out, mem, 0, k)]), [("ev", "D%d" % t, 0, k)])
    if r:
        return "digest: " + r
    H = st.user["objs"]
    outer = H[t].updates()
    # outer = (key ^ opad) || inner digest
    ps = stream.pieces_of(eng, st, outer)
    tags = [d[1] for ln, d in ps if d[0] == "ev"]
    for ln, d in ps:
        if d[0] == "cells":
            v = stream.piece_byte(eng, st, d, 0, 0)
            for j in range(ln if isinstance(ln, int) else 0):
                v = stream.piece_byte(eng, st, d, j, j)
                if isinstance(v, Term) and v.op == "evb":
                    tags.append(v.a[0])
    if not tags:
        return "the outer hash does not digest an inner hash"
    inner = int(tags[-1][1:])
    kd = None
    if isinstance(kn, Term) or kn > B:
        # key replaced by its hash: find it in the inner pad
        kd = [h for h in H.values() if h.final and h.id not in (t, inner)]
        for h in kd:
            if stream.match(eng, st, stream.pieces_of(eng, st, h.updates()), [("src", key, 0, kn)]) is None:
                kd = h
                break
        else:
            return "no hash of the key"
        kb = [mk("evb", 8, "D%d" % kd.id, i) for i in range(D)] + [0] * (B - D)
    else:
        kb = [mk("mem", 8, key.name, i) for i in range(kn)] + [0] * (B - kn)
    r = stream.match(eng, st, stream.pieces_of(eng, st, H[inner].updates()),
                     [("bytes", [xor(8, b, 0x36) for b in kb])] + msg)
    if r:
        return "inner hash: " + r
    r = stream.match(eng, st, ps, [("bytes", [xor(8, b, 0x5c) for b in kb]), ("ev", "D%d" % inner, 0, D)])
    if r:
        return "outer hash: " + r
    return None


def run(ctx):
    ctx.rule("over a recording hash, the digest is hash(key^opad || hash(key^ipad || message)) with keys longer than a "
             "block hashed first and shorter ones zero padded; every hash object is initialized, updated, finalized and "
             "read in that order")
    m = probe.load("hmac.cpp")
    top = 1 << 60
    for B, D, O in tuple((b, d, d) for b, d in SIZES) + CUT:
        name = "hmac_%d_%d" % (B, D) + ("_%d" % O if O != D else "")
        size = probe.const_global(m, name + "_sizeof")
        kns = list(range(B + 1)) + [sym("k", 64, B + 1, top)]
        if O != D:
            kns = [0, 1, O, B, kns[-1]]
        elif ctx.tier != "thorough" and (B, D) not in ((64, 20), (128, 64)):
            kns = [0, 1, D - 1, D, D + 1, B - 1, B, kns[-1]]
        for kn in kns:
            for pre in (False, True):
                if pre and kn not in (0, B, kns[-1]):
                    continue
                eng = Engine(m, objs.MODELS)
                obj, key = probe.arg("object", size), probe.arg("key", kn)
                ms = [probe.buf("message%d" % i, sym("n%d" % i, 64, 0, top)) for i in (1, 2)]
                seq = [(name + "_construct", [Ptr(obj)])]
                if pre:
                    # an object already used for another message
                    old = probe.arg("oldkey", 7)
                    seq += [(name + "_initialize", [Ptr(obj), Ptr(old), 7]), (name + "_update", [Ptr(obj), Ptr(old), 3]),
                            (name + "_finalize", [Ptr(obj)])]
                seq += [(name + "_initialize", [Ptr(obj), Ptr(key), kn])]
                seq += [(name + "_update", [Ptr(obj), Ptr(r), n]) for r, n in ms]
                seq += [(name + "_finalize", [Ptr(obj)])]
                big = sym("n_big", 64, O, 1 << 62)
                for st in probe.calls(eng, State(), seq):
                    for n in ((O,) if kn not in (0, kns[-1]) else (0, 1, O - 1, O, big)):
                        out = probe.arg("digest", n)
                        for s in probe.calls(eng, st.clone(), [(name + "_digest", [Ptr(obj), Ptr(out), n])]):
                            s.user["ret_digest"] = s.user["ret0"]
                            for q, r in stream.split_eval(eng, s, lambda q: check(
                                    eng, q, out, n, B, D, key, kn, [("src", p, 0, l) for p, l in ms], O)):
                                ctx.count("histories_proved")
                                ctx.check(r is None, "hmac", "block %d, digest %d of %d, key of %s bytes: %s" % (B, O, D, show(kn), r))
                ctx.engine(eng)
    ctx.expect("obligations", 100)
