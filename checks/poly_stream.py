"""Poly1305: which blocks are absorbed, under which key, for every way of cutting a message."""
from terms import sym, add, sub, mulc, urem, and_, Term, show, mk, cat, icmp
from absint import Engine, Ptr, State, AnalysisError
import probe
import stream

CLAMP = bytes.fromhex("ffffff0ffcffff0ffcffff0ffcffff0f")


def process(eng, st, x, a):
    n, key, acc, addbit, src = a
    ln = mulc(64, n, 16)
    f = st.user.get("on_access")
    if f:
        f(eng, st, "load", src, ln, x)
    k = st.user.get("calls", 0)
    eng.event(st, "process", "process", a, x.loc, mem=(st.freeze(key.r), st.freeze(acc.r), st.freeze(src.r)))
    probe.havoc(eng, st, acc, 20, "acc%d" % k, x.loc)
    st.user["calls"] = k + 1
    st.user["acc"] = acc


MODELS = {"probe_process": process}


def key_spec(key, kn):
    return [and_(8, mk("mem", 8, key.name, i), CLAMP[i]) if i < kn else 0 for i in range(16)]


def check(eng, st, key, kn, msg, total, only=None):
    evs = [e for e in st.trace if e.kind == "process"]
    ids = list(range(st.user.get("old", 0), len(evs))) if only is None else only
    evs = [evs[i] for i in ids]
    where = "; ".join("%s blocks, pad bit %s, from %s+%s at %s" % (
        show(e.args[0]), show(e.args[3]), e.args[4].r.name, show(e.args[4].off), probe.locstr(e.loc)) for e in evs)
    flow, full = [], 0
    for i, e in enumerate(evs):
        n, k, acc, bit, src = e.args
        r = stream.match(eng, st, stream.pieces_of(eng, st, [(k.r, e.mem[0], k.off, 16)]), [("bytes", key_spec(key, kn))])
        if r:
            return "multiplier of call %d is not the clamped first half of the key: %s (%s)" % (i, r, where)
        r = stream.match(eng, st, stream.pieces_of(eng, st, [(acc.r, e.mem[1], acc.off, 20)]),
                         [("ev", "acc%d" % ids[i - 1], 0, 20)] if i else [("bytes", [0] * 20)])
        if r:
            return "accumulator before call %d: %s (%s)" % (i, r, where)
        bit = st.poly.pin(bit) if isinstance(bit, Term) else bit
        if bit not in (0, 1):
            return "pad bit of call %d is %s" % (i, show(bit))
        ln = mulc(64, n, 16)
        if bit == 1:
            if flow and full is None:
                return "a full block follows the padded one (%s)" % where
            full = add(64, full, ln)
            flow.append((src.r, e.mem[2], src.off, ln))
        else:
            if full is None:
                return "two padded blocks (%s)" % where
            part = urem(64, total, 16)
            if stream.eq0(st, part, 0):
                return "a padded block although the message ends on a block boundary (%s)" % where
            if not st.poly.eq(full, sub(64, total, part)):
                return "%s bytes absorbed as full blocks of %s (%s)" % (show(full), show(total), where)
            full = None
            flow.append((src.r, e.mem[2], src.off, ln))
    spec = list(msg)
    part = urem(64, total, 16)
    if not stream.eq0(st, part, 0):
        if full is not None:
            return "the last partial block is not absorbed as a padded one (%s)" % where
        spec += [("bytes", [1]), ("fill", 0, sub(64, 15, part))]
    r = stream.match(eng, st, stream.pieces_of(eng, st, flow), spec)
    return r + "\n " + where if r else None


def deps(t, out):
    """leaf names a value is computed from."""
    work, seen = [t], set()
    while work:
        t = work.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op in ("mem", "evb"):
            out.add((t.a[0], t.a[1]))
        elif t.op == "lin":
            work += [x for x, _ in t.a[1]]
        elif t.op == "cat":
            work += list(t.a[0])
        else:
            work += [x for x in t.a if isinstance(x, Term)]
    return out


def mark(st):
    st.user["old"] = st.user.get("calls", 0)
    return True


def run(ctx):
    ctx.rule("the blocks absorbed are the message in order, full blocks with the pad bit and at most one final partial "
             "block followed by 0x01 and zeros without it; the multiplier is the clamped first half of the key; the "
             "accumulator starts at zero and is only changed by absorption; the digest combines the final accumulator "
             "with the second half of the key")
    m = probe.load("poly_stream.cpp")
    size = probe.const_global(m, "poly_sizeof")
    top = 1 << 60
    plans = [("update_thrice", 3, "poly_update"), ("empty", 0, ""), ("char", 1, "poly_update_char"),
             ("again", 1, "poly_update"), ("again after finalize", 1, "poly_update")]
    for plan, nup, fn in plans:
        eng = Engine(m, MODELS)
        obj, key = probe.arg("object", size), probe.arg("key", 32)
        ps = [probe.buf("message%d" % (i + 1), sym("n%d" % (i + 1), 64, 0, top)) for i in range(nup)]
        seq = [("poly_construct", [Ptr(obj)])]
        if plan.startswith("again"):
            # an object already used for another message
            ok, (old, on) = probe.arg("oldkey", 32), probe.buf("old", sym("n0", 64, 0, top))
            seq += [("poly_initialize", [Ptr(obj), Ptr(ok), 32]), ("poly_update", [Ptr(obj), Ptr(old), on])]
            if plan != "again":
                seq += [("poly_finalize", [Ptr(obj)])]
        seq += [("poly_initialize", lambda s: [Ptr(obj), Ptr(key), 32] if mark(s) else None)]
        seq += [(fn, [Ptr(obj), Ptr(r), n]) for r, n in ps]
        seq += [("poly_finalize", [Ptr(obj)])]
        total = 0
        for _, n in ps:
            total = add(64, total, n)
        msg = [("src", r, 0, n) for r, n in ps]
        for st in probe.calls(eng, State(), seq):
            for s, r in stream.split_eval(eng, st, lambda s: check(eng, s, key, 32, msg, total)):
                ctx.count("message_cuts_proved")
                ctx.check(r is None, "poly:" + plan, "%s: %s" % (plan, r))
            digest(ctx, eng, st, obj, plan)
        ctx.engine(eng)
    for kn in range(0, 40):
        eng = Engine(m, MODELS)
        obj, key = probe.arg("object", size), probe.arg("key", kn)
        msg = probe.arg("message", 16)
        seq = [("poly_construct", [Ptr(obj)]), ("poly_initialize", [Ptr(obj), Ptr(key), kn]), ("poly_update", [Ptr(obj), Ptr(msg), 16]),
               ("poly_finalize", [Ptr(obj)])]
        for st in probe.calls(eng, State(), seq):
            r = check(eng, st, key, min(kn, 16), [("src", msg, 0, 16)], 16)
            ctx.check(r is None, "poly:key", "key of %d bytes: %s" % (kn, r))
            digest(ctx, eng, st, obj, "key of %d bytes" % kn, kn)
        ctx.engine(eng)
    # a smaller digest
    eng = Engine(m, MODELS)
    obj, key = probe.arg("object", probe.const_global(m, "poly_cut_sizeof")), probe.arg("key", 32)
    msg = probe.arg("message", 21)
    for st in probe.calls(eng, State(), [("poly_cut_construct", [Ptr(obj)]), ("poly_cut_initialize", [Ptr(obj), Ptr(key), 32]),
                                         ("poly_cut_update", [Ptr(obj), Ptr(msg), 21]), ("poly_cut_finalize", [Ptr(obj)])]):
        r = check(eng, st, key, 32, [("src", msg, 0, 21)], 21)
        ctx.check(r is None, "poly:cut", "digest of 7 bytes: %s" % r)
        digest(ctx, eng, st, obj, "digest of 7 bytes", name="poly_cut", size=7)
    ctx.engine(eng)
    ctx.expect("obligations", 60)


def digest(ctx, eng, st, obj, plan, kn=32, last=None, key="key", name="poly", size=16):
    """last: the absorption the digest is of."""
    if last is None:
        last = {"acc%d" % (st.user["calls"] - 1)} if st.user.get("calls", 0) > st.user.get("old", 0) else set()
    keyname = key
    big = sym("n_big", 64, size, 1 << 62)
    for n in sorted({16, 0, 1, 7, 15, 17, size - 1, size, size + 1}) + [big]:
        out = probe.arg("digest", n)
        for p in eng.start(name + "_digest", [Ptr(obj), Ptr(out), n], st.clone()):
            k = n if isinstance(n, int) and n < size else size
            if p.kind != "ret":
                ctx.bad("poly:digest", "digest does not return")
                continue
            s = p.state
            ctx.check(s.poly.eq(p.val, k), "poly:digest", "digest of %s bytes returns %s" % (show(n), show(p.val)))
            mem = s.rd(out)
            over = [o for o in mem.cells if o >= k] or [w for w in mem.log if not s.poly.ge(k, add(64, w.off, w.len))]
            ctx.check(not over, "poly:digest", "digest of %s bytes writes beyond the requested size" % show(n))
            full = []
            for i in range(k):
                v = eng.load_n(s, out, i, 1, None)
                full.append(v)
                ds = deps(v, set())
                have = sorted(o for nm, o in ds if nm == keyname)
                lim = [16 + i] if 16 + i < kn else []
                if not (set(lim) <= set(have) and set(have) <= set(range(16, 20 + i))):
                    ctx.bad("poly:digest", "%s: digest byte %d is computed from key bytes %s" % (plan, i, have))
                tags = {nm for nm, _ in ds if nm.startswith("acc")}
                if tags != last:
                    ctx.bad("poly:digest", "%s: digest byte %d is computed from %s, not from the final accumulator" % (
                        plan, i, sorted(tags)))
                else:
                    ctx.ok("poly:digest")
