"""Lives of objects: copies and moves carry the whole computation; the end leaves no secret behind."""
from terms import sym, add, mk, icmp, Term, show
from absint import Engine, Ptr, State, AnalysisError, resolve, piece_byte, UNDEF
import hash_stream
import poly_stream
import cipher_stream
import hmac
import kdf
import aead
import objs
import probe
import stream

TOP = 1 << 60
HOW = ("copy", "move", "assign")


def length(what):
    return sym("n_" + what, 64, 0, TOP)


def chain(eng, st, tag, kind, prefix, argno):
    """numbers of the opaque calls a result comes from, first to last."""
    evs = [e for e in st.trace if e.kind == kind]
    out = []
    while tag is not None:
        out.append(tag)
        e = evs[tag]
        p = e.args[argno[0]]
        tag = None
        for lo, hi, d in resolve(eng, st, p.r, e.mem[argno[1]], p.off, add(64, p.off, 1)):
            v = mk("evb", 8, d[1], d[2]) if d[0] == "ev" else piece_byte(eng, st, d, 0, 0) if d[0] != "byte" else d[1]
            if isinstance(v, Term) and v.op == "evb" and v.a[0].startswith(prefix):
                tag = int(v.a[0][len(prefix):])
                if tag in out:
                    raise AnalysisError("circular chain")
    return out[::-1]


def fork(how, name, a, b, used):
    """a becomes b; b has lived before when it is assigned to."""
    return (used(b) if how == "assign" else []) + [(name + "_" + how, [Ptr(b), Ptr(a)])]


def hashes(ctx):
    m = probe.load("hash_stream.cpp")
    for name in hash_stream.IV:
        for how in HOW:
            for ended in (False, True):
                if ended and ctx.tier != "thorough" and name not in ("sha_1_160", "sha_2_512"):
                    continue
                ctx.defer(lambda sub, a=(m, name, how, ended): hash_copy(sub, *a))


def hash_copy(ctx, m, name, how, ended):
    ws, iv = hash_stream.IV[name]
    B = probe.const_global(m, name + "_block")
    size = probe.const_global(m, name + "_sizeof")
    eng = Engine(m, {"probe_blocks": hash_stream.model(len(iv), ws)})
    a, b = probe.arg("object", size), probe.arg("other", size)
    p1, p2, p3 = [probe.buf("message%d" % i, length("%d" % i)) for i in (1, 2, 3)]
    old = probe.buf("old", 3)
    up = lambda o, p: (name + "_update", [Ptr(o), Ptr(p[0]), p[1]])
    seq = [(name + "_construct", [Ptr(a)]), (name + "_initialize", [Ptr(a)]), up(a, p1)]
    if ended:
        seq += [(name + "_finalize", [Ptr(a)])]
    seq += fork(how, name, a, b, lambda o: [(name + "_construct", [Ptr(o)]), (name + "_initialize", [Ptr(o)]), up(o, old)])
    da, db = probe.arg("digest", 64), probe.arg("digest of the other", 64)
    if how != "move":
        if not ended:
            seq += [up(a, p2), (name + "_finalize", [Ptr(a)])]
        seq += [(name + "_digest", [Ptr(a), Ptr(da), 64])]
    seq += [(name + "_destroy", [Ptr(a)])]
    if not ended:
        seq += [up(b, p3), (name + "_finalize", [Ptr(b)])]
    seq += [(name + "_digest", [Ptr(b), Ptr(db), 64])]
    tail = [[], []] if ended else [[p2], [p3]]
    for st in probe.calls(eng, State(), seq):
        for d, rest in ((db, tail[1]), (da, tail[0])):
            if d is da and how == "move":
                continue

            def judge(q, d=d, rest=rest):
                t = first_tag(eng, q, d, "h")
                if t is None:
                    return "the digest is not the compression function's"
                ids = chain(eng, q, t, "blocks", "h", (1, 0))
                total = p1[1]
                for x in rest:
                    total = add(64, total, x[1])
                r = hash_stream.check_trace(eng, q, name, B, [("src", x[0], 0, x[1]) for x in [p1] + rest], total, ids)
                if r:
                    return r
                n = hash_stream.SIZES[name]
                want = [mk("evb", 8, "h%d" % t, i // ws * ws + ws - 1 - i % ws) for i in range(n)]
                return stream.match(eng, q, stream.pieces_of(eng, q, [(d, q.rd(d), 0, n)]), [("bytes", want)])
            verdict(ctx, eng, st, judge, "%s, %s%s, %s" % (name, how, " after finalize" if ended else "", d.name), name)
    ctx.engine(eng)


def first_tag(eng, st, r, prefix):
    mem = st.rd(r)
    for lo, hi, d in resolve(eng, st, r, mem, 0, 1):
        v = mk("evb", 8, d[1], d[2]) if d[0] == "ev" else piece_byte(eng, st, d, 0, 0)
        tags = sorted({nm for nm, _ in poly_stream.deps(v, set()) if nm.startswith(prefix)})
        if len(tags) == 1:
            return int(tags[0][len(prefix):])
    return None


def verdict(ctx, eng, st, judge, what, name):
    for q, r in stream.split_eval(eng, st, judge):
        ctx.count("lives_proved")
        ctx.check(r is None, "copy:" + name, "%s: %s" % (what, r))


def polys(ctx):
    m = probe.load("poly_stream.cpp")
    for how in HOW:
        for ended in (False, True):
            ctx.defer(lambda sub, a=(m, how, ended): poly_copy(sub, *a))


def poly_copy(ctx, m, how, ended):
    size = probe.const_global(m, "poly_sizeof")
    eng = Engine(m, poly_stream.MODELS)
    a, b, key, key2 = probe.arg("object", size), probe.arg("other", size), probe.arg("key", 32), probe.arg("oldkey", 32)
    p1, p2, p3 = [probe.buf("message%d" % i, length("%d" % i)) for i in (1, 2, 3)]
    old = probe.buf("old", 19)
    up = lambda o, p: ("poly_update", [Ptr(o), Ptr(p[0]), p[1]])
    seq = [("poly_construct", [Ptr(a)]), ("poly_initialize", [Ptr(a), Ptr(key), 32]), up(a, p1)]
    if ended:
        seq += [("poly_finalize", [Ptr(a)])]
    seq += fork(how, "poly", a, b, lambda o: [("poly_construct", [Ptr(o)]), ("poly_initialize", [Ptr(o), Ptr(key2), 32]), up(o, old)])
    da, db = probe.arg("digest", 16), probe.arg("digest of the other", 16)
    if how != "move":
        if not ended:
            seq += [up(a, p2), ("poly_finalize", [Ptr(a)])]
        seq += [("poly_digest", [Ptr(a), Ptr(da), 16])]
    seq += [("poly_destroy", [Ptr(a)])]
    if not ended:
        seq += [up(b, p3), ("poly_finalize", [Ptr(b)])]
    tail = [[], []] if ended else [[p2], [p3]]
    for st in probe.calls(eng, State(), seq):
        for s in probe.calls(eng, st.clone(), [("poly_digest", [Ptr(b), Ptr(db), 16])]):
            for d, o, rest in ((db, b, tail[1]), (da, a, tail[0])):
                if d is da and how == "move":
                    continue
                t = first_tag(eng, s, d, "acc")

                def judge(q, t=t, rest=rest):
                    ids = [] if t is None else chain(eng, q, t, "process", "acc", (2, 1))
                    total = p1[1]
                    for x in rest:
                        total = add(64, total, x[1])
                    return poly_stream.check(eng, q, key, 32, [("src", x[0], 0, x[1]) for x in [p1] + rest], total, ids)
                verdict(ctx, eng, s, judge, "poly1305, %s%s, %s" % (how, " after finalize" if ended else "", d.name), "poly")
                if o is b:
                    poly_stream.digest(ctx, eng, st, b, "%s" % how, last=set() if t is None else {"acc%d" % t})
    ctx.engine(eng)


def ciphers(ctx):
    m = probe.load("cipher_stream.cpp")
    for ratio in cipher_stream.RATIOS:
        for how in HOW:
            ctx.defer(lambda sub, a=(m, ratio, how): cipher_copy(sub, *a))


def cipher_copy(ctx, m, ratio, how):
    name = "ratio_%d" % ratio
    size = probe.const_global(m, name + "_sizeof")
    eng = Engine(m, cipher_stream.MODELS)
    a, b = probe.arg("object", size), probe.arg("other", size)
    n = [length("%d" % i) for i in (1, 2, 3)]
    io = [(probe.arg("out%d" % i, n[i]), probe.arg("in%d" % i, n[i]), n[i]) for i in range(3)]
    sts = [State()]
    if how == "assign":
        # the target worked with another key before
        s, = probe.calls(eng, State(), [(name + "_construct", [Ptr(b)])])
        s, init = cipher_stream.begin(eng, ratio, b, st=s, tag="old")
        o = probe.arg("oldout", 3), probe.arg("oldin", 3)
        sts = probe.calls(eng, s, [init, (name + "_encrypt", [Ptr(b), Ptr(o[1]), 3, Ptr(o[0])])])
    for s in sts:
        for s in probe.calls(eng, s, [(name + "_construct", [Ptr(a)])]):
            s, init = cipher_stream.begin(eng, ratio, a, st=s)

            def keep(q):
                q.user["ks of b"] = q.user["ks"]
                return [Ptr(b), Ptr(a)]

            def turn(q):
                q.user["ks"] = q.user["ks of b"]
                return [Ptr(b), Ptr(io[2][1]), n[2], Ptr(io[2][0])]
            seq = [init, (name + "_encrypt", [Ptr(a), Ptr(io[0][1]), n[0], Ptr(io[0][0])]), (name + "_" + how, keep)]
            if how != "move":
                seq += [(name + "_encrypt", [Ptr(a), Ptr(io[1][1]), n[1], Ptr(io[1][0])])]
            seq += [(name + "_destroy", [Ptr(a)]), (name + "_encrypt", turn)]
            for q in probe.calls(eng, s, seq):
                for p in q.user.get("problems", ()):
                    ctx.bad("copy:" + name, "%s, %s: %s" % (name, how, p))
                for outs in ([io[0], io[2]],) + (([io[0], io[1]],) if how != "move" else ()):
                    verdict(ctx, eng, q, lambda q: cipher_stream.check_out(eng, q, outs), "%s, %s, %s" % (name, how, outs[1][0].name), name)
    ctx.engine(eng)


def hmacs(ctx):
    m = probe.load("hmac.cpp")
    for B, D in hmac.SIZES:
        for how in HOW:
            for ended in (False, True):
                ctx.defer(lambda sub, a=(m, B, D, how, ended): hmac_copy(sub, *a))


def hmac_copy(ctx, m, B, D, how, ended):
    name = "hmac_%d_%d" % (B, D)
    size = probe.const_global(m, name + "_sizeof")
    for kn in (B, sym("k", 64, B + 1, TOP)):
        eng = Engine(m, objs.MODELS)
        a, b, key, key2 = probe.arg("object", size), probe.arg("other", size), probe.arg("key", kn), probe.arg("oldkey", 9)
        p1, p2, p3 = [probe.buf("message%d" % i, length("%d" % i)) for i in (1, 2, 3)]
        up = lambda o, p: (name + "_update", [Ptr(o), Ptr(p[0]), p[1]])
        seq = [(name + "_construct", [Ptr(a)]), (name + "_initialize", [Ptr(a), Ptr(key), kn]), up(a, p1)]
        if ended:
            seq += [(name + "_finalize", [Ptr(a)])]
        seq += fork(how, name, a, b, lambda o: [(name + "_construct", [Ptr(o)]), (name + "_initialize", [Ptr(o), Ptr(key2), 9])])
        da, db = probe.arg("digest", D), probe.arg("digest of the other", D)
        if how != "move":
            if not ended:
                seq += [up(a, p2), (name + "_finalize", [Ptr(a)])]
            seq += [(name + "_digest", [Ptr(a), Ptr(da), D])]
        seq += [(name + "_destroy", [Ptr(a)])]
        if not ended:
            seq += [up(b, p3), (name + "_finalize", [Ptr(b)])]
        seq += [(name + "_digest", [Ptr(b), Ptr(db), D])]
        tail = [[], []] if ended else [[p2], [p3]]
        for st in probe.calls(eng, State(), seq):
            st.user["ret_digest"] = D
            for d, rest in ((db, tail[1]), (da, tail[0])):
                if d is da and how == "move":
                    continue
                verdict(ctx, eng, st, lambda q: hmac.check(eng, q, d, D, B, D, key, kn, [("src", x[0], 0, x[1]) for x in [p1] + rest]),
                        "hmac block %d digest %d, %s%s, %s" % (B, D, how, " after finalize" if ended else "", d.name), "hmac")
        ctx.engine(eng)


def kdfs(ctx):
    m = probe.load("kdf.cpp")
    for D in kdf.SIZES:
        for kind in ("hkdf", "pbkdf"):
            for how in HOW:
                ctx.defer(lambda sub, a=(m, D, kind, how): kdf_copy(sub, *a))


def kdf_copy(ctx, m, D, kind, how):
    name = "%s_%d" % (kind, D)
    size = probe.const_global(m, name + "_sizeof")
    eng = Engine(m, objs.MODELS, unroll=1)
    a, b = probe.arg("object", size), probe.arg("other", size)
    ins = [probe.buf(x, sym(x[0] + "n", 64, 0, TOP)) for x in (("ikm", "salt", "info") if kind == "hkdf" else ("password", "salt"))]
    old = probe.arg("old", 3)
    init = [x for r, n in ins for x in (Ptr(r), n)]
    oldinit = [Ptr(old), 3] * len(ins)
    it = 1
    if kind == "pbkdf":
        init.append(it)
        oldinit.append(2)
    outs = [probe.buf("key%d" % i, n) for i, n in ((1, sym("n1", 64, 0, 2 * D)), (2, sym("n2", 64, 0, D)), (3, sym("n3", 64, 0, D)))]
    one = lambda o, i: (name + "_derive", [Ptr(o), Ptr(outs[i][0]), outs[i][1]])

    def mark(q, which, args):
        q.user[which] = frozenset(q.user.get("objs", {}))
        return args
    seq = [(name + "_construct", [Ptr(a)])]
    if how == "assign":
        seq += [(name + "_construct", [Ptr(b)]), (name + "_initialize", [Ptr(b)] + oldinit), (name + "_derive", [Ptr(b), Ptr(probe.arg("oldkey", 5)), 5])]
    seq += [(name + "_initialize", lambda q: mark(q, "m0", [Ptr(a)] + init)), one(a, 0)]
    i1 = len(seq) - 1
    seq += [(name + "_" + how, lambda q: mark(q, "m1", [Ptr(b), Ptr(a)]))]
    if how != "move":
        seq += [one(a, 1)]
        i2 = len(seq) - 1
    seq += [(name + "_destroy", lambda q: mark(q, "m2", [Ptr(a)])), one(b, 2)]
    i3 = len(seq) - 1
    for st in probe.calls(eng, State(), seq):
        runs = [("the other", [i1, i3], [outs[0], outs[2]], lambda u, al: u["m0"] | (u["m2"] - u["m1"]))]
        if how != "move":
            runs.append(("the first", [i1, i2], [outs[0], outs[1]], lambda u, al: u["m0"] | (al - u["m2"])))
        for which, rets, os, oldset in runs:
            q = st.clone()
            q.user["old"] = oldset(q.user, frozenset(q.user.get("objs", {})))
            vals = [q.user["ret%d" % i] for i in rets]
            q.user["ret1"], q.user["ret2"] = vals
            if kind == "hkdf":
                f = lambda q: kdf.check_hkdf(eng, q, D, ins[0], ins[1], ins[2], os)
            else:
                f = lambda q: kdf.check_pbkdf(eng, q, D, ins[0], ins[1], it, os)
            verdict(ctx, eng, q, f, "%s, %s, %s" % (name, how, which), kind)
    ctx.engine(eng)


def aeads(ctx):
    m = probe.load("aead.cpp")
    for how in HOW:
        for late in (False, True):
            ctx.defer(lambda sub, a=(m, how, late): aead_copy(sub, *a))


def aead_copy(ctx, m, how, late):
    size = probe.const_global(m, "aead_sizeof")
    eng = Engine(m, objs.MODELS)
    key, iv = probe.buf("key", sym("kn", 64, 0, TOP)), (probe.arg("iv", 12), 12)
    a, b = probe.arg("object", size), probe.arg("other", size)
    aads = [probe.buf("aad%d" % i, length("a%d" % i)) for i in range(3)]
    data = aead.mkdata([length("%d" % i) for i in range(3)], False)
    da, db = probe.arg("digest", 16), probe.arg("digest of the other", 16)
    ad = lambda o, i: ("aead_aad", [Ptr(o), Ptr(aads[i][0]), aads[i][1]])
    over = lambda o: ("aead_aadover", [Ptr(o)])
    enc = lambda o, i: ("aead_encrypt", [Ptr(o), Ptr(data[i][0]), data[i][1], Ptr(data[i][2])])
    fin = lambda o, d: [("aead_finalize", [Ptr(o)]), ("aead_digest", [Ptr(o), Ptr(d), 16])]
    seq = [("aead_make", [Ptr(a)]), ("aead_initialize", [Ptr(a), Ptr(key[0]), key[1], Ptr(iv[0]), 12]), ad(a, 0)]
    if late:
        seq += [over(a), enc(a, 0)]
    old = probe.arg("old", 12)
    seq += fork(how, "aead", a, b, lambda o: [("aead_make", [Ptr(o)]), ("aead_initialize", [Ptr(o), Ptr(old), 12, Ptr(old), 12]),
                                              ("aead_aad", [Ptr(o), Ptr(old), 3])])
    for o, i, d in ((a, 1, da), (b, 2, db)):
        if o is a and how == "move":
            seq += [("aead_destroy", [Ptr(a)])]
            continue
        seq += ([] if late else [ad(o, i), over(o)]) + [enc(o, i)] + fin(o, d)
        if o is a:
            seq += [("aead_destroy", [Ptr(a)])]
    for st in probe.calls(eng, State(), seq):
        for i, d in ((2, db), (1, da)):
            if d is da and how == "move":
                continue
            aa = [aads[0]] if late else [aads[0], aads[i]]
            dd = [data[0], data[i]] if late else [data[i]]
            verdict(ctx, eng, st, lambda q: aead.check(eng, q, key, iv, aa, dd, (d, 16), False),
                    "aead, %s %s, %s" % (how, "while encrypting" if late else "before encrypting", d.name), "aead")
    ctx.engine(eng)


def run_copies(ctx):
    ctx.rule("an object copied, moved from or assigned in the middle of a computation of any length: the new object, fed "
             "further data, gives the result of all of its data, whatever is then done with the first one (fed other data, "
             "finalized, destroyed), and the first one its own")
    hashes(ctx)
    polys(ctx)
    ciphers(ctx)
    hmacs(ctx)
    kdfs(ctx)
    aeads(ctx)
    ctx.join()
    ctx.expect("lives_proved", 500)
    import front
    ctx.copies = True
    front.run(ctx)
    front.run_aead(ctx)


# the end of an object ---------------------------------------------------------

PUBLIC = ("iv", "salt", "info", "aad", "oldpublic")


class Watch(Engine):
    """keeps, for every local array and for the object, the order of secret and of unremovable writes."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.memo = {}
        self.bad = set()
        self.watched = set()

    def tracked(self, st, r):
        return r in self.watched or r.kind == "alloca" and (r.size is None or r.size > 8)

    def secret(self, v):
        if not isinstance(v, Term):
            return False
        r = self.memo.get(v)
        if r is None:
            r = any(not nm.startswith(PUBLIC) for nm, _ in poly_stream.deps(v, set()))
            self.memo[v] = r
        return r

    def secret_content(self, c):
        k = c[0]
        if k in ("byte", "val"):
            return self.secret(c[1])
        if k == "map":
            return self.secret_content(c[1])
        if k == "ev":
            return True
        if k == "copy":
            r, m = c[1], c[3]
            if m.cells or m.log:
                if any(self.secret(x.val) for x in m.cells.values()) or any(self.secret_content(w.content) for w in m.log):
                    return True
            return r.kind == "arg" and r not in self.watched and not r.name.startswith(PUBLIC)
        return True

    def note(self, st, kind, r, lo, ln):
        t = st.user.get("lives", {})
        h = t.get(r)
        if kind == "B" and h is None:
            return
        if kind != "S" and h is None:
            return                      # nothing to forget yet
        t = dict(t)
        t[r] = ((kind, lo, ln), h)
        st.user["lives"] = t

    def kind(self, sec, vol):
        return "S" if sec else "C" if vol else "N"

    def store_n(self, st, r, off, n, v, vol, loc):
        super().store_n(st, r, off, n, v, vol, loc)
        if self.tracked(st, r):
            if isinstance(off, Term):
                off = st.poly.pin(off)
            self.note(st, self.kind(self.secret(v), vol), r, off, n)

    def write_range(self, st, r, off, ln, content, vol, loc):
        super().write_range(st, r, off, ln, content, vol, loc)
        if self.tracked(st, r) and not (not isinstance(ln, Term) and ln == 0):
            self.note(st, self.kind(self.secret_content(content), vol), r, off, ln)

    def fresh_cells(self, st, r, off, ln, seq0):
        if self.tracked(st, r) and not isinstance(ln, Term) and not isinstance(off, Term):
            m = st.rd(r)
            run = None
            for i in range(ln):
                c = m.cells.get(off + i)
                if c is None or c.seq <= seq0:
                    continue
                k = self.kind(self.secret(c.val), c.vol)
                if run and run[0] == k and run[1] + run[2] == off + i:
                    run[2] += 1
                    continue
                if run:
                    self.note(st, run[0], r, run[1], run[2])
                run = [k, off + i, 1]
            if run:
                self.note(st, run[0], r, run[1], run[2])

    def memset(self, st, p, v, ln, vol, x):
        seq0 = st.seq
        super().memset(st, p, v, ln, vol, x)
        if isinstance(p, Ptr):
            self.fresh_cells(st, p.r, p.off, st.poly.pin(ln) if isinstance(ln, Term) else ln, seq0)

    def memcpy(self, st, d, s, ln, x, vol=False):
        seq0 = st.seq
        super().memcpy(st, d, s, ln, x, vol)
        if isinstance(d, Ptr):
            self.fresh_cells(st, d.r, d.off, st.poly.pin(ln) if isinstance(ln, Term) else ln, seq0)

    def start(self, fname, args, state=None):
        if state is not None and "track" not in state.user:
            state.user["track"] = lambda s, k, r, lo, ln: self.note(s, k, r, lo, ln)
        return super().start(fname, args, state)

    def history(self, st, r):
        h = st.user.get("lives", {}).get(r)
        evs = []
        while h is not None:
            evs.append(h[0])
            h = h[1]
        return evs

    def remains(self, st, r, size):
        """offsets of r that may hold a secret written since they were last unremovably overwritten (the first few)."""
        evs = self.history(st, r)
        if not any(e[0] == "S" for e in evs):
            return []
        out = []
        for o in range(size):
            if self.concrete(evs, o):
                continue
            for v, left in stream.split_eval(self, st.clone(), lambda v: self.left(v, evs, o)):
                if left and v.poly.feasible():
                    out.append(o)
                    break
            if len(out) > 3:
                break
        return out

    def concrete(self, evs, o):
        """the last events already say that o is clean."""
        for k, lo, ln in evs:
            if isinstance(lo, Term) or isinstance(ln, Term) or k == "B":
                return False
            if k != "N" and lo <= o < lo + ln:
                return k == "C"
        return True

    def left(self, st, evs, o):
        late = False                    # a barrier follows
        for k, lo, ln in evs:           # last first
            if k == "B":
                late = True
                continue
            if k == "N" and not late:
                continue
            c = covers(st, o, lo, ln)
            if c is None:
                raise stream.NeedSplit(split_on(st, o, lo, ln))
            if c:
                return k == "S"
        return False


def covers(st, o, lo, ln):
    if not isinstance(lo, Term) and not isinstance(ln, Term):
        return lo <= o < lo + ln
    hi = add(64, lo, ln)
    if st.poly.ge(o, lo) and st.poly.ge(hi, o + 1):
        return True
    if st.poly.ge(o, hi) or st.poly.ge(lo, o + 1):
        return False
    return None


def split_on(st, o, lo, ln):
    if not st.poly.ge(o, lo):
        return icmp("ule", 64, lo, o)
    return icmp("ult", 64, o, add(64, lo, ln))


def spans(offs):
    out = []
    for o in offs:
        if out and out[-1][1] == o:
            out[-1][1] = o + 1
        else:
            out.append([o, o + 1])
    return ", ".join("%d..%d" % (a, b - 1) for a, b in out)


def end(ctx, m, models, name, what, seq, obj, unroll=None, st=None, eng=None):
    """seq, then the end of obj: nothing secret remains in it or in the local arrays of the functions run."""
    eng = eng or Watch(m, models, unroll=unroll)
    eng.watched.add(obj)
    n = 0
    for s in probe.calls(eng, st or State(), seq):
        had = sum(1 for e in eng.history(s, obj) if e[0] == "S")
        for q in probe.calls(eng, s, [(name + "_destroy", [Ptr(obj)])]):
            n += 1
            r = eng.remains(q, obj, obj.size)
            ctx.count("ends_proved")
            ctx.check(not r, "erase:" + name, "%s, %s: bytes %s.. of the object (size %d) keep what was computed from the input after "
                      "its destructor" % (name, what, spans(r), obj.size))
            for a in q.dead:
                if not isinstance(a.size, int):
                    continue
                r = eng.remains(q, a, a.size)
                ctx.check(not r, "erase:local:" + name, "%s, %s: bytes %s.. of the local array %s keep what was computed from "
                          "the input" % (name, what, spans(r), a.name))
            ctx.count("local_arrays_followed", len(q.dead))
        ctx.count("secret_writes_seen", had)
    if not n:
        raise AnalysisError("%s: no path" % name)
    ctx.engine(eng)


def run_erase(ctx):
    ctx.rule("every byte of an object, and of a local array, written with a value computed from a key, message, keystream or "
             "digest is, at the end of its life, overwritten by a write the compiler may not leave out (volatile, or "
             "behind a compiler barrier on that memory), on every path")
    for name in hash_stream.IV:
        ctx.defer(lambda sub, n=name: erase_hash(sub, n))
    ctx.defer(erase_poly)
    for r in cipher_stream.RATIOS:
        ctx.defer(lambda sub, r=r: erase_cipher(sub, r))
    for s in hmac.SIZES:
        ctx.defer(lambda sub, s=s: erase_hmac(sub, s))
    for D in kdf.SIZES:
        ctx.defer(lambda sub, D=D: erase_kdf(sub, D))
    ctx.defer(erase_aead)
    ctx.join()
    ctx.expect("ends_proved", 100)
    ctx.expect("secret_writes_seen", 2000)


def erase_hash(ctx, name):
    m = probe.load("hash_stream.cpp")
    ws, iv = hash_stream.IV[name]
    for ups, ended in ((1, False), (2, False), (1, True)):
        obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
        d = probe.arg("digest", 64)
        ps = [probe.buf("message%d" % i, length("%d" % i)) for i in range(ups)]
        seq = [(name + "_construct", [Ptr(obj)]), (name + "_initialize", [Ptr(obj)])]
        seq += [(name + "_update", [Ptr(obj), Ptr(r), n]) for r, n in ps]
        seq += [(name + "_finalize", [Ptr(obj)]), (name + "_digest", [Ptr(obj), Ptr(d), 64])] if ended else []
        end(ctx, m, {"probe_blocks": hash_stream.model(len(iv), ws)}, name, "%d updates%s" % (ups, ", finalized" if ended else ""), seq, obj)


def erase_poly(ctx):
    m = probe.load("poly_stream.cpp")
    for ups, ended in ((1, False), (2, False), (1, True)):
        obj, key = probe.arg("object", probe.const_global(m, "poly_sizeof")), probe.arg("key", 32)
        d = probe.arg("digest", 16)
        ps = [probe.buf("message%d" % i, length("%d" % i)) for i in range(ups)]
        seq = [("poly_construct", [Ptr(obj)]), ("poly_initialize", [Ptr(obj), Ptr(key), 32])]
        seq += [("poly_update", [Ptr(obj), Ptr(r), n]) for r, n in ps]
        seq += [("poly_finalize", [Ptr(obj)]), ("poly_digest", [Ptr(obj), Ptr(d), 16])] if ended else []
        end(ctx, m, poly_stream.MODELS, "poly", "%d updates%s" % (ups, ", finalized" if ended else ""), seq, obj)


def erase_cipher(ctx, ratio):
    m = probe.load("cipher_stream.cpp")
    name = "ratio_%d" % ratio
    for calls in (1, 2):
        obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
        eng = Watch(m, cipher_stream.MODELS)
        eng.watched.add(obj)
        st, = probe.calls(eng, State(), [(name + "_construct", [Ptr(obj)])])
        st, init = cipher_stream.begin(eng, ratio, obj, st=st)
        io = aead.mkdata([length("%d" % i) for i in range(calls)], False)
        seq = [init] + [(name + "_encrypt", [Ptr(obj), Ptr(src), n, Ptr(dst)]) for src, n, dst in io]
        end(ctx, m, None, name, "%d encryptions" % calls, seq, obj, st=st, eng=eng)


def erase_hmac(ctx, size):
    m = probe.load("hmac.cpp")
    for B, D in (size,):
        name = "hmac_%d_%d" % (B, D)
        for kn in (0, B, sym("k", 64, B + 1, TOP)):
            for ended in (False, True):
                obj, key = probe.arg("object", probe.const_global(m, name + "_sizeof")), probe.arg("key", kn)
                p, d = probe.buf("message", length("1")), probe.arg("digest", D)
                seq = [(name + "_construct", [Ptr(obj)]), (name + "_initialize", [Ptr(obj), Ptr(key), kn]), (name + "_update", [Ptr(obj), Ptr(p[0]), p[1]])]
                seq += [(name + "_finalize", [Ptr(obj)]), (name + "_digest", [Ptr(obj), Ptr(d), D])] if ended else []
                end(ctx, m, objs.MODELS, name, "key of %s bytes, %s" % (show(kn), "after finalize" if ended else "after update"), seq, obj)


def erase_kdf(ctx, D):
    m = probe.load("kdf.cpp")
    for kind in ("hkdf", "pbkdf"):
        name = "%s_%d" % (kind, D)
        for rep in (1, 2):
            obj = probe.arg("object", probe.const_global(m, name + "_sizeof"))
            ins = [probe.buf(x, sym(x[0] + "n", 64, 0, TOP)) for x in (("ikm", "salt", "info") if kind == "hkdf" else ("password", "salt"))]
            init = [x for r, n in ins for x in (Ptr(r), n)] + ([sym("it", 32)] if kind == "pbkdf" else [])
            seq = [(name + "_construct", [Ptr(obj)]), (name + "_initialize", [Ptr(obj)] + init)]
            for i in range(rep):
                k = probe.buf("out%d" % i, sym("n%d" % i, 64, 0, TOP))
                seq.append((name + "_derive", [Ptr(obj), Ptr(k[0]), k[1]]))
            end(ctx, m, objs.MODELS, name, "after %d derive calls" % rep, seq, obj, unroll=2 if rep == 1 else 1)


def erase_aead(ctx):
    m = probe.load("aead.cpp")
    for op in ("aead_encrypt", "aead_decrypt"):
        obj = probe.arg("object", probe.const_global(m, "aead_sizeof"))
        key, iv, aad = probe.buf("key", sym("kn", 64, 0, TOP)), probe.arg("iv", 12), probe.buf("aad", length("a"))
        (src, n, dst), = aead.mkdata([length("1")], False)
        d = probe.arg("digest", 16)
        seq = [("aead_make", [Ptr(obj)]), ("aead_initialize", [Ptr(obj), Ptr(key[0]), key[1], Ptr(iv), 12]), ("aead_aad", [Ptr(obj), Ptr(aad[0]), aad[1]]),
               ("aead_aadover", [Ptr(obj)]), (op, [Ptr(obj), Ptr(src), n, Ptr(dst)]), ("aead_finalize", [Ptr(obj)]), ("aead_digest", [Ptr(obj), Ptr(d), 16])]
        end(ctx, m, objs.MODELS, "aead", op, seq, obj)
