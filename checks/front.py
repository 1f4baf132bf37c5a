"""The public classes and one-call functions over recording algorithms: which bytes go where, and what comes out."""
from terms import sym, add, sub, xor, mk, icmp, Term, show
from absint import Engine, Ptr, Region, State, AnalysisError, NeedSplit
import objs
import probe
import stream

TOP = 1 << 60
BIG = 1 << 62


def umin(st, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return min(a, b)
    c = icmp("ult", 64, a, b)
    t = st.poly.truth(c)
    if t is None:
        raise NeedSplit(c)
    return a if t else b


def nonzero(st, n):
    if not isinstance(n, Term):
        return n != 0
    c = icmp("eq", 64, n, 0)
    t = st.poly.truth(c)
    if t is None:
        raise NeedSplit(c)
    return not t


def sameterm(st, a, b):
    if isinstance(a, Term) or isinstance(b, Term):
        return isinstance(a, (Term, int)) and isinstance(b, (Term, int)) and st.poly.eq(a, b)
    return a == b


class Plan:
    """a sequence of calls, and what the documentation says must come of it."""

    def __init__(self, m, kind, name):
        self.m, self.kind, self.name = m, kind, name
        self.size = probe.const_global(m, kind + "_sizeof")
        self.st = State()
        self.eng = Engine(m, objs.MODELS)
        self.seq, self.want = [], []
        self.n = 0

    # arguments
    def data(self, what):
        self.n += 1
        n = sym("n_%s%d" % (what, self.n), 64, 0, TOP)
        return probe.arg("%s%d" % (what, self.n), n), n

    def bytes(self, what, n):
        self.n += 1
        return probe.arg("%s%d" % (what, self.n), n)

    def container(self, filled=True):
        """an existing container holding some bytes."""
        self.n += 1
        r = probe.arg("container%d" % self.n, 16)
        n = sym("n_old%d" % self.n, 64, 0, TOP)
        old = probe.arg("old%d" % self.n, n)
        self.eng.store_n(self.st, r, 0, 8, Ptr(old), False, None)
        self.eng.store_n(self.st, r, 8, 8, n, False, None)
        return r, old, n

    def obj(self):
        self.n += 1
        return probe.arg("object%d" % self.n, self.size)

    def call(self, fn, args, want=None):
        self.seq.append((fn, args))
        if want:
            self.want.append((len(self.seq) - 1, fn, want))

    # evaluation
    def run(self, ctx, tag):
        if (tag == "copy") != ctx.copies:
            return                  # what copies do: life.py
        ctx.defer(lambda sub: self.decide(sub, tag))

    def decide(self, ctx, tag):
        done = 0
        for s in probe.calls(self.eng, self.st, self.seq):
            done += 1
            for i, fn, w in self.want:
                for q, r in stream.split_eval(self.eng, s, lambda q: w(self.eng, q, q.user["ret%d" % i])):
                    if not q.poly.feasible():
                        continue
                    ctx.count("results_proved")
                    ctx.check(r is None, tag + ":" + fn, "%s: %s: %s" % (self.name, fn, r))
            ps = objs.problems(s)
            ctx.check(not ps, tag + ":protocol", "%s: %s" % (self.name, "; ".join(ps)))
        if not done:
            raise AnalysisError("%s: no path" % self.name)
        ctx.engine(self.eng)


# where the result is ------------------------------------------------------------

def at_pointer(r):
    return lambda eng, st: (r, 0, None)


def at_container(r):
    def f(eng, st):
        return eng.load_n(st, r, 0, 8, None), 0, eng.load_n(st, r, 8, 8, None)
    return f


def place(eng, st, where):
    p, off, n = where(eng, st)
    if isinstance(p, Ptr):
        p, off = p.r, p.off
    return (p, off, n)


def output(eng, st, where, k, ret, spec, limit=None):
    """the k bytes of the result are as specified, nothing else is touched, and the sizes say k."""
    if ret is not None and not sameterm(st, ret, k):
        return "returns %s, not %s" % (show(ret), show(k))
    r, off, n = place(eng, st, where)
    if n is not None and not sameterm(st, n, k):
        return "the container comes out with %s bytes, not %s" % (show(n), show(k))
    if not nonzero(st, k):
        return None
    if not isinstance(r, Region):
        return "no result"
    mem = st.rd(r)
    over = [o for o in mem.cells if not st.poly.ge(k, o + 1)] or [
        w for w in mem.log if not st.poly.ge(k, add(64, w.off, w.len))] if n is None else []
    if over:
        return "writes beyond the %s bytes of the result" % show(k)
    return stream.match(eng, st, stream.pieces_of(eng, st, [(r, mem, off, k)]), spec)


def tag_of(eng, st, where):
    r, off, n = place(eng, st, where)
    if not isinstance(r, Region):
        return None
    mem = st.rd(r)
    for lo, hi, d in stream.resolve(eng, st, r, mem, off, add(64, off, 1)):
        v = stream.piece_byte(eng, st, d, 0, 0)
        if isinstance(v, Term) and v.op == "evb":
            return v.a[0]
    return None


def fed(eng, st, flows, msgs):
    return stream.match(eng, st, stream.pieces_of(eng, st, [f for f in flows if f is not None]),
                        [("src", r, 0, n) for r, n in msgs])


def given(eng, st, op, part, what):
    """the argument recorded under op is this part, whole."""
    if op is None:
        return "no %s" % what
    f, n = op
    if not sameterm(st, n, part[1]):
        return "%s of %s bytes, not %s" % (what, show(n), show(part[1]))
    r = fed(eng, st, [f], [part])
    return "%s: %s" % (what, r) if r else None


def digest_result(where, size, kind, key, msgs):
    """size: list of bounds, the result is as long as the least of them."""
    msgs = list(msgs)

    def f(eng, st, ret):
        k = size[0]
        for b in size[1:]:
            k = umin(st, k, b)
        if not nonzero(st, k):
            return output(eng, st, where, k, ret, [])
        t = tag_of(eng, st, where)
        if t is None or t[0] != "D":
            return "the result is not a digest"
        h = st.user["objs"][int(t[1:])]
        if h.kind != kind:
            return "the digest of a %s" % h.kind
        r = fed(eng, st, h.updates(), msgs)
        if r:
            return "message: " + r
        if key:
            r = given(eng, st, h.op("key"), key, "key")
            if r:
                return r
        return output(eng, st, where, k, ret, [("ev", t, 0, k)])
    return f


def words(n, legal, letters="IUD"):
    """the histories of at most n calls."""
    out, last = [""], [""]
    for _ in range(n):
        last = [w + c for w in last for c in letters if legal(w + c)]
        out += last
    return out


# digests --------------------------------------------------------------------------

FORMS = ("", "_0", "_c", "_c0", "_v", "_v0", "_a", "_r", "_s", "_s5")


class Digest(Plan):
    """hash and mac objects."""

    def begin(self, form="make", key=None):
        o = self.obj()
        st = {"obj": o, "key": None, "msgs": []}
        return self.init(st, form, key)

    def init(self, o, form="initialize", key=None):
        args = [Ptr(o["obj"])]
        o = dict(o, msgs=[])
        if self.kind == "mac":
            o["key"] = self.data("key")
            args += [Ptr(o["key"][0]), o["key"][1]]
        self.call("%s_%s" % (self.kind, form), args)
        return o

    def update(self, o, form=""):
        d = self.data("message")
        self.call(self.kind + "_update" + form, [Ptr(o["obj"]), Ptr(d[0]), d[1]])
        return dict(o, msgs=o["msgs"] + [d])

    def take(self, o, form=""):
        return self.result(self.kind + "_digest", [Ptr(o["obj"])], form, o["key"], o["msgs"])

    def result(self, fn, args, form, key, msgs):
        kind = "hash" if self.kind == "hash" else "hmac"
        self.n += 1
        n = sym("n_want%d" % self.n, 64, 0, BIG)
        fn += form
        if form in ("", "_0"):
            out = self.bytes("digest", n if form == "" else 32)
            self.call(fn, args + ([Ptr(out), n] if form == "" else [Ptr(out)]),
                      digest_result(at_pointer(out), [32, n] if form == "" else [32], kind, key, msgs))
        elif form in ("_c", "_c0"):
            out = self.container()[0]
            self.call(fn, args + ([Ptr(out), n] if form == "_c" else [Ptr(out)]),
                      digest_result(at_container(out), [32, n] if form == "_c" else [32], kind, key, msgs))
        elif form in ("_v", "_v0"):
            m = sym("n_view%d" % self.n, 64, 0, BIG)
            out = self.bytes("digest", m)
            self.call(fn, args + [Ptr(out), m] + ([n] if form == "_v" else []),
                      digest_result(at_pointer(out), [32, m] + ([n] if form == "_v" else []), kind, key, msgs))
        elif form == "_a":
            out = self.bytes("digest", 7)
            self.call(fn, args + [Ptr(out), n], digest_result(at_pointer(out), [7, n], kind, key, msgs))
        elif form == "_r":
            out = self.container()[0]
            self.call(fn, args + [Ptr(out), n], self.noret(digest_result(at_container(out), [32, n], kind, key, msgs)))
        else:
            k = 32 if form == "_s" else 5
            out = self.bytes("digest", k)
            self.call(fn, args + [Ptr(out)], self.noret(digest_result(at_pointer(out), [k], kind, key, msgs)))

    @staticmethod
    def noret(f):
        return lambda eng, st, ret: f(eng, st, None)

    def copy(self, o, how):
        p = self.obj()
        if how == "assign":
            q = self.begin()
            q = self.update(q)
            p = q["obj"]
        self.call("%s_%s" % (self.kind, how), [Ptr(p), Ptr(o["obj"])])
        return dict(o, obj=p)


def digests(ctx, m):
    for kind in ("hash", "mac"):
        def plan(name):
            return Digest(m, kind, "%s, %s" % (kind, name))
        makes = ("make",) if kind == "hash" else ("make", "construct", "construct_c")
        inits = ("initialize",) if kind == "hash" else ("initialize", "initialize_c")
        for form in FORMS:
            p = plan("one message, digest%s" % form)
            o = p.update(p.begin())
            p.take(o, form)
            p.run(ctx, "front")
            p = plan("digest%s of nothing" % form)
            p.take(p.begin(), form)
            p.run(ctx, "front")
            p = plan("digest read with digest%s, then again" % form)
            o = p.update(p.begin())
            p.take(o, "_0")
            p.take(o, form)
            p.take(o, "_s5")
            p.run(ctx, "front")
            p = plan("digest%s read first" % form)
            o = p.update(p.begin())
            p.take(o, form)
            p.take(o, "_0")
            p.run(ctx, "front")
            p = plan("object used again after digest%s" % form)
            o = p.update(p.begin())
            p.take(o, form)
            o = p.update(p.init(o, inits[-1]))
            p.take(o, form)
            o = p.update(p.update(p.init(o, inits[0])), "_c")
            p.take(o, "_0")
            p.run(ctx, "front")
        for mk_ in makes:
            for i in inits:
                p = plan("%s, two updates, %s unfinished, one update" % (mk_, i))
                o = p.update(p.update(p.begin(mk_)), "_c")
                o = p.update(p.init(o, i), "_c")
                p.take(o, "_0")
                p.run(ctx, "front")
            p = plan("%s, three updates" % mk_)
            o = p.update(p.update(p.update(p.begin(mk_), "_c")), "_c")
            p.take(o, "_c0")
            p.run(ctx, "front")
        for word in words(3 if ctx.tier == "quick" else 5, lambda w: "DU" not in w):
            p = plan("history " + (word or "-") + "D")
            o = p.begin()
            for i, c in enumerate(word):
                if c == "I":
                    o = p.init(o, inits[i % len(inits)])
                elif c == "U":
                    o = p.update(o, ("", "_c")[i % 2])
                else:
                    p.take(o, "_0")
            p.take(o, "_0")
            p.run(ctx, "front")
        for how in ("copy", "move", "assign"):
            p = plan(how + " between updates")
            o = p.update(p.begin())
            c = p.copy(o, how)
            if how != "move":
                o = p.update(o)
            c = p.update(c)
            if how != "move":
                p.take(o, "_0")
            p.take(c, "_0")
            p.run(ctx, "copy")
            p = plan(how + " after the digest was read")
            o = p.update(p.begin())
            p.take(o, "_0")
            c = p.copy(o, how)
            p.take(c, "_s")
            if how != "move":
                p.take(o, "_c0")
            p.run(ctx, "copy")
        for form in FORMS:
            if form in ("_v", "_v0", "_a"):
                continue
            p = plan("one call")
            args = []
            key = None
            if kind == "mac":
                key = p.data("key")
                args += [Ptr(key[0]), key[1]]
            d = p.data("message")
            args += [Ptr(d[0]), d[1]]
            p.result(kind + "_one", args, form, key, [d])
            p.run(ctx, "one")


# ciphers --------------------------------------------------------------------------

def cipher_result(where, src, n, dec, key, iv, pos, ret=True, count=None):
    def f(eng, st, r):
        roots = [h for h in st.user["objs"].values() if h.parent is None and h.kind == "chacha20"
                 and sameterm(st, h.op("key")[1], key[1])]
        if len(roots) != 1:
            return "%d ciphers with this key" % len(roots)
        h = roots[0]
        t = given(eng, st, h.op("key"), key, "key") or given(eng, st, h.op("iv"), iv, "iv")
        if t:
            return t
        t = output(eng, st, where, n, r if ret else None,
                   [("fn", lambda i: xor(8, mk("mem", 8, src.name, i), mk("evb", 8, "KS%d" % h.id, add(64, pos, i))), 0, n)])
        if t:
            return t
        for g in st.user["objs"].values():
            if g.cid == h.id:
                for op, a in g.ops:
                    if op == "crypt" and a[1] is not None and a[1][0] is src and bool(a[0]) != dec:
                        return "%scrypted" % ("en" if dec else "de")
        return None
    return f


class Cipher(Plan):
    def begin(self, form="make"):
        return self.init({"obj": self.obj()}, form)

    def init(self, o, form="initialize"):
        k, v = self.data("key"), self.data("iv")
        self.call("cipher_" + form, [Ptr(o["obj"]), Ptr(k[0]), k[1], Ptr(v[0]), v[1]])
        return dict(o, key=k, iv=v, pos=0)

    def crypt(self, o, op, form=""):
        dec = op == "decrypt"
        fn = "cipher_" + op + form
        if form == "_i":
            out, src, n = self.container()
            self.call(fn, [Ptr(o["obj"]), Ptr(out)], cipher_result(at_container(out), src, n, dec, o["key"], o["iv"], o["pos"]))
        else:
            src, n = self.data("input")
            self.result(fn, [Ptr(o["obj"])], form, src, n, dec, o["key"], o["iv"], o["pos"])
        return dict(o, pos=add(64, o["pos"], n))

    def result(self, fn, args, form, src, n, dec, key, iv, pos):
        args = args + [Ptr(src), n]
        if form in ("", "_v"):
            out = self.bytes("output", n)
            self.call(fn, args + [Ptr(out)] + ([n] if form == "_v" else []),
                      cipher_result(at_pointer(out), src, n, dec, key, iv, pos))
        else:
            out = self.container()[0]
            self.call(fn, args + [Ptr(out)], cipher_result(at_container(out), src, n, dec, key, iv, pos, form != "_r"))


def ciphers(ctx, m):
    for op in ("encrypt", "decrypt"):
        for form in ("", "_c", "_i", "_v", "_r"):
            p = Cipher(m, "cipher", "cipher")
            o = p.crypt(p.begin(), op, form)
            p.run(ctx, "front")
            p = Cipher(m, "cipher", "cipher, second call")
            o = p.crypt(p.begin(), op)
            o = p.crypt(o, op, form)
            p.run(ctx, "front")
            p = Cipher(m, "cipher", "cipher, initialized again")
            o = p.crypt(p.begin("construct"), op, form)
            o = p.crypt(p.init(o, "initialize_c"), op, form)
            p.run(ctx, "front")
            if form not in ("_i", "_v"):
                p = Cipher(m, "cipher", "one call")
                k, v, d = p.data("key"), p.data("iv"), p.data("input")
                p.result("cipher_one_" + op + form, [Ptr(k[0]), k[1], Ptr(v[0]), v[1]], form, d[0], d[1], op == "decrypt", k, v, 0)
                p.run(ctx, "one")
        for word in words(2 if ctx.tier == "quick" else 4, lambda w: True, "IC"):
            p = Cipher(m, "cipher", "history %sC" % word)
            o = p.begin()
            for c in word + "C":
                o = p.init(o) if c == "I" else p.crypt(o, op)
            p.run(ctx, "front")
        for form in ("construct", "construct_c"):
            p = Cipher(m, "cipher", form)
            p.crypt(p.begin(form), op)
            p.run(ctx, "front")
        for how in ("copy", "move", "assign"):
            p = Cipher(m, "cipher", how + " between calls")
            o = p.crypt(p.begin(), op)
            c = {"obj": p.obj()} if how != "assign" else p.crypt(p.begin(), op)
            p.call("cipher_" + how, [Ptr(c["obj"]), Ptr(o["obj"])])
            c = dict(o, obj=c["obj"])
            p.crypt(c, op)
            if how != "move":
                p.crypt(o, op)
            p.run(ctx, "copy")
        for form in ("", "_c"):
            p = Cipher(m, "cipher", "size")
            o, d = p.begin(), p.data("input")
            p.call("cipher_%s_size%s" % (op, form), [Ptr(o["obj"]), Ptr(d[0]), d[1]],
                   lambda eng, st, r, d=d: None if sameterm(st, r, d[1]) else "size %s" % show(r))
            p.run(ctx, "front")


# key derivation -------------------------------------------------------------------

def kdf_result(where, size, kind, parts, pos, ret=True):
    def f(eng, st, r):
        k = size[0]
        for b in size[1:]:
            k = umin(st, k, b)
        if not nonzero(st, k):
            return output(eng, st, where, k, r if ret else None, [])
        t = tag_of(eng, st, where)
        if t is None or t[0] != "K":
            return "the result is not derived"
        h = st.user["objs"][int(t[1:])]
        for name in ("ikm", "salt") + (("info",) if kind == "hkdf" else ()):
            x = given(eng, st, h.op(name), parts[name], name)
            if x:
                return x
        if kind == "pbkdf" and not sameterm(st, h.op("count"), parts["count"]):
            return "%s iterations, not %s" % (show(h.op("count")), show(parts["count"]))
        return output(eng, st, where, k, r if ret else None, [("ev", t, pos, k)])
    return f


class Kdf(Plan):
    def parts(self):
        p = {"ikm": self.data("ikm"), "salt": self.data("salt")}
        args = [x for k in ("ikm", "salt") for x in (Ptr(p[k][0]), p[k][1])]
        if self.kind == "hkdf":
            p["info"] = self.data("info")
            args += [Ptr(p["info"][0]), p["info"][1]]
        else:
            self.n += 1
            p["count"] = sym("count%d" % self.n, 32, 0, (1 << 32) - 1)
            args += [p["count"]]
        return p, args

    def begin(self, form="make"):
        return self.init({"obj": self.obj()}, form)

    def init(self, o, form="initialize"):
        p, args = self.parts()
        self.call("%s_%s" % (self.kind, form), [Ptr(o["obj"])] + args)
        return dict(o, parts=p, pos=0)

    def derive(self, o, form=""):
        k = self.result(self.kind + "_derive", [Ptr(o["obj"])], form, o["parts"], o["pos"])
        return dict(o, pos=add(64, o["pos"], k) if k is not None else None)

    def result(self, fn, args, form, parts, pos):
        self.n += 1
        n = sym("n_want%d" % self.n, 64, 0, TOP)
        fn += form
        if form == "":
            out = self.bytes("key", n)
            self.call(fn, args + [Ptr(out), n], kdf_result(at_pointer(out), [n], self.kind, parts, pos))
        elif form == "_v":
            m = sym("n_view%d" % self.n, 64, 0, TOP)
            out = self.bytes("key", m)
            self.call(fn, args + [Ptr(out), m, n], kdf_result(at_pointer(out), [n, m], self.kind, parts, pos))
            return None
        elif form == "_s":
            out = self.bytes("key", 21)
            self.call(fn, args + [Ptr(out)], kdf_result(at_pointer(out), [21], self.kind, parts, pos, False))
            return 21
        else:
            out = self.container()[0]
            self.call(fn, args + [Ptr(out), n], kdf_result(at_container(out), [n], self.kind, parts, pos, form == "_c"))
        return n


def kdfs(ctx, m):
    for kind in ("hkdf", "pbkdf"):
        for form in ("", "_c", "_v", "_r", "_s"):
            p = Kdf(m, kind, kind)
            o = p.derive(p.begin(), form)
            p.run(ctx, "front")
            p = Kdf(m, kind, kind + ", second call")
            o = p.derive(p.derive(p.begin()), form)
            p.run(ctx, "front")
            p = Kdf(m, kind, kind + ", initialized again")
            o = p.derive(p.begin("construct"), form)
            o = p.derive(p.init(o, "initialize_c"), form)
            p.run(ctx, "front")
            if form != "_v":
                p = Kdf(m, kind, "one call")
                parts, args = p.parts()
                p.result(kind + "_one", args, form, parts, 0)
                p.run(ctx, "one")
        for word in words(2 if ctx.tier == "quick" else 4, lambda w: True, "IK"):
            p = Kdf(m, kind, "%s, history %sK" % (kind, word))
            o = p.begin()
            for c in word + "K":
                o = p.init(o) if c == "I" else p.derive(o)
            p.run(ctx, "front")
        for form in ("construct", "construct_c"):
            p = Kdf(m, kind, form)
            p.derive(p.derive(p.begin(form)))
            p.run(ctx, "front")
        for how in ("copy", "move", "assign"):
            p = Kdf(m, kind, how + " between calls")
            o = p.derive(p.begin())
            c = {"obj": p.obj()} if how != "assign" else p.derive(p.begin())
            p.call("%s_%s" % (kind, how), [Ptr(c["obj"]), Ptr(o["obj"])])
            c = p.derive(dict(o, obj=c["obj"]))
            if how != "move":
                p.derive(o)
            p.run(ctx, "copy")


# codecs ---------------------------------------------------------------------------

def codecs(ctx, m):
    for pre in ("codec_", "codec_one_"):
        for op, code in (("encode", 1), ("decode", 3)):
            forms = ("", "_c", "_r") if code == 1 else ("", "_t", "_c", "_ct", "_r")
            for form in forms:
                eng = Engine(m, objs.MODELS)
                n = sym("n", 64, 0, TOP)
                src = probe.arg("input", n)
                st = State()
                fn = pre + op + form
                args = [Ptr(src), n]
                if form in ("", "_t"):
                    bound = n if code == 3 else add(64, n, n)
                    out = probe.arg("output", bound)
                    where = at_pointer(out)
                else:
                    out = probe.arg("container", 16)
                    old = probe.arg("old", sym("n_old", 64, 0, TOP))
                    eng.store_n(st, out, 0, 8, Ptr(old), False, None)
                    eng.store_n(st, out, 8, 8, sym("n_old", 64, 0, TOP), False, None)
                    where = at_container(out)
                err = probe.arg("error", 4)
                args += [Ptr(out)]
                byref = code == 3 and form in ("", "_c")
                if byref:
                    args += [Ptr(err)]
                done = 0
                for p in eng.start(fn, args, st):
                    s = p.state
                    if p.kind not in ("ret", "throw"):
                        raise AnalysisError("%s: %s" % (fn, p.kind))

                    def judge(q):
                        c = sym("code", 32, 0, 6)
                        ops = [o for o in q.user.get("codec", ()) if o[0] == code]
                        if len(ops) != 1:
                            return "%d conversions" % len(ops)
                        x = fed(eng, q, [ops[0][1]], [(src, n)])
                        if x:
                            return "input: " + x
                        if p.kind == "throw":
                            if byref or code == 1:
                                return "an exception leaves the function that reports through its error argument"
                            if not sameterm(q, eng.load_n(q, p.val, 0, 4, None), c):
                                return "another error is thrown than reported"
                            return None if q.poly.truth(icmp("eq", 32, c, 0)) == 0 else "throws without an error"
                        if byref and not sameterm(q, eng.load_n(q, err, 0, 4, None), c):
                            return "another error is reported than the conversion gave"
                        if code == 3 and not byref and q.poly.truth(icmp("eq", 32, c, 0)) != 1:
                            return "returns normally although the conversion failed"
                        r = sym("result", 64, 0, 1 << 62)
                        if form in ("", "_t"):
                            return None if sameterm(q, p.val, r) else "returns %s" % show(p.val)
                        return output(eng, q, where, r, p.val if form != "_r" else None, [("ev", "E%d" % code, 0, r)])
                    for q, t in stream.split_eval(eng, s, judge):
                        if not q.poly.feasible():
                            continue
                        done += 1
                        ctx.count("results_proved")
                        ctx.check(t is None, "codec:" + fn, "%s: %s" % (fn, t))
                if not done:
                    raise AnalysisError(fn + ": no path")
                ctx.engine(eng)
    for op in ("encode", "decode"):
        for form in ("", "_c"):
            eng = Engine(m, objs.MODELS)
            n = sym("n", 64, 0, TOP)
            src = probe.arg("input", n)
            fn = "codec_%s_size%s" % (op, form)
            for s in probe.calls(eng, State(), [(fn, [Ptr(src), n])]):
                want = add(64, n, n) if op == "encode" else n
                ctx.check(sameterm(s, s.user["ret0"], want), "codec:" + fn, "%s returns %s" % (fn, show(s.user["ret0"])))
            ctx.engine(eng)


# authenticated encryption ---------------------------------------------------------

class Aead(Plan):
    """the forms with containers that grow; aead.py covers the others."""

    def __init__(self, m, name):
        super().__init__(m, "wrap", name)
        self.key, self.iv, self.aad = self.data("key"), (self.bytes("iv", 12), 12), self.data("aad")
        self.outs, self.dec = [], False
        self.args = [Ptr(self.key[0]), self.key[1], Ptr(self.iv[0]), 12]

    def begin(self):
        self.o = self.obj()
        self.call("wrap_construct", [Ptr(self.o)] + self.args)
        self.call("wrap_aad", [Ptr(self.o), Ptr(self.aad[0]), self.aad[1]])

    def crypt(self, op, form, n=None):
        d = self.data("input") if n is None else (self.bytes("input", n), n)
        out = self.container()[0]
        self.call("wrap_%s%s" % (op, form), [Ptr(self.o), Ptr(d[0]), d[1], Ptr(out)], self.sized(out, d[1], form == "_g"))
        self.outs.append((d, out))
        self.dec = op == "decrypt"

    @staticmethod
    def sized(out, n, ret):
        def f(eng, st, r):
            if ret and not sameterm(st, r, n):
                return "returns %s, not %s" % (show(r), show(n))
            m = eng.load_n(st, out, 8, 8, None)
            return None if sameterm(st, m, n) else "the container comes out with %s bytes, not %s" % (show(m), show(n))
        return f

    def whole(self, where, size, ret=True):
        """the digest and everything encrypted before it."""
        from aead import check
        outs = list(self.outs)

        def f(eng, st, r):
            k = size[0]
            for b in size[1:]:
                k = umin(st, k, b)
            if ret and not sameterm(st, r, k):
                return "returns %s, not %s" % (show(r), show(k))
            p, off, n = place(eng, st, where)
            if n is not None and not sameterm(st, n, k):
                return "the container comes out with %s bytes, not %s" % (show(n), show(k))
            if not nonzero(st, k):
                return None
            data = []
            for d, o in outs:
                q = eng.load_n(st, o, 0, 8, None) if o.size == 16 else Ptr(o)
                if isinstance(q, Ptr):
                    data.append((d[0], d[1], q.r))
                elif nonzero(st, d[1]):
                    return "no output"
                else:
                    data.append((d[0], d[1], o))
            return check(eng, st, self.key, self.iv, [self.aad], data, (p, k), self.dec)
        return f

    def digest(self, form):
        fn, a = "wrap_digest" + form, [Ptr(self.o)]
        n = sym("n_want%d" % self.n, 64, 0, BIG)
        if form in ("_g", "_g0", "_r"):
            out = self.container()[0]
            size = [16] if form == "_g0" else [16, n]
            self.call(fn, a + [Ptr(out)] + ([] if form == "_g0" else [n]), self.whole(at_container(out), size, form != "_r"))
        elif form == "_v":
            m = sym("n_view", 64, 0, BIG)
            out = self.bytes("digest", m)
            self.call(fn, a + [Ptr(out), m, n], self.whole(at_pointer(out), [16, m, n]))
        else:
            k = {"_0": 16, "_s5": 5}[form]
            out = self.bytes("digest", k)
            self.call(fn, a + [Ptr(out)], self.whole(at_pointer(out), [k], form == "_0"))


def run_aead(ctx):
    m = probe.load("aead.cpp")
    for op in ("encrypt", "decrypt"):
        for form in ("_g", "_r"):
            p = Aead(m, op + form)
            p.begin()
            p.crypt(op, form)
            p.crypt(op, form)
            p.digest("_0")
            p.run(ctx, "front")
        for form in ("_g", "_g0", "_r", "_v", "_s5"):
            p = Aead(m, op + ", digest" + form)
            p.begin()
            p.crypt(op, "_g")
            p.digest(form)
            p.digest("_g0")
            p.run(ctx, "front")
        for form in ("", "_c"):
            p = Aead(m, "size")
            p.begin()
            d = p.data("input")
            p.call("wrap_%s_size%s" % (op, form), [Ptr(p.o), Ptr(d[0]), d[1]],
                   lambda eng, st, r, d=d: None if sameterm(st, r, d[1]) else "size %s" % show(r))
            p.run(ctx, "front")
    for how in ("copy", "move", "assign"):
        for late in (False, True):
            p = Aead(m, how)
            p.begin()
            if late:
                p.crypt("encrypt", "_g")
            o, outs = p.o, list(p.outs)
            p.o = p.obj()
            if how == "assign":
                k, v = p.data("key"), p.bytes("iv", 12)
                p.call("wrap_construct", [Ptr(p.o), Ptr(k[0]), k[1], Ptr(v), 12])
                p.call("wrap_encrypt", [Ptr(p.o), Ptr(k[0]), k[1], Ptr(k[0])])
            p.call("wrap_" + how, [Ptr(p.o), Ptr(o)])
            p.crypt("encrypt", "_g", 9)
            p.digest("_0")
            if how != "move":
                p.o, p.outs = o, outs
                p.crypt("encrypt", "_g", 70)
                p.digest("_0")
            p.run(ctx, "copy")
    for form in ("_g", "_r"):
        p = Aead(m, "one call")
        d = p.data("input")
        out = p.container()[0]
        p.outs.append((d, out))
        dig = p.container()[0] if form == "_g" else p.bytes("digest", 16)
        p.call("one_encrypt" + form, p.args + [Ptr(p.aad[0]), p.aad[1], Ptr(d[0]), d[1], Ptr(out), Ptr(dig)],
               both(Aead.sized(out, d[1], form == "_g"), p.whole(at_container(dig) if form == "_g" else at_pointer(dig), [16], False)))
        p.run(ctx, "one")
    # what is decrypted at once (which digests are accepted: verify.py)
    from verify import outcomes
    for form in ("_c", "_ct", "_g", "_gt", "_r"):
        p = Aead(m, "one call")
        d = p.data("input")
        grows = form[1] in "gr"
        out = p.container()[0] if grows else p.bytes("output", d[1])
        dig, err = p.bytes("given", 16), p.bytes("error", 4)
        args = p.args + [Ptr(p.aad[0]), p.aad[1], Ptr(d[0]), d[1], Ptr(dig), 16, Ptr(out), Ptr(err)]
        done = 0
        for s, val, exc in outcomes(p.eng, p.st, [("one_decrypt" + form, args)]):
            def judge(q):
                e = p.eng.load_n(q, exc if exc is not None else err, 0, 4, None) if exc is not None or form in ("_c", "_g") else 0
                z = q.poly.truth(icmp("eq", 32, e, 0)) if isinstance(e, Term) else int(e == 0)
                if z is None:
                    raise NeedSplit(icmp("eq", 32, e, 0))
                if not z:
                    return None
                if grows:
                    t = Aead.sized(out, d[1], form != "_r")(p.eng, q, val)
                elif not sameterm(q, val, d[1]):
                    t = "returns %s, not %s" % (show(val), show(d[1]))
                else:
                    t = None
                if t or not nonzero(q, d[1]):
                    return t
                from aead import ciphers
                base, t = ciphers(p.eng, q, p.key, p.iv)
                if t:
                    return t
                for cid, b in base.items():
                    o = p.eng.load_n(q, out, 0, 8, None).r if grows else out
                    t = stream.match(p.eng, q, stream.pieces_of(p.eng, q, [(o, q.rd(o), 0, d[1])]), [
                        ("fn", lambda i: xor(8, mk("mem", 8, d[0].name, i), mk("evb", 8, "KS%d" % cid, add(64, i, 64 - b))), 0, d[1])])
                    if t is None:
                        return None
                return "plaintext: " + t
            for q, t in stream.split_eval(p.eng, s, judge):
                if q.poly.feasible():
                    done += 1
                    ctx.count("results_proved")
                    ctx.check(t is None, "one:decrypt" + form, "one_decrypt%s: %s" % (form, t))
        if not done:
            raise AnalysisError("no path")
        ctx.engine(p.eng)
    ctx.join()


def both(*fs):
    def f(eng, st, r):
        for g in fs:
            t = g(eng, st, r)
            if t:
                return t
    return f


def run(ctx):
    ctx.rule("over recording algorithms, every overload of the classes and every one-call function feeds the algorithm "
             "each argument in its role, in order and whole; the algorithm is started, fed, finalized and read once; what is "
             "written and returned is the requested part of the result")
    m = probe.load("front.cpp")
    digests(ctx, m)
    ciphers(ctx, m)
    kdfs(ctx, m)
    codecs(ctx, m)
    ctx.join()
    ctx.expect("results_proved", 300 if not ctx.copies else 50)
