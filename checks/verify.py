"""AEAD verification: which digests are accepted, and what a failure looks like to the caller."""
from terms import sym, mk, icmp, Term, show
from absint import Engine, Ptr, State, AnalysisError, subst
import objs
import probe
import stream
from aead import TOP

NONE, FAIL = 0, 2


def pairs(st, eng, tag, given, n):
    out = []
    for i in range(n):
        a, b = mk("evb", 8, "D%d" % tag, i), mk("mem", 8, given.name, i)
        out.append((a, b))
    return out


def last_mac(st):
    H = st.user["objs"]
    f = [i for i in sorted(H) if H[i].kind == "poly1305" and H[i].final]
    return f[-1] if f else None


def judge(eng, st, accepted, given, n):
    """text when accepting / rejecting on this path contradicts the comparison of all 16 bytes."""
    if not isinstance(n, int) or n != 16:
        return "a digest of %s bytes is accepted" % show(n) if accepted else None
    t = last_mac(st)
    if t is None:
        return "nothing was digested"
    ps = pairs(st, eng, t, given, 16)
    if accepted:
        for i, (a, b) in enumerate(ps):
            if not st.poly.eq(a, b) and st.poly.truth(icmp("eq", 8, a, b)) != 1:
                return "a digest is accepted although byte %d was not compared" % i
        return None
    # rejected: impossible when every byte agrees
    for c, v in st.poly.facts.items():
        for a, b in ps:
            c = subst(c, a, b)
        c = simplify(c)
        if isinstance(c, int) and c != v:
            return None
    return "a digest with every byte right is rejected"


def simplify(t):
    """re-fold or / xor / eq after substitution."""
    from terms import xor, or_, and_, zext, trunc, not1
    if not isinstance(t, Term):
        return t
    if t.op in ("sym", "opaque", "addr", "mem", "evb", "lin", "cat"):
        return t
    a = [simplify(x) if isinstance(x, Term) else x for x in t.a]
    if t.op in ("xor", "or", "and"):
        f = {"xor": xor, "or": or_, "and": and_}[t.op]
        r = a[0]
        for y in a[1:]:
            r = f(t.w, r, y)
        return r
    if t.op == "icmp":
        w = next((x.w for x in t.a[1:] if isinstance(x, Term)), 64)
        return icmp(t.a[0], w, a[1], a[2])
    if t.op == "not":
        return not1(a[0])
    if t.op == "zext":
        return zext(t.w, a[0], t.a[0].w)
    if t.op == "trunc":
        return trunc(t.w, a[0], t.a[0].w)
    return t


def decide(st, v):
    """error code of the path as a number."""
    c = st.poly.pin(v) if isinstance(v, Term) else v
    if isinstance(c, Term):
        cond = icmp("eq", c.w, c, 0)
        t = st.poly.truth(cond)
        if t is None:
            raise stream.NeedSplit(cond)
        return NONE if t else FAIL if st.poly.eq(c, FAIL) else show(c)
    return c


def outcomes(eng, st, seq):
    """like probe.calls, but the last call may throw: (state, thrown object or None)."""
    for s in probe.calls(eng, st, seq[:-1]):
        f, a = seq[-1]
        for p in eng.start(f, a, s):
            if p.kind == "ret":
                yield p.state, p.val, None
            elif p.kind == "throw":
                yield p.state, None, p.val
            else:
                raise AnalysisError("%s: %s" % (f, p.kind))


def run(ctx):
    ctx.rule("verify and the decrypt functions report success exactly when the given digest has 16 bytes and every one "
             "equals the computed digest; every other digest yields aead_verify, as the error object or thrown")
    m = probe.load("aead.cpp")
    size = probe.const_global(m, "wrap_sizeof")
    sizes = list(range(0, 17)) + [sym("n_long", 64, 17, TOP)]
    if ctx.tier != "thorough":
        sizes = [0, 1, 8, 15, 16, sizes[-1]]
    for fn in ("wrap_verify", "wrap_verify_c", "wrap_verify_t", "wrap_verify_ct",
               "one_decrypt", "one_decrypt_c", "one_decrypt_t", "one_decrypt_ct"):
        for n in sizes:
            eng = Engine(m, objs.MODELS)
            key, iv = probe.arg("key", 32), probe.arg("iv", 12)
            given = probe.arg("given", n)
            err = probe.arg("error", 4)
            an, cn = (sym("an", 64, 0, TOP), sym("cn", 64, 0, TOP)) if ctx.tier == "thorough" else (5, 40)
            aad, ct, pt = probe.arg("aad", an), probe.arg("ct", cn), probe.arg("pt", cn)
            if fn.startswith("one"):
                seq = [(fn, [Ptr(key), 32, Ptr(iv), 12, Ptr(aad), an, Ptr(ct), cn, Ptr(given), n, Ptr(pt), Ptr(err)])]
            else:
                obj = probe.arg("object", size)
                seq = [("wrap_construct", [Ptr(obj), Ptr(key), 32, Ptr(iv), 12]), ("wrap_aad", [Ptr(obj), Ptr(aad), an]),
                       ("wrap_decrypt", [Ptr(obj), Ptr(ct), cn, Ptr(pt)]), (fn, [Ptr(obj), Ptr(given), n])]
            got = set()
            for s, val, exc in outcomes(eng, State(), seq):
                thrower = fn.endswith(("_t", "_ct"))

                def one(s):
                    if exc is not None:
                        if not thrower:
                            return "an exception leaves the function that reports through its error argument", None
                        v = eng.load_n(s, exc, 0, 4, None)
                    elif thrower:
                        return judge(eng, s, True, given, n), NONE
                    else:
                        v = eng.load_n(s, err, 0, 4, None) if fn.startswith("one") else val
                    c = decide(s, v)
                    if c not in (NONE, FAIL):
                        return "the reported code is %s" % c, c
                    if thrower and c == NONE:
                        return "an error object without an error is thrown", c
                    return judge(eng, s, c == NONE, given, n), c
                for q, (r, c) in stream.split_eval(eng, s, one):
                    if not q.poly.feasible():
                        continue
                    got.add(c)
                    ctx.count("verdicts_proved")
                    ctx.check(r is None, "verify:" + fn, "%s, digest of %s bytes: %s" % (fn, show(n), r))
            want = {NONE, FAIL} if n == 16 else {FAIL}
            ctx.check(got == want or (got - {NONE, FAIL}), "verify:" + fn,
                      "%s, digest of %s bytes: outcomes %s" % (fn, show(n), sorted(map(str, got))))
            ctx.engine(eng)
    ctx.expect("obligations", 80)
