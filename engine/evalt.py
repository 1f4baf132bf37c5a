"""Tables of terms over bytes: the value of a term for every valuation of the few bytes it mentions."""
from terms import Term, show
from absint import AnalysisError


def leaves(t, out=None, seen=None):
    """the unknown bytes a term mentions."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    work = [t]
    while work:
        t = work.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op in ("mem", "evb", "sym"):
            out[t] = 1
        elif t.op == "lin":
            work += [x for x, _ in t.a[1]]
        elif t.op == "cat":
            work += list(t.a[0])
        elif t.op in ("opaque", "addr", "table", "fold"):
            raise AnalysisError("a value outside the table language: %s" % show(t))
        else:
            work += [x for x in t.a if isinstance(x, Term)]
    return list(out)


def compile_fn(t, vs):
    """term -> python function of the bytes vs."""
    names = {v: "v%d" % i for i, v in enumerate(vs)}
    lines = []
    memo = {}

    def s(x, w):
        return "(((%s) ^ %d) - %d)" % (x, 1 << (w - 1), 1 << (w - 1))

    def g(t):
        if not isinstance(t, Term):
            return str(t)
        if t in names:
            return names[t]
        if t in memo:
            return memo[t]
        o, w, a = t.op, t.w, t.a
        m = (1 << w) - 1
        if o == "lin":
            e = " + ".join(["%d" % a[0]] + ["%d * %s" % (k, g(x)) for x, k in a[1]])
            e = "(%s) & %d" % (e, m)
        elif o == "cat":
            e = " | ".join("(%s) << %d" % (g(b), 8 * i) for i, b in enumerate(a[0]))
        elif o in ("xor", "or", "and"):
            e = {"xor": " ^ ", "or": " | ", "and": " & "}[o].join("(%s)" % g(x) for x in a)
        elif o == "zext":
            e = g(a[0])
        elif o == "trunc":
            e = "(%s) & %d" % (g(a[0]), m)
        elif o == "sext":
            e = "%s & %d" % (s(g(a[0]), a[0].w), m)
        elif o == "byte":
            e = "(%s >> %d) & 255" % (g(a[0]), 8 * a[1])
        elif o == "not":
            e = "(%s) ^ %d" % (g(a[0]), m)
        elif o == "urem":
            e = "(%s) %% (%s)" % (g(a[0]), g(a[1]))
        elif o == "udiv":
            e = "(%s) // (%s)" % (g(a[0]), g(a[1]))
        elif o == "mul":
            e = "((%s) * (%s)) & %d" % (g(a[0]), g(a[1]), m)
        elif o == "shl":
            e = "(((%s) << (%s)) & %d)" % (g(a[0]), g(a[1]), m)
        elif o == "lshr":
            e = "((%s) >> (%s))" % (g(a[0]), g(a[1]))
        elif o == "ashr":
            e = "(%s >> (%s)) & %d" % (s(g(a[0]), w), g(a[1]), m)
        elif o == "ite":
            e = "(%s) if (%s) else (%s)" % (g(a[1]), g(a[0]), g(a[2]))
        elif o == "icmp":
            p, x, y = a
            iw = x.w if isinstance(x, Term) else y.w
            gx, gy = g(x), g(y)
            if p[0] == "s":
                gx, gy = s(gx, iw), s(gy, iw)
            e = "int((%s) %s (%s))" % (gx, {"eq": "==", "ult": "<", "slt": "<"}[p], gy)
        else:
            raise AnalysisError("a value outside the table language: %s" % o)
        n = "t%d" % len(memo)
        lines.append("    %s = %s" % (n, e))
        memo[t] = n
        return n
    r = g(t)
    src = "def f(%s):\n%s\n    return %s\n" % (", ".join(names[v] for v in vs), "\n".join(lines), r)
    env = {}
    exec(compile(src, "<term>", "exec"), env)
    return env["f"]


_cache = {}


def shape(t, vs):
    """term with its bytes renamed by position, so that equal functions share a table."""
    key = []

    def g(t, memo):
        if not isinstance(t, Term):
            return t
        if t in memo:
            return ("#", memo[t])
        if t in vs:
            r = ("v", vs.index(t))
        elif t.op == "lin":
            r = ("lin", t.w, t.a[0], tuple(sorted(((g(x, memo), k) for x, k in t.a[1]), key=repr)))
        elif t.op == "cat":
            r = ("cat", tuple(g(x, memo) for x in t.a[0]))
        else:
            r = (t.op, t.w) + tuple(sorted((g(x, memo) if isinstance(x, Term) else x for x in t.a), key=repr)
                                    if t.op in ("xor", "and", "or") else
                                    (g(x, memo) if isinstance(x, Term) else x for x in t.a))
        return r
    return g(t, {})


def table(t, vs, doms=None):
    """values of t over all valuations of vs (each within its domain), as {tuple: value}."""
    import itertools
    f = compile_fn(t, vs)
    doms = doms or [range(256)] * len(vs)
    n = 1
    for d in doms:
        n *= len(d)
    if n > 1 << 18:
        raise AnalysisError("table too large")
    return {p: f(*p) for p in itertools.product(*doms)}
