"""Models shared by the protocol checks: opaque backends that only record."""
from terms import sym, add, sub, mul, mulc, mk, Term, show
from absint import Engine, Region, Ptr, State, Cell, AnalysisError, Outcomes, Throw
import build
import llvm


def load(src, flags=(), **kw):
    return llvm.load(build.bitcode(src, flags), passes="function(mem2reg)", **kw)


def const_global(m, name):
    g = m.globals.get(name)
    if g is None or g.init is None:
        raise AnalysisError("witness constant %s is missing" % name)
    return g.init.val


def havoc(eng, st, p, n, tag, loc=None, vol=False):
    """n bytes at p become the output of opaque call `tag`."""
    if isinstance(n, Term) or isinstance(p.off, Term):
        eng.write_range(st, p.r, p.off, n, ("ev", tag, 0), vol, loc)
        return
    m = st.wr(p.r)
    st.seq += 1
    for i in range(n):
        m.cells[p.off + i] = Cell(mk("evb", 8, tag, i), 1, 0, vol, st.seq, loc)


def arg(name, size=None, **meta):
    r = Region(name, size, "arg")
    if isinstance(size, Term):
        r.size = None
        meta["len"] = size
    if meta:
        r.meta = meta
    return r


def buf(name, n):
    """a caller's buffer of n bytes, with its size."""
    return arg(name, n), n


def within(st, r, off, n):
    """is [off, off+n) inside the region? None when nothing is known of its size."""
    size = r.size
    if size is None:
        size = r.meta.get("len") if r.meta else None
    if size is None:
        return None
    if not isinstance(off, Term) and not isinstance(n, Term) and not isinstance(size, Term):
        if off >> 63:
            return False
        return off + n <= size
    if not isinstance(n, Term) and n == 0:
        return True
    o, l, s = st.poly.math(off), st.poly.math(n), st.poly.math(size)
    if st.poly.entails(s - o - l):
        return True
    return st.poly.entails(-l)


def inside(st, off, n, size):
    """is [off, off+n) inside [0, size)?"""
    if not isinstance(off, Term) and not isinstance(n, Term):
        return n == 0 or not off >> 63 and off + n <= size
    o, l = st.poly.math(off), st.poly.math(n)
    return st.poly.entails(st.poly.math(size) - o - l) and st.poly.entails(o) or st.poly.entails(-l)


def watch(st):
    """record every access that is not shown to stay inside its object."""
    def acc(eng, s, kind, p, n, x):
        u = s.user
        u["nacc"] = u.get("nacc", 0) + 1
        if isinstance(p, Ptr):
            if within(s, p.r, p.off, n) is False:
                u["oob"] = u.get("oob", ()) + ((kind, p.r.name, show(p.off), show(n), locstr(x.loc)),)
            elif p.sub is not None and not inside(s, sub(64, p.off, p.sub[0]), n, p.sub[1]):
                u["oob"] = u.get("oob", ()) + ((kind, "the %d byte member at %s+%s" % (p.sub[1], p.r.name, show(p.sub[0])),
                                                show(sub(64, p.off, p.sub[0])), show(n), locstr(x.loc)),)
    st.user["on_access"] = acc
    st.user["oob"] = ()
    return st


class Sink:
    """collects the accesses of every path followed while installed (checks/bounds.py)."""
    def __init__(self):
        self.oob = set()
        self.accesses = self.paths = self.unsized = 0


def install(sink):
    """watch every path any engine follows from now on."""
    def begin(st):
        if "on_access" not in st.user:
            watch(st)

    def end(st):
        sink.paths += 1
        sink.accesses += st.user.get("nacc", 0)
        sink.oob.update(st.user.get("oob", ()))
        st.user["nacc"] = 0
        st.user["oob"] = ()
    Engine.on_begin, Engine.on_end = staticmethod(begin), staticmethod(end)


def oob(ctx, st, what):
    ctx.count("memory_accesses_bounded", st.user.get("nacc", 0))
    seen = st.user.get("oob", ())
    for o in sorted(set(seen)):
        ctx.bad("bounds:" + what, "%s: %s of %s bytes at %s+%s not within the object, at %s" % (
            what, o[0], o[3], o[1], o[2], o[4]))
    if not seen:
        ctx.ok("bounds:" + what)


def calls(eng, st, seq):
    """abstract effect of a sequence of calls; yields end states of normal return."""
    work = [(st, 0)]
    out = []
    while work:
        s, i = work.pop()
        if i == len(seq):
            out.append(s)
            continue
        f, a = seq[i]
        if callable(a):
            a = a(s)
        for p in eng.start(f, a, s):
            if p.kind != "ret":
                raise AnalysisError("%s does not return (%s)" % (f, p.kind))
            p.state.user["ret%d" % i] = p.val
            work.append((p.state, i + 1))
    return out


def locstr(loc):
    return " <- ".join("%s:%d" % (f.rsplit("/src/", 1)[-1], l) for f, l in loc[:3]) if loc else "?"
