"""Abstract interpreter over LLVM IR.

Domain: value numbers (terms.py) x memory as per-region write logs x a
polyhedron of linear inequalities over sizes.  Control flow is followed with
trace partitioning; a branch that the domain cannot decide is taken both ways
with the condition assumed.  Loops whose trip count is not decided are not
unrolled: one generic iteration is analysed and the loop is replaced by its
range effect (see Engine.summarise).  Calls to functions without a body are
recorded as events and interpreted by a model; a call without a model is an
analysis error, never a silent pass.
"""
from terms import (Term, mk, sym, fresh, add, sub, mulc, mul, neg, byte, cat, to_bytes, bswap, zext,
                   trunc, sext, xor, and_, or_, lshr, shl, udiv, urem, not1, icmp, Lin, Poly, show, sgn,
                   has_new, next_id, sizey)


class AnalysisError(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        Exception.__init__(self, "undecided: %s" % show(cond))
        self.cond = cond


class LoopUndecided(Exception):
    def __init__(self, header):
        self.header = header


class Limit(AnalysisError):
    """too many steps."""


FULL = 80


class OpaqueLoop(AnalysisError):
    """a loop of undecided trip count around recorded calls."""


class Region:
    _n = 0
    __slots__ = ("name", "size", "kind", "func", "glob", "uid", "meta", "zero")

    def __init__(self, name, size=None, kind="alloca", func=None, glob=None):
        Region._n += 1
        self.uid = Region._n
        self.name, self.size, self.kind, self.func, self.glob = name, size, kind, func, glob
        self.meta = None
        self.zero = False

    def __repr__(self):
        return self.name


class Ptr:
    """an address; sub is the (first, size) of the array member it was derived from, if known."""
    __slots__ = ("r", "off", "sub")

    def __init__(self, r, off=0, sub=None):
        self.r, self.off, self.sub = r, off, sub

    def __repr__(self):
        return "&%s%s" % (self.r.name, "" if self.off == 0 else "+" + show(self.off))


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class RMem:
    """contents of a region: constant-offset cells plus a log of symbolic writes."""
    __slots__ = ("cells", "log", "own")

    def __init__(self):
        self.cells = {}
        self.log = []
        self.own = None

    def copy(self):
        m = RMem()
        m.cells = dict(self.cells)
        m.log = list(self.log)
        return m


class Cell:
    __slots__ = ("val", "n", "i", "vol", "seq", "loc")

    def __init__(self, val, n, i, vol, seq, loc):
        self.val, self.n, self.i, self.vol, self.seq, self.loc = val, n, i, vol, seq, loc


class LogW:
    """symbolic write of bytes [off, off+len)."""
    __slots__ = ("seq", "off", "len", "content", "vol", "loc")

    def __init__(self, seq, off, ln, content, vol, loc):
        self.seq, self.off, self.len, self.content, self.vol, self.loc = seq, off, ln, content, vol, loc

    def __repr__(self):
        return "W[%s,+%s)=%r" % (show(self.off), show(self.len), self.content)


class Event:
    __slots__ = ("kind", "name", "args", "loc", "ret", "mem", "id", "depth", "extra", "stack")

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(_sh, self.args)))


def _sh(a):
    return show(a) if isinstance(a, (int, Term)) else repr(a)


class Frame:
    __slots__ = ("func", "block", "prev", "idx", "env", "call", "allocas", "snap", "inside")

    def clone(self):
        f = Frame()
        f.func, f.block, f.prev, f.idx, f.call = self.func, self.block, self.prev, self.idx, self.call
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.snap = dict(self.snap)
        f.inside = self.inside
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.poly = Poly()
        self.trace = []
        self.seq = 0
        self.steps = 0
        self.user = {}
        self.exc = None
        self.dead = {}        # region name -> RMem at death of alloca

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        for m in self.mem.values():
            m.own = None
        s.mem = dict(self.mem)
        s.poly = self.poly.clone()
        s.trace = list(self.trace)
        s.seq, s.steps = self.seq, self.steps
        s.user = dict(self.user)
        s.exc = self.exc
        s.dead = dict(self.dead)
        return s

    # memory ----------------------------------------------------------------
    def rd(self, r):
        m = self.mem.get(r)
        if m is None:
            m = RMem()
            self.mem[r] = m
        return m

    def wr(self, r):
        m = self.mem.get(r)
        if m is None:
            m = RMem()
            m.own = self
            self.mem[r] = m
        elif m.own is not self:
            m = m.copy()
            m.own = self
            self.mem[r] = m
        return m

    def freeze(self, r):
        m = self.rd(r)
        m.own = None
        return m


class Path:
    __slots__ = ("state", "kind", "val", "loc")

    def __init__(self, state, kind, val=None, loc=None):
        self.state, self.kind, self.val, self.loc = state, kind, val, loc

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, _sh(self.val) if self.val is not None else "", self.state.trace)


def natural_loops(f):
    """header block -> set of blocks, from back edges to dominators."""
    blocks = f.blocks
    n = len(blocks)
    succ = [[s.index for s in b.succs()] for b in blocks]
    pred = [[] for _ in range(n)]
    for i, ss in enumerate(succ):
        for s in ss:
            pred[s].append(i)
    order, seen = [], set()
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for i in order:
        for s in succ[i]:
            if s in num and dom(s, i):
                body = loops.setdefault(s, {s})
                w = [i]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(p for p in pred[x] if p in num)
    return {blocks[h]: {blocks[b] for b in body} for h, body in loops.items()}


class Engine:
    on_decide = None            # told of every branch and choice on a value not known
    startup = False             # nothing has run yet: variables hold their initial values
    on_begin = on_end = None

    def __init__(self, module, models=None, max_steps=3000000, max_paths=4000, summarise=True,
                 on_unknown=None, unroll=None):
        self.m = module
        self.models = dict(DEFAULT_MODELS)
        if models:
            self.models.update(models)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.summ = summarise
        self.unroll = unroll
        self.unrolled = set()
        self.strict = {}
        self.loops = {}
        self.gregions = {}
        self.fregions = {}
        self.on_unknown = on_unknown
        self.stats = {"instrs": 0, "paths": 0, "forks": 0, "loops": 0, "calls": 0, "funcs": set()}
        self.regcount = 0

    # regions -----------------------------------------------------------------
    def global_region(self, g):
        r = self.gregions.get(g.name)
        if r is None:
            r = Region("@" + g.name, g.size, "global", glob=g)
            self.gregions[g.name] = r
        return r

    def func_region(self, f):
        r = self.fregions.get(f.name)
        if r is None:
            r = Region("@" + f.name, 0, "func", func=f)
            self.fregions[f.name] = r
        return r

    # values ------------------------------------------------------------------
    def val(self, fr, v):
        k = v.kind
        if k == "inst":
            return fr.env[v.id]
        if k == "const":
            return v.val
        if k == "arg":
            return fr.env[("a", v.index)]
        if k == "null":
            return 0
        if k == "zero":
            return self.zero(v.ty)
        if k == "undef":
            if v.ty.kind in ("struct", "array", "vector"):
                return [UNDEF for _ in range(len(v.ty.elems) if v.ty.kind == "struct" else v.ty.count)]
            return UNDEF
        if k == "global":
            return Ptr(self.global_region(v), 0)
        if k == "func":
            return Ptr(self.func_region(v), 0)
        if k == "cexpr":
            return self.cexpr(fr, v)
        if k == "agg":
            return [self.val(fr, e) for e in v.elems]
        if k == "metadata":
            return None
        return mk("opaque", v.ty.bits or 64, k)

    def zero(self, ty):
        if ty.kind == "struct":
            return [self.zero(e) for e in ty.elems]
        if ty.kind in ("array", "vector"):
            return [self.zero(ty.elems[0]) for _ in range(ty.count)]
        return 0

    def cexpr(self, fr, v):
        ops = [self.val(fr, o) for o in v.ops]
        if v.op == "getelementptr":
            off = v.extra[0]
            p = ops[0]
            return Ptr(p.r, add(64, p.off, off), p.sub) if isinstance(p, Ptr) else add(64, p, off)
        if v.op == "ptrtoint":
            return self.ptrtoint(ops[0])
        if v.op in ("inttoptr", "bitcast", "addrspacecast"):
            return self.inttoptr(ops[0]) if v.op == "inttoptr" else ops[0]
        if v.op in BINOPS:
            return BINOPS[v.op](v.ty.bits, ops[0], ops[1])
        if v.op == "icmp":
            return self.icmp(v.pred, v.ops[0].ty, ops[0], ops[1])
        return mk("opaque", v.ty.bits or 64, "cexpr-" + v.op)

    def ptrtoint(self, p):
        if isinstance(p, Ptr):
            return add(64, mk("addr", 64, p.r.name), p.off)
        return p

    def inttoptr(self, t):
        return t

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh("undefcmp", 1)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is b.r:
                    return icmp(pred, 64, a.off, b.off)
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                a, b = self.ptrtoint(a), self.ptrtoint(b)
                return icmp(pred, 64, a, b)
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if o == 0 and pred in ("eq", "ne"):
                if p.r.meta and p.r.meta.get("maybe_null"):
                    c = mk("isnull", 1, p.r.name)
                    return c if pred == "eq" else not1(c)
                return int(pred == "ne")
            return mk("icmp", 1, pred, self.ptrtoint(p), o if isinstance(o, (int, Term)) else 0)
        if isinstance(a, list) or isinstance(b, list):
            return fresh("veccmp", 1)
        return icmp(pred, ty.bits or 64, a, b)

    # entry ---------------------------------------------------------------------
    def start(self, fname, args, state=None):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise AnalysisError("no function %s" % fname)
        st = state or State()
        if self.on_begin:
            self.on_begin(st)
        self.push(st, f, args, None)
        return self.run([st])

    def push(self, st, f, args, call):
        fr = Frame()
        fr.func, fr.block, fr.prev, fr.idx, fr.call = f, f.blocks[0], None, 0, call
        fr.env = {("a", i): a for i, a in enumerate(args)}
        fr.allocas = []
        fr.snap = {}
        fr.inside = frozenset()
        st.frames.append(fr)
        self.stats["funcs"].add(f.name)
        if len(st.frames) > 200:
            raise AnalysisError("recursion in %s" % f.name)

    def run(self, work, limit=None):
        done = []
        while work:
            st = work.pop()
            while True:
                r = self.step(st)
                if r is None:
                    continue
                if isinstance(r, Path):
                    done.append(r)
                    if self.on_end:
                        self.on_end(r.state)
                    self.stats["paths"] += 1
                    if len(done) > self.max_paths:
                        raise AnalysisError("too many paths")
                    break
                # list of states
                work.extend(r)
                self.stats["forks"] += 1
                break
        return done

    def fork(self, st, cond):
        """two states with cond assumed 1 / 0, infeasible ones dropped."""
        out = []
        a = st.clone()
        if a.poly.assume(cond, 1) and a.poly.feasible():
            out.append((1, a))
        b = st.clone()
        if b.poly.assume(cond, 0) and b.poly.feasible():
            out.append((0, b))
        return out

    # one block segment -----------------------------------------------------------
    def step(self, st):
        """run until the current path ends or forks."""
        fr = st.frames[-1]
        while True:
            ins = fr.block.instrs[fr.idx]
            st.steps += 1
            self.stats["instrs"] += 1
            if st.steps > self.max_steps:
                raise Limit("step limit in %s" % fr.func.name)
            try:
                r = self.exec(st, fr, ins)
            except NeedSplit as e:
                out = self.fork(st, e.cond)
                return [s for _, s in out]
            except LoopUndecided as e:
                return self.enter_summary(st, e.header)
            except KeyError as e:
                raise AnalysisError("value missing %r at %s in %s" % (e, ins.loc, fr.func.name))
            if r is None:
                fr.idx += 1
                continue
            if r == "jump":
                fr = st.frames[-1]
                continue
            return r

    def jump(self, st, fr, target):
        prev = fr.block
        loops = self.loops.get(fr.func)
        if loops is None:
            loops = self.loops[fr.func] = natural_loops(fr.func)
        # phis read the old environment
        vals = []
        i = 0
        for ins in target.instrs:
            if ins.op != "phi":
                break
            vals.append((ins.id, self.val(fr, ins.phi[prev])))
            i += 1
        if loops:
            # forget snapshots of loops we left
            if fr.snap:
                for h in [h for h in fr.snap if target not in loops[h]]:
                    del fr.snap[h]
            if target in self.unrolled and prev not in loops[target]:
                st.user = dict(st.user)
                st.user.pop(("it", len(st.frames), target), None)
            elif target in loops and prev not in loops[target] and self.summ:
                fr.snap[target] = (st.clone(), prev)
        for k, v in vals:
            fr.env[k] = v
        fr.prev, fr.block, fr.idx = prev, target, i

    def branch(self, st, fr, cond, t, f):
        if self.on_decide and isinstance(cond, Term):
            self.on_decide(st, "branch", cond, fr.block.instrs[-1])
        if cond is UNDEF:
            cond = fresh("undefbr", 1)
        r = st.poly.truth(cond)
        if r is not None:
            self.jump(st, fr, t if r else f)
            return "jump"
        # an exit test of an enclosing, not yet summarised loop?
        loops = self.loops.get(fr.func)
        if self.summ and fr.snap and loops:
            inner = None
            for h in fr.snap:
                if fr.block in loops[h] and ((t in loops[h]) != (f in loops[h])):
                    if inner is None or loops[h] < loops[inner]:
                        inner = h
            if inner is not None:
                raise LoopUndecided(inner)
        if self.unrolled and loops:
            for h in loops:
                if h in self.unrolled and fr.block in loops[h] and ((t in loops[h]) != (f in loops[h])):
                    k = ("it", len(st.frames), h)
                    st.user[k] = st.user.get(k, 0) + 1
                    if h in self.strict and st.user[k] > FULL:
                        raise AnalysisError(self.strict[h])
                    if h not in self.strict and st.user[k] > self.unroll:
                        # only the leaving path is followed
                        self.stats["bounded"] = self.stats.get("bounded", 0) + 1
                        out = []
                        for v, s in self.fork(st, cond):
                            if (t if v else f) not in loops[h]:
                                self.jump(s, s.frames[-1], t if v else f)
                                out.append(s)
                        return out
        if not self.summ and loops:
            lim = st.user.get("unroll_limit")
            if lim is not None:
                k = ("it", fr.func.name, fr.block.index)
                st.user[k] = st.user.get(k, 0) + 1
                if st.user[k] > lim:
                    raise AnalysisError("loop not bounded in %s" % fr.func.name)
        out = []
        for v, s in self.fork(st, cond):
            g = s.frames[-1]
            self.jump(s, g, t if v else f)
            out.append(s)
        return out

    # instructions --------------------------------------------------------------
    def exec(self, st, fr, x):
        op = x.op
        self.cur = st
        if op in BINOPS:
            a, b = self.val(fr, x.ops[0]), self.val(fr, x.ops[1])
            fr.env[x.id] = self.bin(op, x.ty, a, b)
            return None
        if op == "call" or op == "invoke":
            return self.call(st, fr, x)
        if op == "load":
            fr.env[x.id] = self.load(st, self.val(fr, x.ops[0]), x.ty, x)
            return None
        if op == "store":
            self.store(st, self.val(fr, x.ops[1]), self.val(fr, x.ops[0]), x.ops[0].ty, x)
            return None
        if op == "getelementptr":
            off, var, member = x.gep
            p = self.val(fr, x.ops[0])
            o = off
            first = member[1] if member else None
            for k, (v, s) in enumerate(var):
                i = self.val(fr, v)
                if i is UNDEF:
                    i = fresh("undefidx", 64)
                w = v.ty.bits
                if w < 64:
                    i = sext(64, i, w)
                o = add(64, o, mulc(64, i, s))
                if member and k < member[0]:
                    first = add(64, first, mulc(64, i, s))
            if isinstance(p, Ptr):
                fr.env[x.id] = Ptr(p.r, add(64, p.off, o), (add(64, p.off, first), member[2]) if member else p.sub)
            elif p is UNDEF:
                fr.env[x.id] = UNDEF
            else:
                fr.env[x.id] = add(64, p, o)
            return None
        if op == "br":
            if not x.ops:
                self.jump(st, fr, x.succ[0])
                return "jump"
            return self.branch(st, fr, self.val(fr, x.ops[0]), x.succ[0], x.succ[1])
        if op == "icmp":
            fr.env[x.id] = self.icmp(x.pred, x.ops[0].ty, self.val(fr, x.ops[0]), self.val(fr, x.ops[1]))
            return None
        if op == "zext" or op == "sext" or op == "trunc":
            a = self.val(fr, x.ops[0])
            if a is UNDEF:
                fr.env[x.id] = UNDEF
            elif isinstance(a, list):
                fr.env[x.id] = [CASTS[op](x.ty.elems[0].bits, v, x.ops[0].ty.elems[0].bits) for v in a]
            else:
                fr.env[x.id] = CASTS[op](x.ty.bits, a, x.ops[0].ty.bits)
            return None
        if op == "select":
            c = self.val(fr, x.ops[0])
            if c is UNDEF:
                c = fresh("undefsel", 1)
            if isinstance(c, list):
                raise AnalysisError("vector select")
            if self.on_decide and isinstance(c, Term):
                self.on_decide(st, "choice", c, x)
            r = st.poly.truth(c)
            a, b = self.val(fr, x.ops[1]), self.val(fr, x.ops[2])
            if r is None:
                if x.ty.kind == "int" and x.ty.bits == 1:
                    fr.env[x.id] = or_(1, and_(1, c, a), and_(1, not1(c), b))
                    return None
                if st.user.get("data_select") and st.user["data_select"](c):
                    fr.env[x.id] = mk("ite", x.ty.bits, c, a, b)
                    return None
                raise NeedSplit(c)
            fr.env[x.id] = a if r else b
            return None
        if op == "ret":
            v = self.val(fr, x.ops[0]) if x.ops else None
            return self.ret(st, fr, v, x)
        if op == "alloca":
            self.regcount += 1
            r = Region("%s.%%%d#%d" % (fr.func.name[:60], x.id, self.regcount), x.asize, "alloca")
            r.meta = {"loc": x.loc, "ty": x.aty, "func": fr.func.name}
            fr.allocas.append(r)
            fr.env[x.id] = Ptr(r, 0)
            return None
        if op in ("bitcast", "freeze", "addrspacecast"):
            v = self.val(fr, x.ops[0])
            fr.env[x.id] = v
            return None
        if op == "ptrtoint":
            fr.env[x.id] = self.ptrtoint(self.val(fr, x.ops[0]))
            return None
        if op == "inttoptr":
            fr.env[x.id] = self.inttoptr(self.val(fr, x.ops[0]))
            return None
        if op == "extractvalue":
            v = self.val(fr, x.ops[0])
            for i in x.indices:
                v = v[i]
            fr.env[x.id] = v
            return None
        if op == "insertvalue":
            fr.env[x.id] = _ins(self.val(fr, x.ops[0]), x.indices, self.val(fr, x.ops[1]))
            return None
        if op == "switch":
            v = self.val(fr, x.ops[0])
            if v is UNDEF:
                v = fresh("undefsw", x.ops[0].ty.bits)
            if self.on_decide and isinstance(v, Term):
                self.on_decide(st, "branch", v, x)
            w = x.ops[0].ty.bits
            out = []
            rest = st
            for k, t in x.cases:
                c = icmp("eq", w, v, k)
                r = rest.poly.truth(c)
                if r == 1:
                    self.jump(rest, rest.frames[-1], t)
                    out.append(rest)
                    return out if len(out) > 1 else "jump" if rest is st else out
                if r == 0:
                    continue
                a = rest.clone()
                if a.poly.assume(c, 1) and a.poly.feasible():
                    self.jump(a, a.frames[-1], t)
                    out.append(a)
                rest = rest.clone()
                if not (rest.poly.assume(c, 0) and rest.poly.feasible()):
                    return out
            self.jump(rest, rest.frames[-1], x.succ[0])
            if rest is st:
                return "jump"
            out.append(rest)
            return out
        if op == "unreachable":
            return Path(st, "unreachable", loc=x.loc)
        if op == "landingpad":
            fr.env[x.id] = [Ptr(st.exc) if isinstance(st.exc, Region) else fresh("exc", 64), fresh("selector", 32)]
            return None
        if op == "resume":
            return self.unwind(st, x)
        if op == "extractelement":
            v, i = self.val(fr, x.ops[0]), self.val(fr, x.ops[1])
            fr.env[x.id] = v[i] if isinstance(i, int) else fresh("vecelt", x.ty.bits or 64)
            return None
        if op == "insertelement":
            v, e, i = (self.val(fr, o) for o in x.ops)
            if not isinstance(i, int):
                raise AnalysisError("variable insertelement")
            v = list(v)
            v[i] = e
            fr.env[x.id] = v
            return None
        if op == "shufflevector":
            a, b = self.val(fr, x.ops[0]), self.val(fr, x.ops[1])
            n = len(a)
            fr.env[x.id] = [UNDEF if i < 0 else (a[i] if i < n else b[i - n]) for i in x.indices]
            return None
        if op == "fence":
            return None
        raise AnalysisError("instruction %s in %s" % (op, fr.func.name))

    def bin(self, op, ty, a, b):
        if isinstance(a, list) or isinstance(b, list):
            e = ty.elems[0]
            return [self.bin(op, e, p, q) for p, q in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF if op != "and" else (0 if a == 0 or b == 0 else UNDEF)
        if isinstance(a, Ptr):
            a = self.ptrtoint(a)
        if isinstance(b, Ptr):
            b = self.ptrtoint(b)
        if op in ("shl", "add", "sub", "mul", "lshr"):
            for t in (a, b):
                if isinstance(t, Term) and t.op == "zext" and t.a[0].w == 1 and (op == "shl" or sizey(t.a[0])):
                    c = t.a[0]
                    r = self.cur.poly.truth(c)
                    if r is None:
                        raise NeedSplit(c)
                    if t is a:
                        a = r
                    if t is b:
                        b = r
        return BINOPS[op](ty.bits, a, b)

    def ret(self, st, fr, v, x):
        st.frames.pop()
        self.kill(st, fr)
        if not st.frames:
            return Path(st, "ret", v, x.loc)
        up = st.frames[-1]
        c = fr.call
        if c is None:
            return Path(st, "ret", v, x.loc)
        if c.ty.kind != "void":
            up.env[c.id] = v
        if c.op == "invoke":
            self.jump(st, up, c.succ[0])
        else:
            up.idx += 1
        return "jump"

    def kill(self, st, fr):
        for r in fr.allocas:
            m = st.mem.get(r)
            if m is not None:
                m.own = None
                st.dead[r] = m
                del st.mem[r]

    def unwind(self, st, x):
        """propagate an exception out of the current frame."""
        while st.frames:
            fr = st.frames[-1]
            st.frames.pop()
            self.kill(st, fr)
            if not st.frames or fr.call is None:
                return Path(st, "throw", st.exc, x.loc)
            c = fr.call
            up = st.frames[-1]
            if c.op == "invoke":
                self.jump(st, up, c.succ[1])
                return "jump"
            if up.func.nounwind and False:
                return Path(st, "terminate", None, x.loc)
        return Path(st, "throw", st.exc, x.loc)

    def throw(self, st, fr, x, exc):
        """exception raised by the call instruction x itself."""
        st.exc = exc
        if x.op == "invoke":
            self.jump(st, fr, x.succ[1])
            return "jump"
        return self.unwind(st, x)

    # calls -----------------------------------------------------------------------
    def call(self, st, fr, x):
        self.stats["calls"] += 1
        cal = x.callee
        if cal.kind == "asm":
            f = None
            name = "asm"
        elif cal.kind == "func":
            f = cal
            name = f.name
        else:
            p = self.val(fr, cal)
            if isinstance(p, Ptr) and p.r.kind == "func":
                f = p.r.func
                name = f.name
            else:
                f = None
                name = "indirect"
        if f is not None and f.intrinsic:
            if name.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.annotation", "llvm.var.annotation")):
                return None
            base = name
            h = None
            while base:
                h = INTRINSICS.get(base)
                if h is not None or "." not in base:
                    break
                base = base.rsplit(".", 1)[0]
            if h is None:
                raise AnalysisError("intrinsic %s" % name)
            args = [self.val(fr, o) for o in x.ops]
            return self.finish(st, fr, x, h(self, st, x, args))
        args = [self.val(fr, o) for o in x.ops]
        h = self.models.get(name)
        if h is None and f is not None:
            for pre, hh in PREFIX_MODELS:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None and f is not None and not f.decl:
            self.push(st, f, args, x)
            return "jump"
        if h is None:
            if self.on_unknown is not None:
                return self.finish(st, fr, x, self.on_unknown(self, st, x, name, args))
            raise AnalysisError("call to unmodelled %s at %s" % (name, x.loc[:1]))
        return self.finish(st, fr, x, h(self, st, x, args))

    def finish(self, st, fr, x, r):
        """r: value | Throw | list of (state, value|Throw)."""
        if isinstance(r, Outcomes):
            out = []
            for s, v in r.items:
                g = s.frames[-1]
                y = self.finish(s, g, x, v)
                if isinstance(y, Path):
                    raise AnalysisError("path end inside outcomes")
                if y is None:
                    g.idx += 1
                out.append(s)
            return out
        if isinstance(r, Throw):
            y = self.throw(st, fr, x, r.exc)
            if isinstance(y, Path) and r.many:
                return [EndState(y)]
            return y
        if isinstance(r, Path):
            return r
        if x.ty.kind != "void":
            fr.env[x.id] = r
        if x.op == "invoke":
            self.jump(st, fr, x.succ[0])
            return "jump"
        return None

    def event(self, st, kind, name, args, loc, **kw):
        e = Event()
        e.kind, e.name, e.args, e.loc = kind, name, args, loc
        e.ret = kw.get("ret")
        e.mem = kw.get("mem")
        e.extra = kw.get("extra")
        e.id = len(st.trace)
        e.depth = len(st.frames)
        e.stack = tuple(f.func.name for f in st.frames)
        st.trace.append(e)
        return e

    # memory --------------------------------------------------------------------
    def initial(self, st, r, off, n, loc=None):
        """value of never written bytes [off, off+n) at constant offset."""
        if r.kind == "global":
            v = self.ginit(r.glob, off, n)
            if v is not None:
                return v
        if r.zero:
            return 0
        if r.kind == "alloca":
            return UNDEF
        if r.meta and "init" in r.meta:
            v = r.meta["init"](off, n)
            if v is not None:
                return v
        return cat([mk("mem", 8, r.name, off + i) for i in range(n)])

    def ginit(self, g, off, n):
        if g.init is None or not (g.const or self.startup):
            return None
        bs = []
        for i in range(n):
            b = _constbyte(g.init, g.vty, off + i, self)
            if b is None:
                if i == 0:
                    return _constptr(self, g.init, g.vty, off, n)
                return None
            bs.append(b)
        return cat(bs)

    def region_of(self, st, p, x):
        if not isinstance(p, Ptr):
            raise AnalysisError("access through unknown pointer %s at %s in %s" % (_sh(p), x.loc[:1], st.frames[-1].func.name))
        return p.r

    def load(self, st, p, ty, x):
        if ty.kind in ("struct", "array", "vector"):
            if ty.kind == "struct":
                return [self.load(st, _padd(p, o), e, x) for o, e in zip(ty.offsets, ty.elems)]
            e = ty.elems[0]
            return [self.load(st, _padd(p, i * e.size), e, x) for i in range(ty.count)]
        r = self.region_of(st, p, x)
        n = max(1, (ty.bits + 7) // 8)
        st.user.get("on_access") and st.user["on_access"](self, st, "load", p, n, x)
        v = self.load_n(st, r, p.off, n, x)
        if ty.kind == "ptr":
            return v
        if isinstance(v, Ptr):
            v = self.ptrtoint(v)
        if ty.bits % 8 and v is not UNDEF:
            v = trunc(ty.bits, v, 8 * n)
        return v

    def load_n(self, st, r, off, n, x):
        m = st.rd(r)
        if isinstance(off, Term):
            off = st.poly.pin(off)
        if isinstance(off, Term):
            v = self.table_load(st, r, off, n)
            if v is not None:
                return v
            return self.load_sym(st, m, r, off, n)
        return self.load_const(st, m, r, off, n)

    def table_load(self, st, r, off, n):
        if r.kind == "global" and r.glob.const:
            return mk("table", 8 * n, r.name, off)
        return None

    def load_const(self, st, m, r, off, n):
        log = m.log
        if not log:
            c = m.cells.get(off)
            if c is not None and c.n == n and c.i == 0:
                for i in range(1, n):
                    d = m.cells.get(off + i)
                    if d is None or d.seq != c.seq or d.i != i:
                        break
                else:
                    return c.val
            if c is None and n > 1 and not any((off + i) in m.cells for i in range(1, n)):
                return self.initial(st, r, off, n)
            bs = []
            for i in range(n):
                c = m.cells.get(off + i)
                if c is None:
                    v = self.initial(st, r, off + i, 1)
                else:
                    v = c.val
                    if isinstance(v, Ptr):
                        v = self.ptrtoint(v)
                    if v is not UNDEF:
                        v = byte(v, c.i if not self.m.big_endian else c.n - 1 - c.i)
                if v is UNDEF:
                    return UNDEF
                bs.append(v)
            if self.m.big_endian:
                bs.reverse()
            return cat(bs)
        # resolve against the symbolic log, byte-wise pieces
        return self.load_sym(st, m, r, off, n)

    def load_sym(self, st, m, r, off, n):
        pieces = resolve(self, st, r, m, off, add(64, off, n))
        if n == 8 and len(pieces) == 1:
            d = pieces[0][2]
            if d[0] == "cells" and not isinstance(d[2], Term):
                c = d[1].cells.get(d[2])
                if c is not None and isinstance(c.val, Ptr) and c.n == 8 and c.i == 0:
                    return c.val
            if d[0] == "val" and isinstance(d[1], Ptr) and not isinstance(d[2], Term) and d[2] == 0:
                return d[1]
        bs = []
        for lo, hi, d in pieces:
            k = sub(64, hi, lo)
            if isinstance(k, Term):
                # length must be pinned down
                for v in range(0, n + 1):
                    if st.poly.truth(icmp("eq", 64, k, v)) == 1:
                        k = v
                        break
                else:
                    raise NeedSplit(icmp("eq", 64, k, n))
            for i in range(k):
                bs.append(piece_byte(self, st, d, sub(64, add(64, lo, i), lo), add(64, lo, i)))
        if len(bs) != n:
            raise AnalysisError("load resolution")
        if any(b is UNDEF for b in bs):
            return UNDEF
        if self.m.big_endian:
            bs.reverse()
        return cat(bs)

    def store(self, st, p, v, ty, x):
        if isinstance(v, list):
            if ty.kind == "struct":
                for o, e, w in zip(ty.offsets, ty.elems, v):
                    self.store(st, _padd(p, o), w, e, x)
            else:
                e = ty.elems[0]
                for i, w in enumerate(v):
                    self.store(st, _padd(p, i * e.size), w, e, x)
            return
        r = self.region_of(st, p, x)
        n = max(1, (ty.bits + 7) // 8)
        if ty.bits % 8 and isinstance(v, Term):
            v = zext(8 * n, v, ty.bits)
        st.user.get("on_access") and st.user["on_access"](self, st, "store", p, n, x)
        self.store_n(st, r, p.off, n, v, bool(x.volatile) if x.op == "store" else False, x.loc)

    def store_n(self, st, r, off, n, v, vol, loc):
        m = st.wr(r)
        st.seq += 1
        if isinstance(off, Term):
            off = st.poly.pin(off)
        if isinstance(off, Term):
            m.log.append(LogW(st.seq, off, n, ("val", v, n), vol, loc))
            return
        s = st.seq
        cells = m.cells
        for i in range(n):
            cells[off + i] = Cell(v, n, i, vol, s, loc)

    def write_range(self, st, r, off, ln, content, vol, loc):
        if not isinstance(ln, Term) and ln == 0:
            return
        m = st.wr(r)
        st.seq += 1
        m.log.append(LogW(st.seq, off, ln, content, vol, loc))

    def memset(self, st, p, v, ln, vol, x):
        if isinstance(ln, Term):
            ln = st.poly.pin(ln)
        r = self.region_of(st, p, x)
        st.user.get("on_access") and st.user["on_access"](self, st, "store", p, ln, x)
        if isinstance(v, Term) and v.w > 8:
            v = byte(v, 0)
        elif isinstance(v, int):
            v &= 255
        if not isinstance(ln, Term) and not isinstance(p.off, Term):
            m = st.wr(r)
            st.seq += 1
            for i in range(ln):
                m.cells[p.off + i] = Cell(v, 1, 0, vol, st.seq, x.loc)
            return
        self.write_range(st, r, p.off, ln, ("byte", v), vol, x.loc)

    def memcpy(self, st, d, s, ln, x, vol=False):
        if isinstance(ln, Term):
            ln = st.poly.pin(ln)
        if not isinstance(ln, Term) and ln == 0:
            return
        if isinstance(ln, Term) and not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            # a null pointer goes with length zero only
            z = st.poly.truth(icmp("eq", 64, ln, 0))
            if z == 1:
                return
        st.user.get("on_access") and st.user["on_access"](self, st, "load", s, ln, x)
        st.user.get("on_access") and st.user["on_access"](self, st, "store", d, ln, x)
        rd, rs = self.region_of(st, d, x), self.region_of(st, s, x)
        if not isinstance(ln, Term) and not isinstance(d.off, Term) and not isinstance(s.off, Term):
            ms = st.rd(rs)
            if not ms.log:
                new = []
                st.seq += 1
                i = 0
                while i < ln:
                    c = ms.cells.get(s.off + i)
                    if c is None:
                        j = i
                        if rs.kind == "alloca":
                            new.append((i, UNDEF, 1, 0))
                        else:
                            v = self.initial(st, rs, s.off + i, 1)
                            if v is None or (rs.kind == "global" and not isinstance(v, int)):
                                w = self.initial(st, rs, s.off + i, 8) if ln - i >= 8 else v
                                if isinstance(w, Ptr):
                                    for j in range(8):
                                        new.append((i + j, w, 8, j))
                                    i += 8
                                    continue
                            new.append((i, v, 1, 0))
                    else:
                        new.append((i, c.val, c.n, c.i))
                    i += 1
                m = st.wr(rd)
                seqmap = {}
                for i, v, n, k in new:
                    # bytes of one source word keep one sequence number
                    key = (i - k, n)
                    if key not in seqmap:
                        st.seq += 1
                        seqmap[key] = st.seq
                    m.cells[d.off + i] = Cell(v, n, k, vol, seqmap[key], x.loc)
                return
        if rd is rs and d.off is s.off:
            return
        self.write_range(st, rd, d.off, ln, ("copy", rs, s.off, st.freeze(rs)), vol, x.loc)

    # loops -----------------------------------------------------------------------
    def summarise(self, st, header):
        """replace a loop of undecided trip count by its range effect."""
        fr = st.frames[-1]
        snap, pred = fr.snap[header]
        depth = len(st.frames)
        self.stats["loops"] += 1
        base = snap.clone()
        bf = base.frames[-1]
        loop = self.loops[bf.func][header]
        phis = [i for i in header.instrs if i.op == "phi"]
        init = {p.id: self.val(bf, p.phi[pred]) for p in phis}
        handler = base.user.get("loop_handler")
        if handler is not None:
            r = handler(self, base, bf, header, loop, init, pred)
            if r is not None:
                return r
        # guess affine steps by running one iteration with generic counter
        mark = next_id()
        k = fresh("k", 64, 0, (1 << 61) - 1)
        step = {}
        acc = {}
        for attempt in range(3):
            trial = base.clone()
            tf = trial.frames[-1]
            for p in phis:
                i0 = init[p.id]
                s = step.get(p.id, 0)
                if p.id in acc:
                    tf.env[p.id] = acc[p.id]
                elif isinstance(i0, Ptr):
                    tf.env[p.id] = Ptr(i0.r, add(64, i0.off, mulc(64, k, s)), i0.sub)
                elif isinstance(i0, (int, Term)):
                    w = p.ty.bits
                    kk = trunc(w, k, 64) if w < 64 else k
                    tf.env[p.id] = add(w, i0, mulc(w, kk, s))
                else:
                    raise AnalysisError("loop carried value in %s" % bf.func.name)
            tf.prev, tf.block = pred, header
            tf.idx = len(phis)
            tf.snap = {h: v for h, v in tf.snap.items() if h is not header}
            for r in list(trial.mem):
                trial.mem[r].own = None
            m0 = dict(trial.mem)
            t0 = len(trial.trace)
            res = self.iterate(trial, header, loop, depth, mark)
            conts, exits = res
            if len(conts) != 1:
                if any(len(q.trace) != t0 for q in conts + exits):
                    raise OpaqueLoop("opaque call inside summarised loop in %s" % bf.func.name)
                raise AnalysisError("loop in %s (%s): %d continuing, %d leaving paths" % (
                    bf.func.name, header.instrs[-1].loc[:1], len(conts), len(exits)))
            c = conts[0]
            cf = c.frames[-1]
            new = cf.env["__latch__"]
            ok = True
            for p in phis:
                got = new[p.id]
                cur = tf_env(trial, p, base, init, step, k, acc)
                if p.id in acc:
                    continue
                if isinstance(got, Ptr) and isinstance(cur, Ptr) and got.r is cur.r:
                    d = sub(64, got.off, cur.off)
                elif isinstance(got, (int, Term)) and isinstance(cur, (int, Term)):
                    d = sub(p.ty.bits, got, cur)
                else:
                    d = None
                if d is None or isinstance(d, Term):
                    w = p.ty.bits or 64
                    acc[p.id] = fresh("acc", w)
                    ok = False
                elif sgn(d, p.ty.bits or 64) != step.get(p.id, 0):
                    step[p.id] = sgn(d, p.ty.bits or 64)
                    ok = False
            if ok:
                break
        else:
            raise AnalysisError("loop in %s is not affine" % bf.func.name)
        if not exits:
            raise AnalysisError("loop in %s never ends" % bf.func.name)
        if len(c.trace) != t0:
            raise OpaqueLoop("opaque call inside summarised loop in %s" % bf.func.name)
        oob = [o for q in conts + exits for o in q.user.get("oob", ()) if o not in base.user.get("oob", ())]
        nacc = max([q.user.get("nacc", 0) for q in conts + exits])
        # trip count: the conjunction of continue conditions must bound k from above
        conds = c.user.get("__conds__", [])
        n = self.trip(base, conds, k, init, step)
        if n is None:
            raise AnalysisError("trip count of loop in %s at %s: %s" % (
                bf.func.name, header.instrs[-1].loc[:1], conds))
        # memory effect of a generic iteration
        effects = []
        for r, m in c.mem.items():
            old = m0.get(r)
            if old is m:
                continue
            ol = len(old.log) if old is not None else 0
            oc = old.cells if old is not None else {}
            if [a for a, b in zip(m.log[:ol], old.log if old else []) if a is not b]:
                raise AnalysisError("log rewritten in loop")
            for o, cc in m.cells.items():
                if oc.get(o) is not cc:
                    effects.append((r, o, 1, ("val", byte(cc.val, cc.i) if not isinstance(cc.val, (Ptr, Undef)) else cc.val, 1), cc.vol, cc.loc))
            for w in m.log[ol:]:
                effects.append((r, w.off, w.len, w.content, w.vol, w.loc))
        out = base
        of = out.frames[-1]
        for r, off, ln, content, vol, loc in effects:
            c0, mm = (0, {}) if not isinstance(off, Term) else (off.a if off.op == "lin" else (0, ((off, 1),)))
            mm = dict(mm)
            ck = mm.pop(k, 0)
            if isinstance(ln, Term) or ck == 0 or sgn(ck, 64) not in (ln, -ln):
                if ck == 0 and not isinstance(ln, Term) and _kfree(content, k):
                    # same bytes every time: written when the loop runs at all
                    out.poly.math(n)
                    tz = out.poly.truth(icmp("ult", 64, 0, n))
                    if tz == 1:
                        self.write_range(out, r, off, ln, content, vol, loc)
                        continue
                    if tz == 0:
                        continue
                raise AnalysisError("loop store is not a contiguous range in %s" % bf.func.name)
            st0 = subst_k(off, k, 0) if sgn(ck, 64) > 0 else subst_k(off, k, sub(64, n, 1))
            total = mulc(64, n, ln)
            if content[0] == "val" and isinstance(content[1], int) and not isinstance(ln, Term) and \
                    content[1] == (content[1] & 255) * (((1 << 8 * ln) - 1) // 255):
                cont = ("byte", content[1] & 255)
            else:
                cont = ("map", content, k, ln, sgn(ck, 64))
            self.write_range(out, r, st0, total, cont, vol, loc)
        # dependence: generic iteration must not read what earlier iterations wrote
        for (rr, ro, rn) in c.user.get("__reads__", []):
            for r, off, ln, content, vol, loc in effects:
                if r is rr and not _same_off(ro, off):
                    if not disjoint_all(base.poly, ro, rn, off, ln, k, n):
                        raise AnalysisError("loop carried memory dependence in %s" % bf.func.name)
        # leave the loop: values after n iterations
        for p in phis:
            i0 = init[p.id]
            if p.id in acc:
                op = new[p.id]
                of.env[p.id] = mk("fold", p.ty.bits or 64, op if isinstance(op, Term) else 0, acc[p.id],
                                  i0 if isinstance(i0, (int, Term)) else 0, k, n)
            elif isinstance(i0, Ptr):
                of.env[p.id] = Ptr(i0.r, add(64, i0.off, mulc(64, n, step.get(p.id, 0))), i0.sub)
            else:
                w = p.ty.bits
                of.env[p.id] = add(w, i0, mulc(w, trunc(w, n, 64) if w < 64 else n, step.get(p.id, 0)))
        of.prev, of.block, of.idx = pred, header, len(phis)
        of.snap = {h: v for h, v in of.snap.items() if h is not header}
        out.user = dict(out.user)
        if "nacc" in out.user:
            out.user["oob"] = out.user["oob"] + tuple(oob)
            out.user["nacc"] = max(out.user["nacc"], nacc)
        out.user["__force_exit__"] = (depth, header, frozenset(loop))
        return self.leave(out, header, loop, depth)

    def enter_summary(self, st, header):
        snap = st.frames[-1].snap[header]
        try:
            return self.summarise(st, header)
        except NeedSplit as e:
            return self.reenter(st, header, e.cond)
        except (OpaqueLoop, AnalysisError) as e:
            if not isinstance(e, OpaqueLoop) or self.unroll is None:
                # no closed form: iteration by iteration, if that ends
                if header in self.strict or isinstance(e, Limit):
                    raise
                self.strict[header] = str(e)
            # partitioned by the number of iterations instead, up to the bound
            self.unrolled.add(header)
            snap, pred = st.frames[-1].snap[header]
            s = snap.clone()
            self.jump(s, s.frames[-1], header)
            return [s]

    def reenter(self, st, header, cond):
        """fork the state at the loop entry on cond and enter the loop again."""
        snap, pred = st.frames[-1].snap[header]
        n = snap.user.get("__reenter__", 0) + 1
        if n > 60:
            raise AnalysisError("loop keeps splitting on %s" % show(cond))
        out = []
        for _, s in self.fork(snap, cond):
            s.user = dict(s.user)
            s.user["__reenter__"] = n
            f = s.frames[-1]
            assert f.block is pred
            self.jump(s, f, header)
            out.append(s)
        return out

    def iterate(self, st, header, loop, depth, mark):
        """run one generic iteration; returns (states back at header, states that left)."""
        st.user["__conds__"] = []
        st.user["__reads__"] = []
        prev_acc = st.user.get("on_access")

        def rec(eng, s, kind, p, n, x, prev_acc=prev_acc):
            if prev_acc:
                prev_acc(eng, s, kind, p, n, x)
            if kind == "load" and isinstance(p, Ptr):
                s.user["__reads__"] = s.user["__reads__"] + [(p.r, p.off, n)]
        st.user["on_access"] = rec
        conts, exits = [], []
        work = [st]
        while work:
            s = work.pop()
            while True:
                fr = s.frames[-1]
                if len(s.frames) < depth:
                    exits.append(s)
                    break
                ins = fr.block.instrs[fr.idx]
                s.steps += 1
                if s.steps > self.max_steps:
                    raise Limit("step limit")
                if len(s.frames) == depth and ins.op == "br":
                    tgt = None
                    if not ins.ops:
                        tgt = [(None, s, ins.succ[0])]
                    else:
                        cnd = self.val(fr, ins.ops[0])
                        t = s.poly.truth(cnd)
                        if t is not None and cnd.__class__ is int:
                            tgt = [(None, s, ins.succ[0] if t else ins.succ[1])]
                        elif t is not None and (ins.succ[0] in loop) == (ins.succ[1] in loop):
                            tgt = [(None, s, ins.succ[0] if t else ins.succ[1])]
                        else:
                            ex = (ins.succ[0] in loop) != (ins.succ[1] in loop)
                            if not ex and not has_new(cnd, mark):
                                raise NeedSplit(cnd)
                            tgt = []
                            for v, q in self.fork(s, cnd):
                                if ex:
                                    q.user["__conds__"] = q.user["__conds__"] + [(cnd, v)]
                                tgt.append((v, q, ins.succ[0] if v else ins.succ[1]))
                    brk = False
                    nxt = []
                    for v, q, b in tgt:
                        if b is header:
                            qf = q.frames[-1]
                            qf.env["__latch__"] = {i.id: self.val(qf, i.phi[qf.block])
                                                   for i in header.instrs if i.op == "phi"}
                            conts.append(q)
                        elif b not in loop:
                            exits.append(q)
                        else:
                            self.jump(q, q.frames[-1], b)
                            nxt.append(q)
                    if not nxt:
                        break
                    s = nxt[0]
                    work.extend(nxt[1:])
                    continue
                try:
                    r = self.exec(s, fr, ins)
                except NeedSplit as e:
                    if not has_new(e.cond, mark):
                        raise
                    work.extend(q for _, q in self.fork(s, e.cond))
                    break
                except LoopUndecided as e:
                    try:
                        work.extend(self.summarise(s, e.header))
                    except NeedSplit as e2:
                        if not has_new(e2.cond, mark):
                            raise
                        work.extend(self.reenter(s, e.header, e2.cond))
                    break
                if r is None:
                    fr.idx += 1
                    continue
                if r == "jump":
                    continue
                if isinstance(r, Path):
                    exits.append(s)
                    break
                work.extend(r)
                break
        return conts, exits

    def trip(self, base, conds, k, init, step):
        """number of iterations from the conditions under which the loop goes on."""
        if len(conds) != 1:
            return None
        c, v = conds[0]
        while isinstance(c, Term) and c.op == "not":
            c, v = c.a[0], v ^ 1
        if not isinstance(c, Term) or c.op != "icmp":
            return None
        p, a, b = c.a

        def split(t):
            if not isinstance(t, Term):
                return 0, t
            if t is k:
                return 1, 0
            if t.op == "lin":
                m = dict(t.a[1])
                ck = m.pop(k, 0)
                from terms import _unlin
                return sgn(ck, t.w), _unlin(t.a[0], m, t.w)
            return 0, t
        ka, ra = split(a)
        kb, rb = split(b)
        w = a.w if isinstance(a, Term) else b.w
        if p == "eq" and v == 0:
            # goes on while a != b
            if ka and kb:
                return None
            s, r0, bound = (ka, ra, rb) if ka else (kb, rb, ra)
            if s == 1:
                return sub(w, bound, r0) if base.poly.ge(bound, r0) else None
            if s == -1:
                return sub(w, r0, bound) if base.poly.ge(r0, bound) else None
            return None
        if p == "ult" and v == 1 and ka == 1 and kb == 0:
            # ra + k < rb
            if base.poly.ge(rb, ra):
                return sub(w, rb, ra)
            t = base.poly.truth(icmp("ult", w, ra, rb))
            if t == 0:
                return 0
            raise NeedSplit(icmp("ult", w, ra, rb))
        if p == "ult" and v == 0 and ka == 0 and kb == 1:
            # not (ra < rb + k)  ->  ra >= rb + k : ra - rb + 1 iterations
            if base.poly.ge(ra, rb):
                return add(w, sub(w, ra, rb), 1)
            return None
        if p == "ult" and v == 1 and ka == 0 and kb == -1:
            # ra < rb - k : rb - ra iterations
            if base.poly.ge(rb, ra):
                return sub(w, rb, ra)
            return None
        if p == "ult" and v == 1 and kb == 0 and ka > 1:
            return None
        return None

    def leave(self, st, header, loop, depth):
        """after the last iteration: walk from the header to the exit."""
        work = [st]
        out = []
        guard = 0
        while work:
            s = work.pop()
            while True:
                guard += 1
                if guard > 100000:
                    raise AnalysisError("loop exit not reached")
                fr = s.frames[-1]
                if len(s.frames) == depth and fr.block not in loop:
                    u = dict(s.user)
                    u.pop("__force_exit__", None)
                    s.user = u
                    out.append(s)
                    break
                ins = fr.block.instrs[fr.idx]
                if len(s.frames) == depth and ins.op == "br" and ins.ops and \
                        (ins.succ[0] in loop) != (ins.succ[1] in loop):
                    cnd = self.val(fr, ins.ops[0])
                    want = 0 if ins.succ[0] in loop else 1
                    if not s.poly.assume(cnd, want):
                        raise AnalysisError("loop exit contradicts trip count in %s" % fr.func.name)
                    self.jump(s, fr, ins.succ[1] if ins.succ[0] in loop else ins.succ[0])
                    continue
                try:
                    r = self.exec(s, fr, ins)
                except NeedSplit as e:
                    work.extend(q for _, q in self.fork(s, e.cond))
                    break
                if r is None:
                    fr.idx += 1
                    continue
                if r == "jump":
                    if fr.block is header and fr.idx == 0:
                        raise AnalysisError("loop exit")
                    continue
                if isinstance(r, Path):
                    raise AnalysisError("return inside loop")
                work.extend(r)
                break
        return out


def tf_env(trial, p, base, init, step, k, acc):
    i0 = init[p.id]
    s = step.get(p.id, 0)
    if p.id in acc:
        return acc[p.id]
    if isinstance(i0, Ptr):
        return Ptr(i0.r, add(64, i0.off, mulc(64, k, s)), i0.sub)
    w = p.ty.bits
    kk = trunc(w, k, 64) if w < 64 else k
    return add(w, i0, mulc(w, kk, s))


def subst_k(t, k, v):
    from terms import _unlin
    if not isinstance(t, Term):
        return t
    if t is k:
        return v
    if t.op == "lin":
        m = dict(t.a[1])
        c = m.pop(k, 0)
        return add(t.w, _unlin(t.a[0], m, t.w), mulc(t.w, v, c))
    return t


def subst(t, k, v):
    """replace the atom k by v everywhere inside t."""
    if not isinstance(t, Term):
        return t
    if t is k:
        return v
    op, w = t.op, t.w
    if op == "lin":
        r = t.a[0]
        for x, c in t.a[1]:
            r = add(w, r, mulc(w, subst(x, k, v), c))
        return r
    if op == "cat":
        return cat([subst(b, k, v) for b in t.a[0]])
    if op in ("sym", "opaque", "addr"):
        return t
    a = [subst(x, k, v) if isinstance(x, Term) else x for x in t.a]
    if all(x is y for x, y in zip(a, t.a)):
        return t
    if op == "xor":
        r = a[0]
        for y in a[1:]:
            r = xor(w, r, y)
        return r
    if op == "zext":
        return zext(w, a[0], t.a[0].w)
    if op == "trunc":
        return trunc(w, a[0], t.a[0].w)
    if op == "byte":
        return byte(a[0], a[1])
    return mk(op, w, *a)


def _kfree(content, k):
    def f(t):
        if isinstance(t, Term):
            if t is k:
                return False
            if t.op == "lin":
                return all(f(x) for x, _ in t.a[1])
            if t.op == "cat":
                return all(f(x) for x in t.a[0])
            return all(f(x) for x in t.a if isinstance(x, Term))
        return True
    return all(f(x) for x in content if isinstance(x, Term))


def _same_off(a, b):
    return a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b)


def disjoint_all(poly, ro, rn, off, ln, k, n):
    """bytes read at ro (generic k) never meet bytes written by another iteration."""
    p = poly.clone()
    j = fresh("j", 64, 0, (1 << 61) - 1)
    p.add(p.math(n) - p.math(k) + (-1))
    p.add(p.math(n) - p.math(j) + (-1))
    wo = subst_k(off, k, j)
    if isinstance(rn, Term) or isinstance(ln, Term):
        return False
    a = p.math(ro)
    b = p.math(wo)
    return p.entails(a - b + (-ln)) or p.entails(b - a + (-rn))


class Throw:
    def __init__(self, exc=None, many=False):
        self.exc = exc
        self.many = many


class Outcomes:
    def __init__(self, items):
        self.items = items


def _padd(p, o):
    return Ptr(p.r, add(64, p.off, o), p.sub) if isinstance(p, Ptr) else add(64, p, o)


def _ins(v, idx, e):
    v = list(v) if isinstance(v, list) else [UNDEF] * (idx[0] + 1)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = _ins(v[idx[0]], idx[1:], e)
    return v


def _constbyte(c, ty, off, eng):
    if c.kind in ("zero", "null"):
        return 0
    if c.kind == "undef":
        return 0
    if ty.kind == "struct":
        for i in range(len(ty.elems) - 1, -1, -1):
            if off >= ty.offsets[i]:
                if off - ty.offsets[i] >= ty.elems[i].size:
                    return 0
                return _constbyte(c.elems[i], ty.elems[i], off - ty.offsets[i], eng)
        return 0
    if ty.kind in ("array", "vector"):
        e = ty.elems[0]
        i = off // e.size
        if i < 0 or i >= ty.count:
            return None
        return _constbyte(c.elems[i], e, off % e.size, eng)
    if c.kind == "const":
        i = off if not eng.m.big_endian else ty.size - 1 - off
        return (c.val >> (8 * i)) & 255
    return None


def _constptr(eng, c, ty, off, n):
    if ty.kind == "struct":
        for i in range(len(ty.elems) - 1, -1, -1):
            if off >= ty.offsets[i]:
                return _constptr(eng, c.elems[i], ty.elems[i], off - ty.offsets[i], n)
    if ty.kind in ("array", "vector") and c.kind == "agg":
        e = ty.elems[0]
        return _constptr(eng, c.elems[off // e.size], e, off % e.size, n)
    if c.kind in ("func", "global", "cexpr") and off == 0 and n == 8:
        return eng.val(None, c)
    return None


# ranges --------------------------------------------------------------------

def _lt(st, a, b):
    """a < b decided, or NeedSplit."""
    if a is b:
        return False
    c = icmp("ult", 64, a, b)
    r = st.poly.truth(c)
    if r is None:
        raise NeedSplit(c)
    return bool(r)


def resolve(eng, st, r, m, lo, hi, depth=0, clip=None):
    """contents of [lo, hi) of region r in memory version m, as ordered pieces
    (lo, hi, descriptor); raises NeedSplit when the polyhedron cannot order
    the ranges involved."""
    writes = [(w.seq, w.off, add(64, w.off, w.len), ("w", w)) for w in m.log]
    const = not isinstance(lo, Term) and not isinstance(hi, Term)
    runs = []
    if m.cells:
        if const:
            ks = [o for o in range(lo, hi) if o in m.cells]
        else:
            l, h = st.poly._interval(st.poly.math(lo))[0], st.poly._interval(st.poly.math(hi))[1]
            ks = sorted(o for o in m.cells if l <= o < h)
        i = 0
        while i < len(ks):
            j = i
            s = m.cells[ks[i]].seq
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1 and m.cells[ks[j + 1]].seq == s:
                j += 1
            runs.append((s, ks[i], ks[j] + 1, ("cells", m, ks[i])))
            i = j + 1
    # merge neighbouring runs when no log entry lies between their sequence numbers
    runs.sort(key=lambda t: t[1])
    logseq = [w.seq for w in m.log]
    merged = []
    for s, a, b, d in runs:
        if merged:
            s0, a0, b0, d0 = merged[-1]
            if b0 == a and not any(min(s0, s) < q < max(s0, s) for q in logseq):
                merged[-1] = (max(s0, s), a0, b, d0)
                continue
        merged.append((s, a, b, d))
    writes += merged
    writes.sort(key=lambda t: -t[0])
    out = []

    def cover(a, b, i):
        if not _lt(st, a, b):
            return
        while i < len(writes):
            s, wl, wh, d = writes[i]
            i += 1
            if not _lt(st, wl, b):
                continue
            if not _lt(st, a, wh):
                continue
            if not _lt(st, wl, wh):
                continue
            if _lt(st, a, wl):
                cover(a, wl, i)
                a2 = wl
            else:
                a2 = a
            if _lt(st, wh, b):
                emit(a2, wh, d, wl)
                cover(wh, b, i)
            else:
                emit(a2, b, d, wl)
            return
        out.append((a, b, ("init", r, a)))

    def emit(a, b, d, wl):
        if d[0] == "cells":
            out.append((a, b, ("cells", d[1], a)))
            return
        w = d[1]
        rel = sub(64, a, w.off)
        c = w.content
        if c[0] == "copy":
            so = add(64, c[2], rel)
            for x, y, e in resolve(eng, st, c[1], c[3], so, add(64, so, sub(64, b, a)), depth + 1):
                o = sub(64, x, so)
                out.append((add(64, a, o), add(64, a, sub(64, y, so)), e))
        elif c[0] == "byte":
            out.append((a, b, ("byte", c[1])))
        elif c[0] == "val":
            out.append((a, b, ("val", c[1], rel, c[2])))
        elif c[0] == "map":
            out.append((a, b, ("map", c, rel, w)))
        elif c[0] == "ev":
            out.append((a, b, ("ev", c[1], add(64, c[2] if len(c) > 2 else 0, rel))))
        else:
            out.append((a, b, (c[0],) + tuple(c[1:]) + (rel,)))
    cover(lo, hi, 0)
    out.sort(key=lambda p: 0)
    return _order(st, out)


def _order(st, out):
    # cover() emits left part, then middle, then right: already ordered per call
    import functools

    def cmp(p, q):
        if p is q:
            return 0
        return -1 if _lt(st, p[0], q[0]) else 1
    if len(out) <= 1:
        return out
    return sorted(out, key=functools.cmp_to_key(cmp))


def piece_byte(eng, st, d, i, pos):
    """the byte at relative index i of a piece whose first byte is described by d."""
    k = d[0]
    if k == "init":
        r, o = d[1], add(64, d[2], i)
        if not isinstance(o, Term):
            return eng.initial(st, r, o, 1)
        if r.kind == "alloca":
            return UNDEF
        if r.zero:
            return 0
        return mk("mem", 8, r.name, o)
    if k == "byte":
        return d[1]
    if k == "val":
        o = add(64, d[2], i)
        v = d[1]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Ptr):
            v = eng.ptrtoint(v)
        if isinstance(o, Term):
            for c in range(d[3] - 1):
                t = st.poly.truth(icmp("eq", 64, o, c))
                if t is None:
                    raise NeedSplit(icmp("eq", 64, o, c))
                if t == 1:
                    o = c
                    break
            else:
                o = d[3] - 1
        return byte(v, o if not eng.m.big_endian else d[3] - 1 - o)
    if k == "cells":
        m, o = d[1], add(64, d[2], i)
        if isinstance(o, Term):
            for c in sorted(m.cells):
                t = st.poly.truth(icmp("eq", 64, o, c))
                if t == 1:
                    o = c
                    break
                if t is None:
                    raise NeedSplit(icmp("eq", 64, o, c))
            else:
                raise AnalysisError("cell at symbolic offset")
        c = m.cells[o]
        v = c.val
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Ptr):
            v = eng.ptrtoint(v)
        return byte(v, c.i if not eng.m.big_endian else c.n - 1 - c.i)
    if k == "map":
        c, rel, w = d[1], d[2], d[3]
        content, kk, ln, direction = c[1], c[2], c[3], c[4]
        o = add(64, rel, i)
        if ln == 1:
            it = o if direction > 0 else sub(64, sub(64, w.len, 1), o)
            if content[0] == "val":
                return subst(content[1], kk, it)
        raise AnalysisError("map piece")
    if k == "ev":
        return mk("evb", 8, d[1], add(64, d[2], i))
    return mk("evb", 8, k, add(64, d[-1], i) if isinstance(d[-1], (int, Term)) else i)


# operators -------------------------------------------------------------------

def _ashr(w, a, k):
    if not isinstance(k, Term) and not isinstance(a, Term):
        return (sgn(a, w) >> min(k, w - 1)) & ((1 << w) - 1)
    return mk("ashr", w, a, k)


def _sdiv(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return mk("sdiv", w, a, b)


def _srem(w, a, b):
    if not isinstance(a, Term) and not isinstance(b, Term) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) % abs(y)
        return (q if x >= 0 else -q) & ((1 << w) - 1)
    return mk("srem", w, a, b)


BINOPS = {"add": add, "sub": sub, "mul": mul, "and": and_, "or": or_, "xor": xor, "shl": shl,
          "lshr": lshr, "ashr": _ashr, "udiv": udiv, "urem": urem, "sdiv": _sdiv, "srem": _srem}
for _n in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    BINOPS[_n] = lambda w, a, b, _n=_n: mk(_n, w, a, b)
CASTS = {"zext": zext, "sext": sext, "trunc": trunc}


def _i_memcpy(eng, st, x, a):
    eng.memcpy(st, a[0], a[1], a[2], x, bool(a[3] == 1) if len(a) > 3 else False)


def _i_memset(eng, st, x, a):
    eng.memset(st, a[0], a[1], a[2], bool(a[3] == 1) if len(a) > 3 else False, x)


def _minmax(pred):
    def f(eng, st, x, a):
        w = x.ty.bits
        c = icmp(pred, w, a[0], a[1])
        r = st.poly.truth(c)
        if r is None:
            raise NeedSplit(c)
        return a[0] if r else a[1]
    return f


def _i_fshl(eng, st, x, a):
    w = x.ty.bits
    if not isinstance(a[2], Term):
        k = a[2] % w
        if k == 0:
            return a[0]
        if not isinstance(a[0], Term) and not isinstance(a[1], Term):
            return ((a[0] << k) | (a[1] >> (w - k))) & ((1 << w) - 1)
        if a[0] is a[1]:
            return mk("rotl", w, a[0], k)
    return mk("fshl", w, *a)


def _i_fshr(eng, st, x, a):
    w = x.ty.bits
    if not isinstance(a[2], Term) and a[0] is a[1] and isinstance(a[0], Term):
        return mk("rotl", w, a[0], (w - a[2]) % w)
    return mk("fshr", w, *a)


def _ovf(op):
    def f(eng, st, x, a):
        w = x.ty.elems[0].bits
        v = BINOPS[op](w, a[0], a[1])
        if not isinstance(a[0], Term) and not isinstance(a[1], Term):
            full = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[op]
            return [v, int(full < 0 or full >> w != 0)]
        return [v, mk("ovf" + op, 1, a[0], a[1])]
    return f


INTRINSICS = {
    "llvm.memcpy": _i_memcpy, "llvm.memmove": _i_memcpy, "llvm.memset": _i_memset,
    "llvm.memcpy.inline": _i_memcpy,
    "llvm.umin": _minmax("ule"), "llvm.umax": _minmax("uge"),
    "llvm.smin": _minmax("sle"), "llvm.smax": _minmax("sge"),
    "llvm.bswap": lambda e, s, x, a: bswap(x.ty.bits, a[0]),
    "llvm.fshl": _i_fshl, "llvm.fshr": _i_fshr,
    "llvm.expect": lambda e, s, x, a: a[0],
    "llvm.is.constant": lambda e, s, x, a: 0,
    "llvm.launder.invariant.group": lambda e, s, x, a: a[0],
    "llvm.strip.invariant.group": lambda e, s, x, a: a[0],
    "llvm.trap": lambda e, s, x, a: Path(s, "terminate", "trap", x.loc),
    "llvm.eh.typeid.for": lambda e, s, x, a: mk("typeid", 32, repr(a[0])),
    "llvm.uadd.with.overflow": _ovf("add"), "llvm.usub.with.overflow": _ovf("sub"),
    "llvm.umul.with.overflow": _ovf("mul"),
    "llvm.ctpop": lambda e, s, x, a: bin(a[0]).count("1") if isinstance(a[0], int) else mk("ctpop", x.ty.bits, a[0]),
    "llvm.stacksave": lambda e, s, x, a: 0, "llvm.stackrestore": lambda e, s, x, a: None,
    "llvm.objectsize": lambda e, s, x, a: (1 << 64) - 1,
    "llvm.prefetch": lambda e, s, x, a: None,
}


def _terminate(eng, st, x, a):
    return Path(st, "terminate", None, x.loc)


def _new(eng, st, x, a):
    eng.regcount += 1
    r = Region("heap#%d" % eng.regcount, a[0] if isinstance(a[0], int) else None, "alloca")
    r.meta = {"heap": True, "loc": x.loc, "len": a[0]}
    eng.event(st, "new", "new", [a[0]], x.loc)
    return Ptr(r, 0)


def _delete(eng, st, x, a):
    eng.event(st, "delete", "delete", [a[0]], x.loc)


def _cxa_alloc(eng, st, x, a):
    eng.regcount += 1
    return Ptr(Region("exc#%d" % eng.regcount, a[0], "alloca"), 0)


def _cxa_throw(eng, st, x, a):
    ty = a[1].r.name if isinstance(a[1], Ptr) else "?"
    eng.event(st, "throw", "throw", [ty, a[0]], x.loc)
    return Throw(a[0].r if isinstance(a[0], Ptr) else None)


def _asm(eng, st, x, a):
    c = x.callee.constraints
    if "~{memory}" in c and not x.callee.text.strip():
        commit(st, a)
        return fresh("asm", x.ty.bits or 64) if x.ty.kind != "void" else None
    if not x.callee.text.strip():
        # a value barrier: output equals the tied input
        if x.ty.kind in ("int", "ptr") and a:
            return a[0]
        return None
    raise AnalysisError("inline asm %r" % x.callee.text)


def commit(st, args):
    """a compiler barrier given a pointer makes the stores done to that memory unremovable."""
    st.seq += 1
    for r in {p.r for p in args if isinstance(p, Ptr)}:
        m = st.wr(r)
        if st.user.get("track"):
            st.user["track"](st, "B", r, 0, 1 << 62)
        m.cells = {o: (c if c.vol else Cell(c.val, c.n, c.i, True, c.seq, c.loc)) for o, c in m.cells.items()}
        m.log = [w if w.vol else LogW(w.seq, w.off, w.len, w.content, True, w.loc) for w in m.log]


def _memset_vol(eng, st, x, a):
    if x.callee.name == "memset_s":
        eng.memset(st, a[0], a[2], a[3], True, x)
    elif x.callee.name == "__explicit_bzero_chk":
        eng.memset(st, a[0], 0, a[1], True, x)
    else:
        eng.memset(st, a[0], 0, a[1], True, x)
    return 0


def _c_memcpy(eng, st, x, a):
    eng.memcpy(st, a[0], a[1], a[2], x)
    return a[0]


def _c_memset(eng, st, x, a):
    eng.memset(st, a[0], a[1], a[2], False, x)
    return a[0]


def _c_memcmp(eng, st, x, a):
    """zero exactly when the bytes are the same; which way they differ is not followed."""
    n = a[2]
    if isinstance(n, Term):
        n = st.poly.pin(n)
    if isinstance(n, Term):
        if eng.on_decide:
            eng.on_decide(st, "branch", mk("evb", 8, "memcmp", 0), x)
        raise AnalysisError("memcmp of a symbolic size at %s" % (x.loc[:1],))
    d = 0
    for i in range(n):
        v = xor(8, *[eng.load_n(st, eng.region_of(st, p, x), _off(p, i), 1, x) for p in a[:2]])
        if eng.on_decide and isinstance(v, Term):
            eng.on_decide(st, "branch", v, x)
        d = or_(8, d, v)
    return zext(32, d, 8)


def _off(p, i):
    return add(64, p.off, i)


DEFAULT_MODELS = {
    "memcmp": _c_memcmp, "bcmp": _c_memcmp,
    "asm": _asm,
    "memcpy": _c_memcpy, "memmove": _c_memcpy, "memset": _c_memset,
    "__memcpy_chk": _c_memcpy, "__memmove_chk": _c_memcpy, "__memset_chk": _c_memset,
    "explicit_bzero": _memset_vol, "__explicit_bzero_chk": _memset_vol, "memset_s": _memset_vol,
    "memset_explicit": _memset_vol,
    "_Znwm": _new, "_Znam": _new, "_ZdlPv": _delete, "_ZdlPvm": _delete, "_ZdaPv": _delete, "_ZdaPvm": _delete,
    "__clang_call_terminate": _terminate, "_ZSt9terminatev": _terminate, "abort": _terminate,
    "__cxa_allocate_exception": _cxa_alloc, "__cxa_throw": _cxa_throw,
    "__cxa_free_exception": lambda e, s, x, a: None,
    "__cxa_begin_catch": lambda e, s, x, a: a[0], "__cxa_end_catch": lambda e, s, x, a: None,
    "__cxa_rethrow": lambda e, s, x, a: Throw(s.exc),
    "_ZSt21__glibcxx_assert_failPKciS0_S0_": _terminate, "__assert_fail": _terminate,
}
PREFIX_MODELS = []
