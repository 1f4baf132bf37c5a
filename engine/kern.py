"""Block functions: what one iteration of their loop over blocks does, as canonical values (engine/canon.py).

The control flow of these functions depends only on public sizes. Everything bounded by constants is followed; a loop
over a symbolic number of blocks is cut at its test and generalised: a value is kept, advances by a constant each
iteration, or becomes an unknown of its own, until one iteration from the generalised state gives the generalised
state again (induct). The result is the set of iterations and exits, each with what it reads and writes.
"""
from canon import (Lin, Cond, CanonError, DataDecision, GARB, V, lsym, ladd, lsub, lmul, is_pub, cond, negate, decide, facts_of)
from absint import AnalysisError

import itertools

_ids = itertools.count()


class Need(Exception):
    """a public condition is not decided."""
    def __init__(self, c):
        self.c = c


class KReg:
    """init: None (uninitialised), or f(offset, size) -> value. elem: size of the values it is made of."""
    def __init__(self, name, size=None, kind="arg", elem=0, dom=None):
        self.name, self.size, self.kind, self.elem, self.dom = name, size, kind, elem, dom
        self.id = next(_ids)
        self.data = None

    def __repr__(self):
        return self.name

    def atom(self, off):
        """the initial value of the element at off."""
        return self.dom.atom("%s[%r]" % (self.name, off), 8 * self.elem)

    def initial(self, off, n):
        if self.data is not None:
            if not isinstance(off, int) or off < 0 or off + n > len(self.data):
                raise CanonError("table %s read at %r" % (self.name, off))
            return int.from_bytes(self.data[off:off + n], "little")
        if not self.elem:
            return GARB
        c = off if isinstance(off, int) else off.c
        e = self.elem
        b = c % e
        base = ladd(off, -b)
        if b == 0 and n == e:
            return self.atom(base)
        if b == 0 and n % e == 0:
            return self.dom.cat([(self.atom(ladd(base, i)), 8 * e) for i in range(0, n, e)])
        if n == 1:
            return self.dom.byte(8 * e, self.atom(base), b)
        return self.dom.cat([(self.initial(ladd(off, i), 1), 8) for i in range(n)])


class KPtr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r, self.off = r, off

    def __eq__(self, o):
        return isinstance(o, KPtr) and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((self.r.id, self.off))

    def __repr__(self):
        return "&%s+%r" % (self.r.name, self.off)


class KState:
    def __init__(self):
        self.frames = []
        self.mem = {}           # region -> {symbolic part: {offset: (value, size)}}
        self.own = set()
        self.log = []           # accesses of the caller's memory: (kind, region, offset, size)
        self.facts = ()
        self.known = {}
        self.hist = {}
        self.generic = None
        self.lost = frozenset()
        self.steps = 0
        self.extra = {}
        self.events = ()
        self.ret = None

    def clone(self):
        s = KState()
        s.frames = [f.clone() for f in self.frames]
        s.mem = {r: {k: dict(c) for k, c in m.items()} for r, m in self.mem.items()}
        s.log = list(self.log)
        s.facts, s.known, s.hist = self.facts, dict(self.known), dict(self.hist)
        s.generic, s.lost, s.steps, s.extra = self.generic, self.lost, self.steps, dict(self.extra)
        s.events, s.ret = self.events, self.ret
        return s


class KFrame:
    __slots__ = ("func", "block", "idx", "env", "call", "allocas")

    def clone(self):
        f = KFrame()
        f.func, f.block, f.idx, f.call = self.func, self.block, self.idx, self.call
        f.env, f.allocas = dict(self.env), list(self.allocas)
        return f


class Loop:
    """first: state at the first arrival; head: the generalised state after k more iterations; iters: the states one
    iteration later; exits: the ways out; k: the counter's symbol; back: the condition under which it goes on."""


class Machine:
    """shared by the IR and the machine code analyses."""
    max_steps = 400000

    def __init__(self, dom):
        self.dom = dom
        self.loops = []
        self.steps = 0
        self.nk = itertools.count()

    # memory ------------------------------------------------------------------
    def load(self, st, r, off, n, what=None):
        if r.kind == "arg":
            st.log.append(("r", r, off, n, what))
        return self.peek(st, r, off, n)

    def peek(self, st, r, off, n):
        sym, c = (off.m, off.c) if isinstance(off, Lin) else ((), off)
        cells = st.mem.get(r, {}).get(sym, {})
        e = cells.get(c)
        if e is not None and e[1] == n:
            return e[0]
        near = [(o, v) for o, v in cells.items() if o < c + n and o + v[1] > c]
        if not near:
            if r in st.lost:
                raise CanonError("%s is read after other iterations wrote it" % r.name)
            return r.initial(off, n)
        # one larger cell, or several smaller ones
        if len(near) == 1 and near[0][0] <= c and near[0][0] + near[0][1][1] >= c + n:
            o, (v, m) = near[0]
            if v is GARB:
                return GARB
            v = self.word(8 * m, v)
            return self.dom.trunc(8 * n, self.dom.lshr(8 * m, v, 8 * (c - o)), 8 * m)
        parts, p = [], c
        while p < c + n:
            f = [(o, v) for o, v in near if o <= p < o + v[1]]
            if f:
                o, (v, m) = f[0]
                if v is GARB or isinstance(v, KPtr):
                    return GARB
                v = self.word(8 * m, v)
                k = min(o + m, c + n) - p
                if k < m:
                    v = self.dom.trunc(8 * k, self.dom.lshr(8 * m, v, 8 * (p - o)), 8 * m)
                parts.append((v, 8 * k))
                p += k
            else:
                v = r.initial(ladd(off, p - c), 1)
                if v is GARB:
                    return GARB
                parts.append((v, 8))
                p += 1
        return self.dom.cat(parts)

    def store(self, st, r, off, n, v, what=None):
        if r.kind == "arg":
            st.log.append(("w", r, off, n, what))
        if r.kind == "const":
            raise CanonError("a constant is written")
        sym, c = (off.m, off.c) if isinstance(off, Lin) else ((), off)
        cells = st.mem.setdefault(r, {}).setdefault(sym, {})
        if c in cells and cells[c][1] == n:
            cells[c] = (v, n)
            return
        for o in [o for o, (_, m) in cells.items() if o < c + n and o + m > c]:
            w, m = cells.pop(o)
            for i in range(m):
                if not c <= o + i < c + n:
                    b = GARB if w is GARB or isinstance(w, KPtr) else self.dom.byte(8 * m, self.word(8 * m, w), i)
                    cells[o + i] = (b, 1)
        cells[c] = (v, n)

    def word(self, w, v):
        """as data."""
        if is_pub(v):
            return self.dom.data(w, v)
        if v is GARB or v is None:
            raise CanonError("an uninitialised or stale value is used")
        if isinstance(v, KPtr):
            raise CanonError("a pointer used as data")
        return v

    # arithmetic on public or data values ---------------------------------------
    def arith(self, op, w, a, b):
        D = self.dom
        mod = (1 << w) - 1
        if a is GARB or b is GARB:
            if (op == "xor" or op == "sub") and a is b:
                return 0
            return GARB
        if isinstance(a, KPtr) or isinstance(b, KPtr):
            if op == "sub" and isinstance(a, KPtr) and isinstance(b, KPtr) and a.r is b.r:
                return self.pub(w, lsub(a.off, b.off))
            if op in ("add", "sub"):
                if isinstance(b, KPtr):
                    a, b = b, a
                    if op == "sub":
                        raise CanonError("pointer subtracted")
                return KPtr(a.r, ladd(a.off, lmul(self.signed(w, b), 1 if op == "add" else -1)))
            if op == "and" and isinstance(b, int) and self.signed(w, b) < 0:
                return self.align(a, -self.signed(w, b))
            raise CanonError("pointer arithmetic " + op)
        if isinstance(a, int) and isinstance(b, int):
            if op in ("shl", "lshr", "ashr", "rotl") and op != "rotl" and b >= w:
                raise CanonError("shift too far")
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                    "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: a >> b,
                    "ashr": lambda: self.signed(w, a) >> b, "udiv": lambda: a // b, "urem": lambda: a % b,
                    "rotl": lambda: (a << b % w | a >> (w - b % w)) if b % w else a,
                    "sdiv": lambda: int(self.signed(w, a) / self.signed(w, b))}[op]() & mod
        if is_pub(a) and is_pub(b):
            if op == "add":
                return self.pub(w, ladd(self.signed(w, a), self.signed(w, b)))
            if op == "sub":
                return self.pub(w, lsub(self.signed(w, a), self.signed(w, b)))
            if op == "mul" and isinstance(a, int):
                return self.pub(w, lmul(b, a))
            if op == "mul" and isinstance(b, int):
                return self.pub(w, lmul(a, b))
            if op == "shl" and isinstance(b, int):
                return self.pub(w, lmul(a, 1 << b))
            if op in ("udiv", "lshr", "ashr") and isinstance(b, int):
                d = b if op == "udiv" else 1 << b
                if all(k % d == 0 for _, k in a.m) and a.c % d == 0:
                    return self.pub(w, Lin(tuple((s, k // d) for s, k in a.m), a.c // d))
            if op in ("urem", "and") and isinstance(b, int):
                d = b if op == "urem" else b + 1
                if d & d - 1 == 0 and all(k % d == 0 for _, k in a.m):
                    return a.c % d
            if op == "and" and isinstance(b, int) and b == mod:
                return a
        if is_pub(a) and is_pub(b) and not isinstance(a, int) and not isinstance(b, int):
            raise CanonError("%s of two sizes" % op)
        a = self.word(w, a)
        if op in ("shl", "lshr", "rotl"):
            if not isinstance(b, int):
                raise CanonError("shift by a variable")
            return getattr(D, op)(w, a, b)
        if op in ("ashr", "udiv", "urem", "sdiv", "srem"):
            if isinstance(b, int) and b and b & b - 1 == 0 and op == "udiv":
                return D.lshr(w, a, b.bit_length() - 1)
            if isinstance(b, int) and b and b & b - 1 == 0 and op == "urem":
                return D.and_(w, a, b - 1)
            raise CanonError(op + " of data")
        b = self.word(w, b)
        return {"add": D.add, "sub": D.sub, "mul": D.mul, "and": D.and_, "or": D.or_, "xor": D.xor}[op](w, a, b)

    def align(self, p, n):
        raise CanonError("aligned pointer")

    def pub(self, w, v):
        return v & (1 << w) - 1 if isinstance(v, int) else v

    def signed(self, w, v):
        if isinstance(v, int) and v >> w - 1:
            return v - (1 << w)
        return v

    def compare(self, p, w, a, b):
        """bool, Cond or a 0/1 data value."""
        if isinstance(a, KPtr) and isinstance(b, KPtr) and a.r is b.r:
            a, b = a.off, b.off
        elif isinstance(a, KPtr) or isinstance(b, KPtr):
            if p in ("eq", "ne"):
                return p == "ne"
            raise CanonError("pointers into different objects are compared")
        if a is GARB or b is GARB:
            return GARB
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                a, b = self.signed(w, a), self.signed(w, b)
            q = p[1:] if p not in ("eq", "ne") else p
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]
        if is_pub(a) and is_pub(b):
            return cond(p, self.signed(w, a) if p[0] != "u" else a, self.signed(w, b) if p[0] != "u" else b)
        return self.dom.icmp(p, w, self.word(w, a), self.word(w, b))

    def truth(self, st, c):
        if isinstance(c, bool) or isinstance(c, int):
            return bool(c)
        if isinstance(c, Cond):
            r = decide(c, st.facts)
            if r is None:
                r = st.known.get(c)
            if r is None:
                raise Need(c)
            return r
        if c is GARB:
            raise CanonError("a branch depends on an uninitialised or stale value")
        raise DataDecision("a branch depends on data")

    # paths -----------------------------------------------------------------------
    def explore(self, st):
        """all ways to the end; loops over symbolic counts are generalised. -> end states."""
        ends, work = [], [st]
        while work:
            s = work.pop()
            try:
                self.go(s)
            except Need as e:
                site = self.site(s)
                if s.generic is not None and s.generic[0] == site:
                    s.generic[1].append(s)
                    continue
                old = s.hist.get(site)
                if old is not None:
                    ends += self.induct(site, old, s, e.c)
                    continue
                snap = s.clone()
                for v in (True, False):
                    t = s.clone()
                    t.hist[site] = snap
                    self.assume(t, e.c if v else negate(e.c))
                    work.append(t)
                if len(work) > 200:
                    raise CanonError("too many paths")
                continue
            ends.append(s)
        return ends

    def assume(self, st, c):
        st.facts = st.facts + facts_of(c, st.facts)
        st.known[c] = True
        st.known[negate(c)] = False

    # slots -------------------------------------------------------------------------
    def slots(self, st):
        """everything that carries over an iteration: key -> (value, width or None)."""
        out = dict(self.registers(st))
        for r, m in st.mem.items():
            for o, (v, n) in m.get((), {}).items():
                out[("m", r, o, n)] = (v, 8 * n)
        return out

    def put(self, st, key, v):
        if key[0] == "m":
            _, r, o, n = key
            st.mem[r][()][o] = (v, n)
        else:
            self.setreg(st, key, v)

    def step_of(self, a, b, w):
        """the constant (or None) by which a value grows from one iteration to the next."""
        if isinstance(a, KPtr) and isinstance(b, KPtr):
            if a.r is not b.r:
                return None
            d = lsub(b.off, a.off)
            return d if isinstance(d, int) else None
        if is_pub(a) and is_pub(b):
            d = lsub(b, a)
            if isinstance(d, int) and w and abs(d) >> w - 1 and isinstance(a, int):
                d = self.signed(w, d & (1 << w) - 1)
            return d if isinstance(d, int) else None
        if isinstance(a, Cond) and isinstance(b, Cond) and a.p == b.p:
            x, y = self.step_of(a.a, b.a, None), self.step_of(a.b, b.b, None)
            return None if x is None or y is None else (x, y)
        if isinstance(a, (KPtr, Cond)) or isinstance(b, (KPtr, Cond)) or a is GARB or b is GARB or w is None:
            return None
        if is_pub(a) and not isinstance(a, int) or is_pub(b) and not isinstance(b, int):
            return None
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return None
        return self.dom.affine(w, a, b)

    def stepped(self, a, d, k, w):
        """a + k*d."""
        if isinstance(a, KPtr):
            return KPtr(a.r, ladd(a.off, lmul(k, d)))
        if isinstance(a, Cond):
            return Cond(a.p, ladd(a.a, lmul(k, d[0])), ladd(a.b, lmul(k, d[1])))
        if is_pub(a):
            return ladd(a, lmul(k, d))
        return self.dom.add(w, a, self.dom.lin(w, lmul(k, self.signed(w, d))))

    def induct(self, site, A, B, c):
        ks = "k%d" % next(self.nk)
        k = lsym(ks)
        sa, sb = self.slots(A), self.slots(B)
        mode = {}           # key -> ("same",) | ("step", d) | ("fresh", value) | ("drop",)
        pairs = {}
        for key, (b, w) in sb.items():
            if key not in sa:
                mode[key] = ("drop",)
                continue
            a = sa[key][0]
            if type(a) is type(b) and a == b or a is b:
                mode[key] = ("same", a)
                continue
            d = self.step_of(a, b, w)
            mode[key] = ("step", d) if d is not None else ("fresh", (a, b))

        def unknown(key, vals, w):
            if any(isinstance(v, (KPtr, Cond, list, tuple, bool)) or v is GARB or v is None or isinstance(v, Lin)
                   for v in vals) or w is None:
                return GARB
            p = (tuple(vals), w)
            if p not in pairs:
                pairs[p] = self.dom.fresh("%s:%d" % (ks, len(pairs)), w, vals)
            return pairs[p]
        for rnd in range(60):
            H = B.clone()
            H.facts = A.facts
            H.known = dict(A.known)
            H.log = []
            H.hist = dict(A.hist)
            H.generic = None
            lost = set(H.lost)
            for r, m in H.mem.items():
                if r.kind == "arg" and any(s and cells for s, cells in m.items()):
                    lost.add(r)
                for s in list(m):
                    if s:
                        del m[s]
            val = {}
            for key, md in mode.items():
                w = sb[key][1]
                if md[0] == "drop":
                    if key[0] == "m":
                        if key[1].kind == "arg":
                            lost.add(key[1])
                        H.mem[key[1]][()].pop(key[2], None)
                    else:
                        self.setreg(H, key, GARB)
                    continue
                if md[0] == "same":
                    v = md[1]
                elif md[0] == "step":
                    v = self.stepped(sa[key][0], md[1], k, w)
                else:
                    v = unknown(key, md[1], w)
                val[key] = v
                self.put(H, key, v)
            H.lost = frozenset(lost)
            backs = []
            entry = H.clone()
            H.generic = (site, backs)
            ends = []
            back_cond = []
            cc = self.condition(H)
            if cc is None:
                raise CanonError("the loop's test is decided after generalisation")
            for v in (True, False):
                t = H.clone()
                t.generic = (site, backs)
                t.hist = {s: x for s, x in t.hist.items() if s != site}
                d = cc if v else negate(cc)
                self.assume(t, d)
                n = len(backs)
                e = self.explore(t)
                if len(backs) > n:
                    back_cond.append(d)
                for x in e:
                    x.extra["exit"] = x.extra.get("exit", ()) + ((ks, d),)
                ends += e
            # is the generalised state closed?
            weak = False
            for s in backs:
                ss = self.slots(s)
                for key, v in val.items():
                    md = mode[key]
                    if md[0] == "fresh":
                        new = ss[key][0] if key in ss else GARB
                        if v is GARB:
                            continue
                        if new is GARB or isinstance(new, (KPtr, Cond, Lin)):
                            mode[key] = ("fresh", (GARB,))
                            weak = True
                        elif hasattr(self.dom, "within") and not self.dom.within(new, v):
                            lim = self.widen(v, new)
                            mode[key] = ("fresh", md[1] + (lim,))
                            weak = True
                        continue
                    want = v if md[0] == "same" else self.stepped(sa[key][0], md[1], ladd(k, 1), sb[key][1])
                    if key not in ss or not (ss[key][0] is want or ss[key][0] == want):
                        a, b = sa[key][0], sb[key][0]
                        mode[key] = ("fresh", (a, b))
                        weak = True
            if not weak:
                L = Loop()
                L.first, L.second, L.head, L.iters, L.exits = A, B, entry, backs, ends
                L.k, L.back, L.site = ks, back_cond, site
                L.fresh = {key: (sa[key][0], sb[key][0], val[key]) for key, md in mode.items() if md[0] == "fresh"}
                L.pairs = pairs
                self.loops.append(L)
                for x in ends:
                    x.extra["loop"] = x.extra.get("loop", ()) + (L,)
                return ends
        raise CanonError("a loop does not settle")

    def widen(self, v, new):
        return new


# ---- LLVM IR ----------------------------------------------------------------------------------------------------
IGNORED = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant",
           "llvm.donothing", "llvm.annotation", "llvm.var.annotation", "llvm.prefetch")
ARITH = {"add": "add", "sub": "sub", "mul": "mul", "and": "and", "or": "or", "xor": "xor", "shl": "shl",
         "lshr": "lshr", "ashr": "ashr", "udiv": "udiv", "urem": "urem", "sdiv": "sdiv"}


class IR(Machine):
    def __init__(self, module, dom, models=None):
        super().__init__(dom)
        self.m = module
        self.models = models or {}
        self.gregs = {}

    def greg(self, g):
        r = self.gregs.get(g.name)
        if r is None:
            r = KReg("@" + g.name[:60], g.size, "const" if g.const else "global")
            if g.const and g.init is not None:
                r.data = _bytes(g.init, g.vty)
            self.gregs[g.name] = r
        return r

    def start(self, st, fname, args):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise AnalysisError("function %s is missing" % fname)
        self.push(st, f, args, None)
        return st

    def call(self, fname, args, st=None):
        st = st.clone() if st is not None else KState()
        return self.explore(self.start(st, fname, args))

    def push(self, st, f, args, call):
        if len(st.frames) > 60:
            raise CanonError("recursion")
        fr = KFrame()
        fr.func, fr.block, fr.idx, fr.call, fr.allocas = f, f.blocks[0], 0, call, []
        fr.env = {("a", i): a for i, a in enumerate(args)}
        st.frames.append(fr)

    def site(self, st):
        return tuple((f.func.name, f.block.index, f.idx) for f in st.frames)

    def registers(self, st):
        for d, fr in enumerate(st.frames):
            for i, v in fr.env.items():
                yield ("e", d, i), (v, self.width(fr, i))

    def width(self, fr, i):
        if isinstance(i, tuple):
            t = fr.func.args[i[1]].ty
        else:
            t = self.tys(fr.func).get(i)
        return t.bits if t is not None and t.kind == "int" else None

    def tys(self, f):
        c = getattr(self, "_tys", None)
        if c is None:
            c = self._tys = {}
        if f not in c:
            c[f] = {x.id: x.ty for b in f.blocks for x in b.instrs}
        return c[f]

    def setreg(self, st, key, v):
        st.frames[key[1]].env[key[2]] = v

    def condition(self, st):
        """the undecided condition where the state stands."""
        try:
            s = st.clone()
            self.one(s, s.frames[-1], s.frames[-1].block.instrs[s.frames[-1].idx])
        except Need as e:
            return e.c
        return None

    def val(self, fr, v):
        k = v.kind
        if k == "inst":
            return fr.env[v.id]
        if k == "const":
            return v.val
        if k == "arg":
            return fr.env[("a", v.index)]
        if k == "null" or k == "zero":
            return self.zero(v.ty)
        if k == "undef":
            return [GARB] * 8 if v.ty.kind in ("struct", "array") else GARB
        if k == "global":
            return KPtr(self.greg(v), 0)
        if k == "func":
            return v
        if k == "cexpr":
            if v.op == "getelementptr":
                p = self.val(fr, v.ops[0])
                return KPtr(p.r, ladd(p.off, v.extra[0]))
            if v.op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
                return self.val(fr, v.ops[0])
        if k == "agg":
            return [self.val(fr, e) for e in v.elems]
        if k == "metadata":
            return None
        raise CanonError("constant " + k)

    def zero(self, ty):
        if ty.kind == "struct":
            return [self.zero(e) for e in ty.elems]
        if ty.kind in ("array", "vector"):
            return [self.zero(ty.elems[0]) for _ in range(ty.count)]
        return 0

    def go(self, st):
        while st.frames:
            fr = st.frames[-1]
            x = fr.block.instrs[fr.idx]
            self.steps += 1
            st.steps += 1
            if st.steps > self.max_steps:
                raise CanonError("too many steps")
            self.loc = x.loc
            if self.one(st, fr, x):
                fr.idx += 1

    def jump(self, fr, target):
        prev = fr.block
        vals, i = [], 0
        for x in target.instrs:
            if x.op != "phi":
                break
            vals.append((x.id, self.val(fr, x.phi[prev])))
            i += 1
        for k, v in vals:
            fr.env[k] = v
        fr.block, fr.idx = target, i

    def one(self, st, fr, x):
        """True: go on to the next instruction."""
        op = x.op
        env = fr.env
        if op in ARITH:
            if x.ty.kind != "int":
                raise CanonError("vector arithmetic")
            a, b = self.val(fr, x.ops[0]), self.val(fr, x.ops[1])
            w = x.ty.bits
            if w == 1:
                env[x.id] = self.boolean(st, op, a, b)
            else:
                env[x.id] = self.arith(op, w, a, b)
            return True
        if op == "load":
            p = self.val(fr, x.ops[0])
            env[x.id] = self.ld(st, p, x.ty, x)
            return True
        if op == "store":
            self.st(st, self.val(fr, x.ops[1]), self.val(fr, x.ops[0]), x.ops[0].ty, x)
            return True
        if op == "getelementptr":
            off, var, _ = x.gep
            p = self.val(fr, x.ops[0])
            o = off
            for v, s in var:
                i = self.val(fr, v)
                if not is_pub(i):
                    if i is GARB:
                        o = GARB
                        break
                    raise DataDecision("an address depends on data")
                o = ladd(o, lmul(self.signed(v.ty.bits, i), s))
            if o is GARB or p is GARB:
                env[x.id] = GARB
            elif isinstance(p, KPtr):
                env[x.id] = KPtr(p.r, ladd(p.off, self.signed(64, o) if isinstance(o, int) else o))
            elif is_pub(p):
                env[x.id] = self.pub(64, ladd(p, o))        # arithmetic on a null pointer
            else:
                raise DataDecision("an address depends on data")
            return True
        if op == "br":
            if not x.ops:
                self.jump(fr, x.succ[0])
            else:
                self.jump(fr, x.succ[0 if self.truth(st, self.val(fr, x.ops[0])) else 1])
            return False
        if op == "switch":
            v = self.val(fr, x.ops[0])
            if not is_pub(v) and v is not GARB:
                raise DataDecision("a branch depends on data")
            if not isinstance(v, int):
                raise CanonError("a switch on data or a symbolic size")
            for k, t in x.cases:
                if k == v:
                    self.jump(fr, t)
                    return False
            self.jump(fr, x.succ[0])
            return False
        if op == "icmp":
            w = x.ops[0].ty.bits or 64
            env[x.id] = self.compare(x.pred, w, self.val(fr, x.ops[0]), self.val(fr, x.ops[1]))
            return True
        if op in ("zext", "sext", "trunc"):
            a = self.val(fr, x.ops[0])
            fw, w = x.ops[0].ty.bits, x.ty.bits
            if isinstance(a, (Cond, bool)):
                a = int(self.truth(st, a))
            if a is GARB:
                env[x.id] = GARB
            elif isinstance(a, int):
                env[x.id] = (self.signed(fw, a) if op == "sext" else a) & (1 << w) - 1
            elif isinstance(a, Lin) and op != "trunc":
                env[x.id] = a
            elif op == "zext":
                env[x.id] = self.dom.zext(w, self.word(fw, a), fw)
            elif op == "trunc":
                if isinstance(a, Lin):
                    env[x.id] = self.dom.lin(w, a)
                else:
                    env[x.id] = self.dom.trunc(w, self.word(fw, a), fw)
            elif fw == 1:
                env[x.id] = self.dom.mul(w, self.word(1, a), (1 << w) - 1)
            else:
                raise CanonError("sign extension of data")
            return True
        if op == "select":
            c = self.val(fr, x.ops[0])
            a, b = self.val(fr, x.ops[1]), self.val(fr, x.ops[2])
            if isinstance(c, (bool, int, Cond)) or c is GARB:
                env[x.id] = a if self.truth(st, c) else b
            else:
                w = x.ty.bits
                env[x.id] = self.dom.select(w, c, self.word(w, a), self.word(w, b))
            return True
        if op == "ret":
            v = self.val(fr, x.ops[0]) if x.ops else None
            for r in fr.allocas:
                st.mem.pop(r, None)
            st.frames.pop()
            if not st.frames:
                st.ret = v
                return False
            g = st.frames[-1]
            if fr.call.ty.kind != "void":
                g.env[fr.call.id] = v
            if fr.call.op == "invoke":
                self.jump(g, fr.call.succ[0])
            else:
                g.idx += 1
            return False
        if op == "alloca":
            r = KReg("local%d" % x.id, x.asize, "alloca", 0, self.dom)
            fr.allocas.append(r)
            env[x.id] = KPtr(r, 0)
            return True
        if op in ("bitcast", "freeze", "addrspacecast", "ptrtoint", "inttoptr"):
            env[x.id] = self.val(fr, x.ops[0])
            return True
        if op in ("call", "invoke"):
            return self.docall(st, fr, x)
        if op == "extractvalue":
            v = self.val(fr, x.ops[0])
            for i in x.indices:
                v = v[i]
            env[x.id] = v
            return True
        if op == "insertvalue":
            v = self.val(fr, x.ops[0])
            env[x.id] = _ins(v, x.indices, self.val(fr, x.ops[1]))
            return True
        raise CanonError("instruction %s" % op)

    def boolean(self, st, op, a, b):
        if isinstance(a, (bool, int, Cond)) and isinstance(b, (bool, int, Cond)):
            p, q = self.truth(st, a), self.truth(st, b)
            return {"and": p and q, "or": p or q, "xor": p != q, "add": p != q, "sub": p != q}[op]
        raise CanonError("a boolean of data")

    def ld(self, st, p, ty, x):
        if not isinstance(p, KPtr):
            raise CanonError("load from %r" % (p,))
        if ty.kind in ("struct", "array"):
            raise CanonError("aggregate load")
        n = ty.size if ty.kind != "int" else (ty.bits + 7) // 8
        v = self.load(st, p.r, p.off, n, x.loc)
        if ty.kind == "int" and ty.bits == 1:
            v = bool(v & 1) if isinstance(v, int) else v
        return v

    def st(self, st, p, v, ty, x):
        if not isinstance(p, KPtr):
            raise CanonError("store to %r" % (p,))
        if ty.kind in ("struct", "array"):
            raise CanonError("aggregate store")
        n = ty.size if ty.kind != "int" else (ty.bits + 7) // 8
        if isinstance(v, bool):
            v = int(v)
        self.store(st, p.r, p.off, n, v, x.loc)

    def docall(self, st, fr, x):
        cal = x.callee
        if cal.kind == "inst" or cal.kind == "arg":
            cal = self.val(fr, cal)
        if cal is GARB or getattr(cal, "kind", None) != "func":
            if getattr(cal, "kind", None) == "asm" and not cal.text.strip():
                return True
            raise CanonError("indirect call")
        name = cal.name
        if name.startswith(IGNORED):
            return True
        args = [self.val(fr, o) for o in x.ops]
        h = self.models.get(name)
        if h is not None:
            r = h(self, st, args)
        elif not cal.decl:
            self.push(st, cal, args, x)
            return False
        else:
            r = self.intrinsic(st, name, x, args)
        if x.ty.kind != "void":
            fr.env[x.id] = r
        if x.op == "invoke":
            self.jump(fr, x.succ[0])
            return False
        return True

    def intrinsic(self, st, name, x, a):
        D = self.dom
        w = x.ty.bits
        if name.startswith(("llvm.memcpy", "llvm.memmove")) or name in ("memcpy", "memmove"):
            n = a[2]
            if not isinstance(n, int):
                raise CanonError("copy of a variable size")
            vals = self.copyout(st, a[1], n, x) if n else []
            for o, k, v in vals:
                self.store(st, a[0].r, ladd(a[0].off, o), k, v, x.loc)
            return a[0]
        if name.startswith("llvm.memset") or name == "memset":
            n = a[2]
            if not isinstance(n, int) or not isinstance(a[1], int):
                raise CanonError("fill of a variable size")
            for i in range(n):
                self.store(st, a[0].r, ladd(a[0].off, i), 1, a[1] & 255, x.loc)
            return a[0]
        if name.startswith(("llvm.fshl", "llvm.fshr")):
            if isinstance(a[2], int):
                k = a[2] % w
                if name.startswith("llvm.fshr"):
                    k = (w - k) % w
                    if k == 0:
                        return a[1]
                elif k == 0:
                    return a[0]
                if a[0] is a[1] or a[0] == a[1]:
                    return self.arith("rotl", w, a[0], k)
                return self.arith("or", w, self.arith("shl", w, a[0], k), self.arith("lshr", w, a[1], w - k))
            raise CanonError("rotation by a variable")
        if name.startswith("llvm.bswap"):
            v = self.word(w, a[0])
            return D.cat([(D.byte(w, v, w // 8 - 1 - i), 8) for i in range(w // 8)])
        if name.startswith(("llvm.umin", "llvm.umax")):
            c = self.compare("ule", w, a[0], a[1])
            return a[0] if self.truth(st, c) == name.startswith("llvm.umin") else a[1]
        if name.startswith("llvm.expect"):
            return a[0]
        if name.startswith("llvm.is.constant"):
            return False
        raise CanonError("call to %s" % name)

    def copyout(self, st, p, n, x):
        out, i = [], 0
        if not isinstance(p, KPtr):
            raise CanonError("copy from %r" % (p,))
        while i < n:
            off = ladd(p.off, i)
            sym, c = (off.m, off.c) if isinstance(off, Lin) else ((), off)
            e = st.mem.get(p.r, {}).get(sym, {}).get(c)
            k = e[1] if e is not None and e[1] <= n - i else 1
            if e is None and p.r.elem and c % p.r.elem == 0 and p.r.elem <= n - i:
                k = p.r.elem
            out.append((i, k, self.load(st, p.r, off, k, x.loc)))
            i += k
        return out


def _ins(v, idx, e):
    v = list(v) if isinstance(v, list) else [GARB] * (idx[0] + 1)
    while len(v) <= idx[0]:
        v.append(GARB)
    v[idx[0]] = e if len(idx) == 1 else _ins(v[idx[0]], idx[1:], e)
    return v


def _bytes(c, ty):
    """the bytes of a constant."""
    if c.kind in ("zero", "null", "undef"):
        return bytes(ty.size)
    if ty.kind == "struct":
        b = bytearray(ty.size)
        for e, t, o in zip(c.elems, ty.elems, ty.offsets):
            d = _bytes(e, t)
            if d is None:
                return None
            b[o:o + len(d)] = d
        return bytes(b)
    if ty.kind in ("array", "vector"):
        parts = [_bytes(e, ty.elems[0]) for e in c.elems]
        return None if any(p is None for p in parts) else b"".join(parts)
    if c.kind == "const":
        return c.val.to_bytes(ty.size, "little")
    return None
