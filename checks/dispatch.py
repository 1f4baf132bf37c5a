"""Which implementation carries out a request: never one the processor cannot run, and always one and the same."""
import re
from absint import AnalysisError, Engine, Ptr, Region, State
from terms import Term, sym
import evalt
import llvm
import probe
import x86

# extension -> (cpuid leaf, register, bit), as the processor manuals assign them
BITS = {"sse_3": (1, "ecx", 0), "ssse_3": (1, "ecx", 9), "sse_4_1": (1, "ecx", 19), "sse_4_2": (1, "ecx", 20), "avx_1": (1, "ecx", 28),
        "avx_2": (7, "ebx", 5), "sha_1": (7, "ebx", 29), "sha_2": (7, "ebx", 29), "bmi_1": (7, "ebx", 3), "bmi_2": (7, "ebx", 8),
        "adx": (7, "ebx", 19)}
REGS = ("eax", "ebx", "ecx", "edx")

# probe -> (kind, preferred implementation, implementation the caller insists on)
HASH = {"sha_1": (None, None), "sha_224": (None, None), "sha_256": (None, None), "sha_512": (None, None),
        "sha_256_prefer_sw": ("sw", None), "sha_256_prefer_ni": ("ni", None), "sha_1_force_ni": (None, "ni")}
CIPHER = {"chacha": (None, None), "chacha_prefer_sse": ("ssse_3", None), "chacha_force_avx": (None, "avx_2")}
FAMILY = {"sha_1": "hash_sha_1_160", "sha_2": "hash_sha_2_256", "sha_5": "hash_sha_2_512", "chac": "cipher_chacha"}


def member(name):
    """class and member function of a function of milo::primitive::detail, from its mangled name."""
    m = re.match(r"_ZNK?4milo9primitive6detail(\d+)", name)
    if not m:
        return None
    at = m.end()
    cls = name[at:at + int(m.group(1))]
    m = re.match(r"(\d+)", name[at + len(cls):])
    if not m:
        return None
    at += len(cls) + m.end()
    return cls, name[at:at + int(m.group(1))]


def released(eng, st, x, a):
    eng.store_n(st, a[0].r, a[0].off, 1, 1, False, x.loc)
    return None


class Asm:
    """what each assembly function asks of the processor."""
    def __init__(self, none=False):
        self.needs = {}
        for f in [] if none else x86.files():
            c = x86.assemble(f, "unix")
            for s, at in c.symbols.items():
                self.needs[s] = self.walk(c, at)

    def glue(self, m, n):
        """what the C++ side n asks, by what it calls."""
        out, todo, seen = {}, [n], set()
        while todo:
            f = m.funcs.get(todo.pop())
            if f is None or f.name in seen:
                continue
            seen.add(f.name)
            if f.decl:
                if f.name in self.needs:
                    out.update(self.needs[f.name])
                elif not f.name.startswith("llvm."):
                    raise AnalysisError("%s calls %s" % (n, f.name))
            else:
                for b in f.blocks:
                    for x in b.instrs:
                        if x.op in ("call", "invoke"):
                            if not isinstance(x.callee, llvm.Func):
                                raise AnalysisError("indirect call in %s" % f.name)
                            todo.append(x.callee.name)
        self.needs[n] = out

    @staticmethod
    def walk(c, at):
        seen, todo, out = set(), [at], {}
        while todo:
            a = todo.pop()
            if a in seen or a not in c.code:
                continue
            seen.add(a)
            x = c.code[a]
            w = max([o.lanes for o in x.ops if isinstance(o, x86.Vec)] + [0])
            n = x86.needs(x.mn, w)
            if n:
                out.setdefault(n, x.where)
            if x.mn[0] == "j" or x.mn in ("call", "loop"):
                if not isinstance(x.ops[0], int):
                    raise AnalysisError("indirect jump in %s" % x.where)
                todo.append(x.ops[0])
            if x.mn not in ("ret", "jmp"):
                todo.append(x.next)
        return out


def word(leaf, sub, reg):
    return sym("cpuid%d.%d.%s" % (leaf, sub, reg), 32)


def cpuid(eng, st, x, a):
    p, leaf, sub = a
    if isinstance(leaf, Term) or isinstance(sub, Term) or not isinstance(p, Ptr):
        raise AnalysisError("cpuid of something not fixed")
    for i, r in enumerate(REGS):
        eng.store_n(st, p.r, p.off + 4 * i, 4, word(leaf, sub, r), False, x.loc)
    return None


def models(m, asm):
    out = {"milo_internal_arch_x86_64_cpuid": cpuid, "__cxa_guard_acquire": lambda e, s, x, a: 1, "__cxa_guard_release": released}
    back = {}

    def rec(n, cls, op, width):
        def f(eng, st, x, a):
            r = sym("ret:" + n, width) if width else None
            eng.event(st, "chosen", n, list(a), x.loc, extra=(cls, op), ret=r)
            return r
        return f
    for n, f in m.funcs.items():
        mm = member(n)
        c = mm and re.match(r"(\w+?)_impl_(?:hw_x86_64_)?(sw|[a-z]+(?:_\d)?)(?:_ietf)?$", mm[0])
        if not c or not f.blocks or not f.args:
            continue
        back[n] = (c.group(1), c.group(2), mm[1])
        asm.glue(m, n)
        out[n] = rec(n, back[n][0] + ":" + back[n][1], back[n][2], 0 if f.ret.kind == "void" else 64)
    return out, back


def ctors(m):
    """the functions that initialise this translation unit's static data, in order, with the globals they initialise."""
    g = m.globals.get("llvm.global_ctors")
    if g is None or g.init is None:
        return []
    out = []
    for e in sorted(g.init.elems, key=lambda e: e.elems[0].val):
        n, key = e.elems[1].name, e.elems[2]
        refs, stored = touched(m, n)
        out.append((n, stored | {key.name} if isinstance(key, llvm.Global) else refs, refs))
    return out


def touched(m, n):
    """globals referenced, and those stored to by name, in n and what it calls."""
    refs, stored, todo, seen = set(), set(), [n], set()

    def under(v):
        while isinstance(v, llvm.CExpr):
            v = v.ops[0]
        return v
    while todo:
        f = m.funcs.get(todo.pop())
        if f is None or f.name in seen or not f.blocks:
            continue
        seen.add(f.name)
        for b in f.blocks:
            for x in b.instrs:
                for v in list(x.ops) + ([x.callee] if x.callee is not None else []):
                    v = under(v)
                    if isinstance(v, llvm.Global):
                        refs.add(v.name)
                    elif isinstance(v, llvm.Func):
                        todo.append(v.name)
                if x.op == "store":
                    v = under(x.ops[1])
                    if isinstance(v, llvm.Global):
                        stored.add(v.name)
    return refs, stored


def wanted(m, order, fn):
    """the initialisers whose results fn can come to see."""
    need, _ = touched(m, fn)
    picked = set()
    while True:
        new = [n for n, d, r in order if n not in picked and d & need]
        if not new:
            return [n for n, _, _ in order if n in picked]
        for n, d, r in order:
            if n in new:
                picked.add(n)
                need |= r


# ---- valuations of what cpuid reports -----------------------------------------------------------------------------------
MAXIMA = (0, 1, 6, 7, 0xffffffff)
E1 = [n for n in BITS if BITS[n][:2] == (1, "ecx")]
E7 = sorted({BITS[n][2] for n in BITS if BITS[n][0] == 7})


def valuations():
    """(maximum leaf, leaf 1 ecx, leaf 7 ebx, every other word)."""
    k1 = [BITS[n][2] for n in E1]
    all1, all7 = sum(1 << b for b in k1), sum(1 << b for b in E7)
    out = []
    for top in MAXIMA:
        for other in (0, 0xffffffff):
            for i in range(1 << len(k1)):
                e1 = (other & ~all1) | sum(1 << b for j, b in enumerate(k1) if i >> j & 1)
                for j in range(1 << len(E7)):
                    out.append((top, e1, (other & ~all7) | sum(1 << b for h, b in enumerate(E7) if j >> h & 1), other))
    return out


def supports(v, ext):
    leaf, _, b = BITS[ext]
    return v[0] >= leaf and bool(v[1 if leaf == 1 else 2] >> b & 1)


def table(paths, vals):
    """for every valuation, the path it takes."""
    words = {word(0, 0, "eax"): 0, word(1, 0, "ecx"): 1, word(7, 0, "ebx"): 2}
    memo = {}

    def column(c):
        if c not in memo:
            vs = evalt.leaves(c)
            for v in vs:
                if v.op != "sym" or not str(v.a[0]).startswith("cpuid"):
                    raise AnalysisError("the choice depends on %r" % v)
            f = evalt.compile_fn(c, vs)
            idx = [words.get(v, 3) for v in vs]
            seen = {}
            col = []
            for x in vals:
                k = tuple(x[i] for i in idx)
                r = seen.get(k)
                if r is None:
                    r = seen[k] = f(*k) & 1
                col.append(r)
            memo[c] = col
        return memo[c]
    left = []
    for p in paths:
        live = range(len(vals))
        for c, want in p.state.poly.facts.items():
            col = column(c)
            live = [i for i in live if col[i] == want]
        left.append(live)
    out = [None] * len(vals)
    for p, live in zip(paths, left):
        for i in live:
            if out[i] is not None:
                raise AnalysisError("two ways through for one processor")
            out[i] = p
    if any(p is None for p in out):
        raise AnalysisError("no way through for some processor")
    return out


def describe(v):
    have = [n for n in BITS if supports(v, n) and n not in ("sha_2", "adx")]
    return "a processor with cpuid leaves up to %d and %s" % (v[0], ", ".join(have) or "no extension")


# ---- the checks -------------------------------------------------------------------------------------------------------
def started(ctx, m, eng, order):
    """states in which static data are initialised."""
    sts = [State()]
    for n in order:
        nxt = []
        for s in sts:
            for p in eng.start(n, [], s):
                if p.kind != "ret":
                    raise AnalysisError("static initialisation does not return")
                nxt.append(p.state)
        sts = nxt
    return sts


def family(name):
    return next(f for k, f in FAMILY.items() if name.startswith(k))


def one(ctx, m, asm, order, how, settled=True):
    vals = valuations()
    mods, back = models(m, asm)
    eng = Engine(m, mods)
    eng.startup = True
    states = {}
    n, s = sym("n", 64), Region("state", None, "arg")
    d, p = Region("dst", None, "arg"), Region("src", None, "arg")
    args = {"": [n, Ptr(s), Ptr(p)], "transform": [n, Ptr(s), Ptr(d), Ptr(p)], "generate": [n, Ptr(s), Ptr(d)], "size": []}

    def follow(fn, a):
        out = []
        first = tuple(wanted(m, order, fn))
        if first not in states:
            states[first] = started(ctx, m, eng, first)
        for b in states[first]:
            ps = eng.start(fn, a, b.clone())
            out += ps
        for q in out:
            ctx.count("ways_through")
            if q.kind != "ret":
                raise AnalysisError("%s does not return" % fn)
        return out

    def verdict(name, fn, tab, prefer, force, op):
        """per valuation: the implementation used."""
        fam = family(name)
        impl, told = {}, set()
        for q in {id(q): q for q in tab}.values():
            ev = [e for e in q.state.trace if e.kind == "chosen"]
            if len(ev) != 1:
                ctx.bad("dispatch:" + name, "%s (%s): %d implementations called" % (fn, how, len(ev)))
                return None
            e = ev[0]
            cls, o = e.extra
            f, w = cls.split(":")
            a = args["" if op == "blocks" else op]
            same = len(e.args) == len(a) and all(x is y or isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.off == y.off
                                                 for x, y in zip(e.args, a))
            ctx.check(same, "dispatch:" + name, "%s (%s): %s is not given the request's own arguments" % (fn, how, cls))
            ctx.check(f == fam and o == op, "dispatch:" + name, "%s (%s): carried out by %s %s" % (fn, how, cls, o))
            if op != "blocks":
                ctx.check(q.val is e.ret, "dispatch:" + name, "%s (%s): the number of blocks done is not what %s reports" % (fn, how, cls))
            impl[id(q)] = (w, e.name)
        res = []
        for v, q in zip(vals, tab):
            w, sy = impl[id(q)]
            res.append(w)
            if force:
                if w != force:
                    told.add(("%s is used although the caller insists on %s" % (w, force), ""))
                continue
            for ext, where in asm.needs.get(sy, {}).items():
                if not supports(v, ext):
                    told.add(("%s needs %s (%s) and is chosen without it" % (w, ext, where), describe(v)))
            if prefer and settled and w != prefer and v[3] and all(supports(v, x) for x in BITS):
                told.add(("%s is used although %s is preferred and the processor has every extension" % (w, prefer), describe(v)))
        kinds = {}
        for t, dsc in told:
            kinds.setdefault(t, dsc)
        for t, dsc in sorted(kinds.items()):
            ctx.bad("dispatch:" + name, "%s (%s): %s%s" % (fn, how, t, ", on " + dsc if dsc else ""))
        if not kinds:
            ctx.ok("dispatch:" + name)
        ctx.count("processors_decided", len(vals))
        return res

    have = set()
    for name, (prefer, force) in HASH.items():
        for ch in ("", "_char"):
            fn = "d_" + name + ch
            if fn not in m.funcs:
                continue
            have.add(name)
            tab = table(follow(fn, args[""]), vals)
            verdict(name, fn, tab, prefer, force, "blocks")
            ctx.count("requests")
    for name, (prefer, force) in CIPHER.items():
        if "d_%s_size" % name not in m.funcs:
            continue
        have.add(name)
        got = {}
        for op in ("transform", "transform_char", "generate"):
            fn = "d_%s_%s" % (name, op)
            got[op] = verdict(name, fn, table(follow(fn, args[op.split("_")[0]]), vals), prefer, force, op.split("_")[0])
            ctx.count("requests")
        sizes = table(follow("d_%s_size" % name, []), vals)
        ctx.count("requests")
        if None in got.values():
            continue
        bad = None
        for i, q in enumerate(sizes):
            ws = {got[o][i] for o in got}
            if len(ws) > 1:
                bad = "operations of one cipher are carried out by %s, on %s" % (" and ".join(sorted(ws)), describe(vals[i]))
                break
            w = ws.pop()
            if q.val != probe.const_global(m, "d_bytes_" + w):
                bad = "the step is %s bytes although %s does %d, on %s" % (q.val, w, probe.const_global(m, "d_bytes_" + w), describe(vals[i]))
                break
        ctx.check(bad is None, "dispatch:" + name, "%s (%s): %s" % (name, how, bad))
    ctx.engine(eng)
    return have


def run(ctx):
    ctx.rule("static initialisation and dispatch are followed with the answers of cpuid unknown: for every answer, the "
             "implementation called uses only instructions (read off its assembled code) whose extension cpuid reports in a leaf "
             "the processor has; it gets the request's arguments; one implementation serves all operations of a cipher; a "
             "preferred one is used where supported, an insisted one always")
    asm = Asm()
    ctx.count("assembly_functions", len(asm.needs))
    ctx.note("the operating system saves the vector registers of every extension the processor reports (XGETBV is not asked)")
    m = probe.load("dispatch.cpp")
    m0 = probe.load("dispatch.cpp", ["-UMILO_INTERNAL_ASM", "-DMILO_INTERNAL_ASM=false"])
    order = ctors(m)
    late = [e for e in order if "impl_runtime_reader" in "".join(e[1])]
    ctx.check(bool(order), "dispatch:init", "no static initialisation")
    have = set()
    orders = [(order, "static data initialised in order")]
    # static members of class templates are initialised in no particular order with respect to others
    if late:
        orders.append((late + [e for e in order if e not in late], "class templates' static data initialised first"))
    for o, how in orders:
        have |= one(ctx, m, asm, o, how, o is order)
    for n in list(HASH) + list(CIPHER):
        ctx.check(n in have, "dispatch:" + n, "%s cannot be asked for" % n)
    one(ctx, m0, Asm(True), ctors(m0), "built without assembly")
    ctx.expect("requests", 50)


def plain(ctx, m):
    """built without assembly: everything is portable."""
    one(ctx, m, Asm(True), ctors(m), "built without assembly")
