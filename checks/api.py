"""What the whole public interface does whatever it is called with: where exceptions can start and end, what is
allocated, how much stack is needed and which memory outside the objects is touched.

The witness instantiates every overload of every class and one-call function of the interface with the types a user
has; the rules are decided over the call graph and the instructions of everything that is reached from there."""
import collections
import os
import re
import subprocess

import build
import llvm
import probe
from probe import locstr

NEW = re.compile(r"^_Zn[wa]|^(malloc|calloc|realloc|reallocarray|aligned_alloc|posix_memalign|memalign|valloc|strdup|mmap|brk|sbrk)$")
QUIET = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "__gxx_personality_v0", "explicit_bzero"}
UNWIND = {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw",
          "__cxa_rethrow", "__clang_call_terminate", "_ZSt9terminatev", "__cxa_get_exception_ptr", "_Unwind_Resume",
          "__cxa_call_unexpected"}
ONCE = {"__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"}
TERMINATE = {"__clang_call_terminate", "_ZSt9terminatev"}
ERROR = "_ZTIN4milo5errorE"
ASM = re.compile(r"^milo_(internal|primitive)_")


def demangle(names):
    names = sorted(names)
    tool = next((t for t in ("/usr/lib/llvm-18/bin/llvm-cxxfilt", "/usr/bin/llvm-cxxfilt-18", "/usr/bin/llvm-cxxfilt") if os.path.exists(t)), "c++filt")
    r = subprocess.run([tool], input="\n".join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, r.stdout.split("\n")))


def short(text):
    text = text.replace("milo::primitive::", "").replace("milo::", "")
    text = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string", text)
    text = re.sub(r", std::allocator<[a-z ]*> ", "", text)
    return text if len(text) < 240 else text[:237] + "..."


class Graph:
    """calls between functions; indirect calls go to every function whose address is taken and that has this shape."""

    def __init__(self, m):
        self.m = m
        self.names = demangle(m.funcs)
        taken = set()
        for f in m.funcs.values():
            for b in f.blocks:
                for x in b.instrs:
                    for o in x.ops or ():
                        self.taken(o, taken)
        seen = set()
        for g in m.globals.values():
            if g.init is not None and not g.name.startswith("llvm."):
                self.taken(g.init, taken, seen)
        self.shapes = collections.defaultdict(list)
        for f in taken:
            self.shapes[self.shape(f.ret, [a.ty for a in f.args])].append(f)
        self.calls = {}
        for f in m.funcs.values():
            if f.decl:
                continue
            self.calls[f.name] = [(x, self.targets(x)) for b in f.blocks for x in b.instrs if x.op in ("call", "invoke")]

    def taken(self, o, out, seen=None):
        k = o.kind
        if k == "func":
            if not o.intrinsic:
                out.add(o)
        elif k == "cexpr":
            for q in o.ops:
                self.taken(q, out, seen)
        elif k == "agg":
            for q in o.elems:
                self.taken(q, out, seen)

    @staticmethod
    def shape(ret, args):
        return repr(ret), tuple(repr(a) for a in args)

    def targets(self, x):
        c = x.callee
        while c.kind == "cexpr":
            c = c.ops[0]
        if c.kind == "func":
            return [c]
        if c.kind == "asm":
            return []
        return self.shapes.get(self.shape(x.ty, [o.ty for o in x.ops]), []) or [None]

    def name(self, f):
        return short(self.names.get(f, f))

    def reach(self, roots):
        """name -> (caller, call) by which it was first reached."""
        seen = {r: None for r in roots}
        todo = collections.deque(roots)
        while todo:
            n = todo.popleft()
            for x, ts in self.calls.get(n, ()):
                for t in ts:
                    if t is not None and t.name not in seen:
                        seen[t.name] = (n, x)
                        todo.append(t.name)
        return seen

    def path(self, seen, n):
        out = []
        while n is not None:
            p = seen[n]
            out.append(self.name(n) + (" (called at %s)" % locstr(p[1].loc) if p else ""))
            n = p[0] if p else None
        return "\n  from ".join(out[:12])


def pads(f):
    """landing pad block -> (terminates, may resume, may throw on)"""
    out = {}
    for b in f.blocks:
        if not b.instrs or b.instrs[0].op != "landingpad" and not any(x.op == "landingpad" for x in b.instrs):
            continue
        seen, todo = {b}, [b]
        resume = rethrow = False
        term = False
        while todo:
            q = todo.pop()
            stop = False
            for x in q.instrs:
                if x.op in ("call", "invoke") and x.callee.kind == "func":
                    if x.callee.name in TERMINATE:
                        term = term or q is b
                        stop = True
                        break
                    if x.callee.name == "__cxa_rethrow":
                        rethrow = True
                if x.op == "resume":
                    resume = True
            if stop:
                continue
            for s in (q.succs() or ()):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        out[b] = (term, resume, rethrow, [o for x in b.instrs if x.op == "landingpad" for o in x.ops])
    return out


def exceptions(gr):
    """what escapes each function (types), and the calls whose exception ends the program."""
    m = gr.m
    out = {n: set() for n in gr.calls}
    lp = {n: pads(m.funcs[n]) for n in gr.calls}
    why = {}

    def from_call(x, ts):
        r = set()
        if x.nounwind:
            return r
        for t in ts:
            if t is None:
                r.add("unknown")
            elif t.name == "__cxa_throw":
                o = x.ops[1]
                while o.kind == "cexpr":
                    o = o.ops[0]
                r.add(o.name if o.kind == "global" else "unknown")
            elif t.name in ("__cxa_rethrow",):
                pass                                    # accounted for at the landing pad
            elif t.intrinsic or t.nounwind or t.name in QUIET or t.name in UNWIND or t.name in ONCE or ASM.match(t.name):
                pass
            elif t.decl:
                r.add("standard" if NEW.match(t.name) or t.name.startswith("_ZSt") else "unknown")
            else:
                r |= out[t.name]
        return r

    ends, swallowed = {}, {}
    again = True
    while again:
        again = False
        for n, cs in gr.calls.items():
            cur = out[n]
            for x, ts in cs:
                thrown = from_call(x, ts)
                if not thrown:
                    continue
                if x.op == "invoke":
                    pad = lp[n].get(x.succ[1])
                    if pad is None:
                        esc = thrown
                    else:
                        term, resume, rethrow, clauses = pad
                        if term:
                            ends[(n, x)] = set(thrown)
                            continue
                        esc = set()
                        for t in thrown:
                            caught = any(c.kind == "null" or c.kind == "global" and c.name == t for c in clauses)
                            if caught and rethrow or not caught and resume:
                                esc.add(t)
                            elif t != ERROR:
                                swallowed.setdefault((n, x), set()).add(t)
                else:
                    esc = thrown
                new = esc - cur
                if new:
                    cur |= new
                    again = True
                    for t in new:
                        why.setdefault((n, t), x)
    return out, ends, why, swallowed


def trace(gr, out, why, n, t):
    """where an exception of type t that leaves n comes from."""
    text = []
    seen = set()
    while n not in seen:
        seen.add(n)
        x = why.get((n, t))
        if x is None:
            break
        ts = gr.targets(x)
        text.append("%s at %s" % (gr.name(n), locstr(x.loc)))
        nxt = [q for q in ts if q is not None and q.name in out and t in out[q.name]]
        if not nxt:
            text.append("which calls %s" % ", ".join(gr.name(q.name) if q is not None else "an unknown function" for q in ts))
            break
        n = nxt[0].name
    return "\n  thrown through ".join(text)


def load(ctx):
    m = probe.load("api.cpp", flags=["-DALL"] if ctx.tier == "thorough" else [])
    gr = Graph(m)
    roots = collections.defaultdict(list)
    for n, f in m.funcs.items():
        mm = re.match(r"_ZN5roots\d+(plain|fixed|thrown|quiet|grown)\d", n)
        if mm and not f.decl:
            roots[mm.group(1)].append(n)
    for k, least in (("plain", 70), ("fixed", 80), ("thrown", 20), ("quiet", 5), ("grown", 70)):
        ctx.count("roots_" + k, len(roots[k]))
        ctx.expect("roots_" + k, least)
    return m, gr, roots


def ours(gr, n):
    return "milo" in gr.m.funcs[n].file.split("/src/")[-1] and "/src/milo/" in gr.m.funcs[n].file


def run_throw(ctx):
    """nothing ends the program, errors by reference never throw, what is thrown is milo::error."""
    ctx.rule("for every function reached from the public interface: no call that may throw has a landing pad that "
             "terminates; what escapes is nothing (pointers, fixed size), milo::error (throwing overloads over those), "
             "or what allocation throws (containers that grow), and milo::error too when no error is taken by reference; "
             "no function of the library catches what allocation throws without throwing it on")
    m, gr, roots = load(ctx)
    out, ends, why, swallowed = exceptions(gr)
    allroots = [r for k in roots for r in roots[k]]
    seen = gr.reach(allroots)
    for n in seen:
        f = m.funcs[n]
        if f.decl:
            continue
        bad = [(x, t) for (q, x), t in ends.items() if q == n]
        ctx.count("functions_analysed_for_throwing")
        if ours(gr, n):
            ctx.funcs.add(gr.name(n))
        if bad:
            x, ts = bad[0]
            src = gr.targets(x)
            t = sorted(ts)[0]
            first = [q for q in src if q is not None and t in out.get(q.name, ())]
            ctx.bad("terminates:" + n, "an exception ends the program: %s promises not to throw, but the call at %s may throw (%s)\n  %s\n reached %s" % (
                gr.name(n), locstr(x.loc), t, trace(gr, out, why, first[0].name, t) if first else
                "calls " + ", ".join(gr.name(q.name) if q is not None else "an unknown function" for q in src), gr.path(seen, n)))
        elif any(q == n for q, x in swallowed) and ours(gr, n):
            x = [x for q, x in swallowed if q == n][0]
            ctx.bad("swallowed:" + n, "%s keeps to itself what the call at %s throws (%s)\n reached %s" % (
                gr.name(n), locstr(x.loc), ", ".join(sorted(swallowed[(n, x)])), gr.path(seen, n)))
        else:
            ctx.ok(n)
    allowed = {"plain": set(), "fixed": set(), "thrown": {ERROR}, "quiet": {"standard"}, "grown": {ERROR, "standard"}}
    for k, rs in roots.items():
        for r in rs:
            extra = out[r] - allowed[k]
            for t in sorted(extra):
                ctx.bad("throws:%s:%s" % (r, t), "%s may throw %s\n  %s" % (
                    gr.name(r), "milo::error" if t == ERROR else t, trace(gr, out, why, r, t)))
            if not extra:
                ctx.ok(r)
            if k == "grown":
                ctx.check("standard" in out[r], "kept:" + r, "%s: what the container throws does not reach the caller" % gr.name(r))
            if k == "thrown" and ERROR not in out[r]:
                ctx.bad("silent:" + r, "%s takes no error and throws none" % gr.name(r))
    for n in seen:
        if n in gr.calls and ours(gr, n):
            for x, ts in gr.calls[n]:
                if any(t is not None and t.name == "__cxa_throw" for t in ts):
                    o = x.ops[1]
                    ctx.count("throw_sites")
                    ctx.check(o.kind == "global" and o.name == ERROR, "throw:%s" % n,
                              "%s throws something else than milo::error (%s) at %s" % (gr.name(n), getattr(o, "name", "?"), locstr(x.loc)))
    ctx.expect("functions_analysed_for_throwing", 1500)
    ctx.expect("throw_sites", 5)


def run_alloc(ctx):
    """pointer and fixed-size interfaces: no allocation, nothing called outside the library, bounded stack."""
    ctx.rule("nothing reached from the pointer and fixed-size interface calls an allocation function or anything outside "
             "the library but the memory functions, the exception machinery where errors are thrown, and the library's assembly; "
             "no recursion and no variable-sized stack object, so that the stack needed has a bound")
    m, gr, roots = load(ctx)
    for k in ("plain", "fixed", "thrown"):
        seen = gr.reach(roots[k])
        for n in seen:
            f = m.funcs[n]
            ctx.count("functions_reached_" + k)
            if not f.decl:
                if ours(gr, n):
                    ctx.funcs.add(gr.name(n))
                for b in f.blocks:
                    for x in b.instrs:
                        if x.op == "alloca":
                            ctx.count("stack_objects")
                            ctx.check(x.ops[0].kind == "const", "alloca:" + n, "%s has a stack object of variable size at %s" % (gr.name(n), locstr(x.loc)))
                for x, ts in gr.calls[n]:
                    ctx.count("call_sites")
                    if None in ts:
                        ctx.bad("indirect:" + n, "%s calls through a pointer that no known function fits, at %s" % (gr.name(n), locstr(x.loc)))
                    if x.callee.kind == "asm" and x.callee.text.strip():
                        ctx.bad("asm:" + n, "%s has inline assembly that is not understood at %s" % (gr.name(n), locstr(x.loc)))
                ctx.ok(n)
                continue
            if f.intrinsic or n in QUIET or ASM.match(n) or n in ONCE or n in TERMINATE or n in ("__cxa_begin_catch",):
                ctx.ok(n)
            elif k == "thrown" and n in UNWIND:
                ctx.ok(n)
            elif n.startswith("_ZSt") and "terminate" not in n and n.startswith(("_ZSt20__throw", "_ZSt21__glibcxx_assert_fail")):
                ctx.ok(n)
            elif NEW.match(n):
                ctx.bad("allocates:" + k, "memory is allocated (%s) behind the %s interface:\n  %s" % (gr.name(n), k, gr.path(seen, n)))
            else:
                ctx.bad("outside:%s:%s" % (k, n), "%s, outside the library, is called behind the %s interface:\n  %s" % (gr.name(n), k, gr.path(seen, n)))
        # recursion
        state, stack = {}, []

        def visit(r):
            todo = [(r, iter([t.name for x, ts in gr.calls.get(r, ()) for t in ts if t is not None]))]
            state[r] = 1
            while todo:
                n, it = todo[-1]
                for q in it:
                    s = state.get(q)
                    if s == 1:
                        return [a for a, _ in todo] + [q]
                    if s is None:
                        state[q] = 1
                        todo.append((q, iter([t.name for x, ts in gr.calls.get(q, ()) for t in ts if t is not None])))
                        break
                else:
                    state[n] = 2
                    todo.pop()
            return None

        for r in roots[k]:
            if r in state:
                continue
            loop = visit(r)
            if loop:
                i = loop.index(loop[-1])
                ctx.bad("recursion:" + loop[-1], "recursion behind the %s interface: %s" % (k, " -> ".join(gr.name(q) for q in loop[i:])))
                break
        else:
            ctx.ok("recursion " + k)
    ctx.expect("functions_reached_plain", 500)
    ctx.expect("functions_reached_fixed", 600)
    ctx.expect("call_sites", 3000)


def run_state(ctx):
    """no modifiable memory outside the objects."""
    ctx.rule("every modifiable global the public interface reaches is only read there: no instruction stores to it, and no "
             "address of it is passed on, kept or returned except to functions that only read it; it is written by static "
             "initialisation alone (or once, under its guard); no function declared const writes through its object")
    m, gr, roots = load(ctx)
    seen = gr.reach([r for k in roots for r in roots[k]])
    ro = {}

    def only_read(f, i, depth=0):
        """parameter i of f: nothing is stored through it, and its address goes nowhere."""
        key = (f.name, i)
        if key in ro:
            return ro[key]
        ro[key] = None                                   # assumed while it is looked at (recursion)
        if f.decl:
            ok = f.intrinsic and f.name.startswith(("llvm.memcpy", "llvm.memmove")) and i == 1 or \
                f.intrinsic and f.name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.invariant", "llvm.assume")) or \
                f.name in ("memcmp", "bcmp", "strlen", "memchr") or f.name in ("memcpy", "memmove") and i == 1
            ro[key] = None if ok else "it is passed to %s" % gr.name(f.name)
            return ro[key]
        ro[key] = uses(f, {("arg", i)}, lambda v: v.kind == "arg" and v.index == i)
        return ro[key]

    def uses(f, _, is_root, allowed=lambda b: False):
        """why the addresses derived from the root are not just read, or None."""
        derived = set()

        def rooted(v):
            if is_root(v) or v in derived:
                return True
            return v.kind == "cexpr" and any(rooted(o) for o in v.ops)
        grow = True
        while grow:
            grow = False
            for b in f.blocks:
                for x in b.instrs:
                    if x in derived:
                        continue
                    if x.op in ("getelementptr", "bitcast", "addrspacecast", "phi", "select", "freeze") and any(rooted(o) for o in x.ops) or \
                            x.op in ("insertvalue", "extractvalue") and any(rooted(o) for o in x.ops):
                        derived.add(x)
                        grow = True
        # locals that hold the address
        for b in f.blocks:
            if allowed(b):
                continue
            for x in b.instrs:
                if x.op == "store":
                    if rooted(x.ops[1]):
                        return "it is written at %s" % locstr(x.loc)
                    if rooted(x.ops[0]):
                        bad = kept(f, x.ops[1], x)
                        if bad:
                            return bad
                elif x.op in ("atomicrmw", "cmpxchg") and any(rooted(o) for o in x.ops):
                    return "it is written at %s" % locstr(x.loc)
                elif x.op in ("ptrtoint",) and any(rooted(o) for o in x.ops):
                    return "its address becomes a number at %s" % locstr(x.loc)
                elif x.op == "ret" and x.ops and rooted(x.ops[0]):
                    return RETURNED
                elif x.op in ("call", "invoke"):
                    for i, o in enumerate(x.ops):
                        if not rooted(o):
                            continue
                        for t in gr.targets(x):
                            if t is None:
                                return "its address is passed to an unknown function at %s" % locstr(x.loc)
                            if i >= len(t.args):
                                return "its address is passed at %s" % locstr(x.loc)
                            r = only_read(t, i)
                            if r is RETURNED:
                                if x not in derived:
                                    derived.add(x)
                                    r = uses(f, None, lambda v, x=x: v is x, allowed)
                                else:
                                    r = None
                            if r:
                                return "%s, in %s called at %s" % (r, gr.name(t.name), locstr(x.loc))
        return None

    def kept(f, where, x):
        """the address is stored in `where`: fine for a local that is only loaded from."""
        if where.kind != "inst" or where.op != "alloca":
            return "its address is kept at %s" % locstr(x.loc)
        loads = set()
        for b in f.blocks:
            for y in b.instrs:
                if where in (y.ops or ()):
                    if y.op == "load":
                        loads.add(y)
                    elif y.op == "store" and y.ops[1] is where or y.op in ("call",) and y.callee.kind == "func" and y.callee.intrinsic and y.callee.name.startswith(("llvm.lifetime", "llvm.dbg")):
                        continue
                    elif y is not x:
                        return "its address is kept at %s" % locstr(x.loc)
        if loads:
            return uses(f, None, lambda v: v in loads)
        return None

    RETURNED = "its address is returned"

    def guarded(f, g):
        """the blocks between taking and releasing the guard of a static of f."""
        inside = set()
        guards = [q for q in m.globals.values() if q.name.startswith("_ZGV") and q.name[4:] == g.name[2:]]
        for b in f.blocks:
            for x in b.instrs:
                if x.op in ("call", "invoke") and x.callee.kind == "func" and x.callee.name == "__cxa_guard_acquire" and x.ops[0] in guards:
                    after, todo = set(), list(b.succs())
                    while todo:
                        q = todo.pop()
                        if q in after:
                            continue
                        after.add(q)
                        if any(y.op in ("call", "invoke") and y.callee.kind == "func" and y.callee.name in ("__cxa_guard_release", "__cxa_guard_abort") for y in q.instrs):
                            continue
                        todo += list(q.succs() or ())
                    # those from which the release can still come
                    rel = {q for q in after if any(y.op in ("call", "invoke") and y.callee.kind == "func" and y.callee.name in ("__cxa_guard_release", "__cxa_guard_abort") for y in q.instrs)}
                    change = True
                    while change:
                        change = False
                        for q in after:
                            if q not in rel and any(s in rel for s in (q.succs() or ())):
                                rel.add(q)
                                change = True
                    inside |= rel
        return inside

    # which globals are modifiable and reached
    used = collections.defaultdict(set)

    def globals_in(v, out):
        if v.kind == "global":
            out.add(v)
        elif v.kind == "cexpr":
            for o in v.ops:
                globals_in(o, out)
        elif v.kind == "agg":
            for o in v.elems:
                globals_in(o, out)
    for n in seen:
        f = m.funcs[n]
        if f.decl:
            continue
        ctx.count("functions_reached")
        if ours(gr, n):
            ctx.funcs.add(gr.name(n))
        found = set()
        for b in f.blocks:
            for x in b.instrs:
                for o in x.ops or ():
                    globals_in(o, found)
        for g in found:
            used[g].add(n)
        # those only read by their initialiser's own constant are constants
        ctx.ok(n)
    names = demangle([g.name for g in used])
    for g, fs in sorted(used.items(), key=lambda t: t[0].name):
        if g.const or g.name.startswith(("llvm.", "_ZTI", "_ZTS", "_ZTV", "_ZGV")):
            ctx.count("constants_read")
            continue
        ctx.count("modifiable_globals_reached")
        for n in sorted(fs):
            f = m.funcs[n]
            inside = guarded(f, g)
            why = uses(f, None, lambda v: v is g, lambda b: b in inside)
            if why is RETURNED:
                bad = [c for c in seen for x, ts in gr.calls.get(c, ()) if any(t is f for t in ts)
                       and uses(m.funcs[c], None, lambda v, x=x: v is x)]
                why = RETURNED + " and used in %s" % gr.name(bad[0]) if bad else None
            ctx.check(why is None, "state:" + g.name, "%s is modifiable state outside the objects, reached from the public interface in %s: %s\n  %s" % (
                names[g.name], gr.name(n), why, gr.path(seen, n)))
        if g.tls:
            ctx.note("%s is one per thread" % names[g.name])
    for n in seen:
        f = m.funcs[n]
        if n.startswith("_ZNK4milo") and not f.decl and f.args:
            i = 1 if f.args[0].sret else 0
            if i >= len(f.args) or f.args[i].ty.kind != "ptr":
                continue
            why = uses(f, None, lambda v: v.kind == "arg" and v.index == i)
            ctx.count("const_functions")
            ctx.check(why is None or why is RETURNED, "const:" + n, "%s is declared const, but its object is not only read: %s" % (gr.name(n), why))
    ctx.expect("functions_reached", 1500)
    ctx.expect("modifiable_globals_reached", 3)
    ctx.expect("const_functions", 12)
