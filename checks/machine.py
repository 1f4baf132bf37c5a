"""The assembly functions: what they compute, and what they leave to their caller."""
from absint import AnalysisError
from canon import Bits, CanonError, GARB, Lin, is_pub, lsym
from kern import IR, KPtr, KReg, KState
import kernels
import probe
import x86

HASHES = {"sha_1_160": "hash_sha_1_160", "sha_2_256": "hash_sha_2_256"}
CIPHERS = ("ssse_3", "avx_2")


class Asm:
    """every assembly file for one calling convention."""
    def __init__(self, abi):
        self.abi = abi
        self.by = {}
        for f in x86.files():
            c = x86.assemble(f, abi)
            for s in c.symbols:
                self.by[s] = c

    def skews(self, sym):
        """residues of the stack's address to tell apart."""
        n = 16
        for x in self.by[sym].code.values():
            if x.mn == "and" and isinstance(x.ops[0], x86.Gpr) and x.ops[0].r == "rsp" and isinstance(x.ops[1], int):
                m = x.ops[1] & 0xffffffff
                n = max(n, min((1 << 32) - m, 64))
        return range(8, n, 16)


def glue(m, asm, fn, args, D):
    """the C++ side: which assembly function it calls, with what, and what it makes of the result."""
    made = []

    def model(sym):
        def f(M, st, a):
            made.append((sym, list(a)))
            return lsym("done")
        return f
    M = IR(m, D, {s: model(s) for s in asm.by})
    ends = M.call(fn, args)
    if len(ends) != 1 or len(made) != 1:
        raise CanonError("%d calls of assembly on %d ways through" % (len(made), len(ends)))
    return made[0][0], made[0][1], ends[0].ret, M.steps


def scenarios(tier):
    """(C++ side, kind, calling convention, residue index)."""
    for abi in ("unix", "wind"):
        for h in HASHES:
            for ch in ("", "_char") if tier != "quick" else ("",):
                yield "hw_" + h + ch, "hash", h, abi
        for c in CIPHERS:
            for op in ("transform", "generate") + (("transform_char",) if tier != "quick" else ()):
                yield "hw_%s_%s" % (c, op), op.split("_")[0], c, abi


def follow(ctx, m, asm, fn, kind, what, k, cb, name):
    """run the C++ side and the assembly; cb(D, M, ends, regions, ret) decides."""
    D = Bits()
    w = 4
    state, src, dst = KReg("state", None, "arg", w, D), KReg("src", None, "arg", 1, D), KReg("dst", None, "arg", 0, D)
    args = [lsym("n"), KPtr(state)] + ([KPtr(src)] if kind == "hash" else [KPtr(dst)] + ([KPtr(src)] if kind == "transform" else []))

    def go():
        sym, a, ret, n = glue(m, asm, fn, args, D)
        sk = asm.skews(sym)
        if k >= len(sk):
            return
        M = x86.X86(asm.by[sym], D, asm.abi, sk[k])
        ends = M.call(sym, a)
        ctx.count("machine_instructions_followed", M.steps)
        ctx.count("assembly_runs")
        ctx.funcs.add(sym)
        cb(D, M, ends, (state, src, dst), ret, sym, "%s (%s, stack at %d modulo 64)" % (what, asm.abi, sk[k]))
    kernels.analysed(ctx, name, what + " (" + asm.abi + ")", go)


def load(ctx):
    m = probe.load("machine.cpp")
    asms = {abi: Asm(abi) for abi in ("unix", "wind")}
    return m, asms


def run_functions(ctx):
    ctx.rule("machine code and its C++ caller, lane by lane: the chaining value or keystream after any number of blocks is "
             "the standard's, accesses of the caller's memory stay inside the state and the blocks, and the number of "
             "blocks reported is the number done")
    m, asms = load(ctx)
    for h in HASHES:
        ctx.check(probe.const_global(m, "hw_%s_block" % h) == 64, "machine:" + h, "%s: block size" % h)
    for c in CIPHERS:
        ctx.check(probe.const_global(m, "hw_%s_block" % c) == 64, "machine:" + c, "%s: block size" % c)
    for fn, kind, alg, abi in scenarios(ctx.tier):
        for k in range(4):
            def job(c, fn=fn, kind=kind, alg=alg, abi=abi, k=k):
                def cb(D, M, ends, regs, ret, sym, what):
                    state, src, dst = regs
                    if kind == "hash":
                        F, count, w = kernels.HASHES[HASHES[alg]]
                        kernels.hash_kernel(c, M, ends, alg, what, F, count, w, state, src)
                    else:
                        ratio = probe.const_global(m, "hw_%s_ratio" % alg)
                        c.check(ret == lsym("done"), "machine:" + alg, "%s: the C++ side returns %r" % (what, ret))
                        kernels.cipher_kernel(c, M, ends, alg, what, ratio, state, src if kind == "transform" else None, dst)
                follow(c, m, asms[abi], fn, kind, fn, k, cb, alg)
            if k < len(asms[abi].skews(next(s for s in asms[abi].by if alg in s))):
                ctx.defer(job)
    ctx.join()
    ctx.expect("block_functions", 16)


def run_convention(ctx):
    ctx.rule("at every return of every assembly function, for every number of blocks and both calling conventions: the "
             "callee-saved registers and the stack pointer are the caller's, upper vector halves are clear; stack accesses "
             "stay in the function's frame; aligned accesses are aligned; no branch and no address depends on data")
    m, asms = load(ctx)
    covered = set()
    for fn, kind, alg, abi in scenarios("quick"):
        for k in range(4):
            def job(c, fn=fn, kind=kind, alg=alg, abi=abi, k=k):
                def cb(D, M, ends, regs, ret, sym, what):
                    verdict(c, M, alg, what)
                follow(c, m, asms[abi], fn, kind, fn, k, cb, alg)
            if k < len(asms[abi].skews(next(s for s in asms[abi].by if alg in s))):
                ctx.defer(job)
        covered.add(alg)
    ctx.join()
    for abi in asms:
        cpuid(ctx, m, asms[abi])
    # no assembly function outside the analysis
    for abi, asm in asms.items():
        for s in asm.by:
            ctx.check(s in ctx.funcs, "machine:" + s, "%s is not reached from the C++ side of any implementation" % s)
    ctx.expect("assembly_runs", 18)


def verdict(c, M, name, what):
    for t in M.problems:
        c.bad("convention:" + name, "%s: %s" % (what, t))
    if not M.problems:
        c.ok("convention:" + name)
    c.count("assembly_memory_accesses", M.accesses)
    c.count("returns_checked", getattr(M, "returns", 0))
    c.check(getattr(M, "returns", 0) > 0, "convention:" + name, "%s: no return is reached" % what)


def cpuid(ctx, m, asm):
    """the wrapper of the cpuid instruction."""
    for fn, two in (("hw_cpuid", True), ("hw_cpuid_leaf", False)):
        D = Bits()
        out = KReg("info", 16, "arg", 0, D)
        leaf, sub = D.atom("leaf", 32), D.atom("subleaf", 32)
        what = "%s (%s)" % (fn, asm.abi)

        def go():
            sym, a, _, _ = glue(m, asm, fn, [KPtr(out), leaf] + ([sub] if two else []), D)
            wide = []
            for i, v in enumerate(a):
                if isinstance(v, KPtr):
                    wide.append(v)
                else:
                    # the upper half of a 32-bit argument's register is anything
                    wide.append(D.cat([(D.data(32, v) if isinstance(v, int) else v, 32), (D.atom("junk%d" % i, 32), 32)]))
            M = x86.X86(asm.by[sym], D, asm.abi, 8)
            ends = M.call(sym, wide)
            verdict(ctx, M, "cpuid", what)
            ctx.funcs.add(sym)
            ctx.count("assembly_runs")
            for s in ends:
                want = (leaf, sub if two else 0)
                ok = len(s.events) == 1 and all(x is y or isinstance(x, int) and x == y for x, y in zip(s.events[0], want))
                ctx.check(ok, "machine:cpuid", "%s: leaf and subleaf are not passed on" % what)
                for i, r in enumerate(("rax", "rbx", "rcx", "rdx")):
                    v = M.peek(s, out, 4 * i, 4)
                    ctx.check(v is D.atom("cpuid1.%s" % r, 32), "machine:cpuid", "%s: word %d is not %s" % (what, i, r))
                for a in s.log:
                    ctx.check(a[0] == "w" and isinstance(a[2], int) and a[2] >= 0 and a[2] + a[3] <= 16, "machine:cpuid",
                              "%s: %r outside the four words" % (what, a[2]))
        kernels.analysed(ctx, "cpuid", what, go)
