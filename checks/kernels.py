"""Block functions against the standards' definitions, over any number of blocks."""
from canon import Bits, Ints, I, Lin, CanonError, DataDecision, lsym, ladd, lmul, lsub, lsubst, decide, cond, nonneg, show, csubst, is_pub
from kern import IR, KReg, KPtr, KState
from absint import AnalysisError
import itertools
import kern
import probe


# ---- the standards --------------------------------------------------------------------------------------------
def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def root(n, k, bits):
    """first bits of the fraction of the k-th root of n."""
    t = n << k * bits
    lo, hi = 0, 1 << bits + 8
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= t:
            lo = m
        else:
            hi = m
    return lo & (1 << bits) - 1


K256 = [root(p, 3, 32) for p in primes(64)]
K512 = [root(p, 3, 64) for p in primes(80)]


def sha2(D, w, s, m, K, S0, S1, s0, s1):
    def R(x, k):
        return D.rotl(w, x, w - k)

    def x3(a, b, c):
        return D.xor(w, D.xor(w, a, b), c)
    W = list(m)
    for t in range(16, len(K)):
        a = x3(R(W[t - 15], s0[0]), R(W[t - 15], s0[1]), D.lshr(w, W[t - 15], s0[2]))
        b = x3(R(W[t - 2], s1[0]), R(W[t - 2], s1[1]), D.lshr(w, W[t - 2], s1[2]))
        W.append(D.add(w, D.add(w, b, W[t - 7]), D.add(w, a, W[t - 16])))
    a, b, c, d, e, f, g, h = s
    full = (1 << w) - 1
    for t in range(len(K)):
        ch = D.xor(w, D.and_(w, e, f), D.and_(w, D.xor(w, e, full), g))
        maj = x3(D.and_(w, a, b), D.and_(w, a, c), D.and_(w, b, c))
        t1 = D.add(w, D.add(w, D.add(w, h, x3(*[R(e, k) for k in S1])), D.add(w, ch, K[t])), W[t])
        t2 = D.add(w, x3(*[R(a, k) for k in S0]), maj)
        a, b, c, d, e, f, g, h = D.add(w, t1, t2), a, b, c, D.add(w, d, t1), e, f, g
    return [D.add(w, x, y) for x, y in zip(s, (a, b, c, d, e, f, g, h))]


def sha256(D, s, m):
    return sha2(D, 32, s, m, K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))


def sha512(D, s, m):
    return sha2(D, 64, s, m, K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))


def sha1_f(D, r, b, c, d):
    if r == 0:
        return D.xor(32, D.and_(32, b, c), D.and_(32, D.xor(32, b, 0xffffffff), d))
    if r == 2:
        return D.xor(32, D.xor(32, D.and_(32, b, c), D.and_(32, b, d)), D.and_(32, c, d))
    return D.xor(32, D.xor(32, b, c), d)


K160 = (0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6)


def sha1(D, s, m):
    W = list(m)
    for t in range(16, 80):
        W.append(D.rotl(32, D.xor(32, D.xor(32, W[t - 3], W[t - 8]), D.xor(32, W[t - 14], W[t - 16])), 1))
    a, b, c, d, e = s
    for t in range(80):
        x = D.add(32, D.add(32, D.rotl(32, a, 5), sha1_f(D, t // 20, b, c, d)), D.add(32, D.add(32, e, W[t]), K160[t // 20]))
        a, b, c, d, e = x, a, D.rotl(32, b, 30), c, d
    return [D.add(32, x, y) for x, y in zip(s, (a, b, c, d, e))]


def chacha(D, s):
    x = list(s)

    def q(a, b, c, d):
        for i, j, k, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            x[i] = D.add(32, x[i], x[j])
            x[k] = D.rotl(32, D.xor(32, x[k], x[i]), r)
    for _ in range(10):
        for i in range(4):
            q(i, 4 + i, 8 + i, 12 + i)
        for i in range(4):
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [D.add(32, a, b) for a, b in zip(x, s)]


HASHES = {"hash_sha_1_160": (sha1, 5, 4), "hash_sha_2_256": (sha256, 8, 4), "hash_sha_2_512": (sha512, 8, 8)}


# ---- loops ------------------------------------------------------------------------------------------------------
def turns(L, p, n):
    """Does the loop go on exactly while p + k < n? -> error or None. n: the symbol of the count."""
    if len(L.back) != 1:
        return "both outcomes of the loop's test go on, or none" if L.back else "the loop never goes on"
    c = L.back[0]
    k = lsym(L.k)
    # p + k + 1 + j blocks: goes on; p + k blocks: does not
    more = csubst(c, n, ladd(ladd(k, p + 1), lsym("more")))
    done = csubst(c, n, ladd(k, p))
    if decide(more) is not True:
        return "with %d + k of the blocks done and more left, the loop may stop (goes on when %r)" % (p, c)
    if decide(done) is not False:
        return "with all blocks done the loop may go on (goes on when %r)" % (c,)
    if not nonneg(ladd(lsym(n), -p), L.first.facts):
        return "%d blocks are processed whatever their number" % p
    return None


def span(log, kind, r, sym):
    """relative offsets a log reads or writes in r; None when another base is used."""
    out = []
    for a in log:
        if a[0] == kind and a[1] is r:
            s, c = (a[2].m, a[2].c) if isinstance(a[2], Lin) else ((), a[2])
            if s != sym:
                return None
            out.append((c, a[3]))
    return out


def loc(a):
    return probe.locstr(a[4]) if isinstance(a[4], (tuple, list)) else str(a[4])


class Blocks:
    """common to hashes, ciphers and the mac: where iterations read and write."""
    def __init__(self, ctx, M, name, what, ends, n="n"):
        self.ctx, self.M, self.name, self.what, self.ends, self.n = ctx, M, name, what, ends, n

    def bad(self, text):
        self.ctx.bad("kernel:" + self.name, "%s: %s" % (self.what, text))

    def req(self, ok, text):
        if ok:
            self.ctx.ok("kernel:" + self.name)
        else:
            self.bad(text)
        return ok

    def traffic(self, log, unit, base, ins, outs, fixed, where):
        """every access of the log lies in [base, base + unit) of ins (read) or outs (written), or in fixed regions."""
        ok = True
        for a in log:
            kind, r, off, n = a[:4]
            if r in fixed:
                lim, modes = fixed[r]
                if not isinstance(off, int) or off < 0 or off + n > lim or kind not in modes:
                    self.bad("%s: %s of %d bytes at %s+%r (%s)" % (where, "read" if kind == "r" else "write", n, r.name, off, loc(a)))
                    ok = False
                continue
            d = lsub(off, base)
            if kind == "r" and r not in ins or kind == "w" and r not in outs or not isinstance(d, int) or d < 0 or d + n > unit:
                self.bad("%s: %s of %d bytes at %s+%r, outside the block (%s)" % (
                    where, "read" if kind == "r" else "write", n, r.name, off, loc(a)))
                ok = False
        if ok:
            self.ctx.ok("kernel:" + self.name)
            self.ctx.count("memory_accesses_bounded", len(log))
        return ok

    def inplace(self, log, src, dst, where):
        """with source and destination the same buffer, nothing is read after it was overwritten."""
        done = set()
        for a in log:
            c = a[2].c if isinstance(a[2], Lin) else a[2]
            s = a[2].m if isinstance(a[2], Lin) else ()
            if a[0] == "w" and a[1] is dst:
                done.update((s, i) for i in range(c, c + a[3]))
            elif a[0] == "r" and a[1] is src:
                if any((s, i) in done for i in range(c, c + a[3])):
                    self.bad("%s: source bytes %r.. are read after the same place of the destination was written (%s)" % (
                        where, a[2], loc(a)))
                    return
        self.ctx.ok("kernel:" + self.name)

    def peeled(self, log, src, unit, dst=None):
        """iterations done before the loop's head was generalised."""
        top = 0
        for a in log:
            if a[1] is src and a[0] == "r" or dst is not None and a[1] is dst and a[0] == "w":
                if isinstance(a[2], Lin):
                    return None
                top = max(top, a[2] + a[3])
        return top // unit if top % unit == 0 else None

    def settle(self, s):
        """the loop a way out belongs to."""
        ls = s.extra.get("loop", ())
        return ls[0] if ls else None

    def one_loop(self):
        if len(self.M.loops) > 1:
            self.bad("several loops over the number of blocks")
            return False
        return True


def words_of(M, st, r, n, w, base=0):
    return [M.word(8 * w, M.peek(st, r, ladd(base, i * w), w)) for i in range(n)]


def diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a is not b and not (isinstance(a, int) and a == b):
            return i
    return None


def hash_kernel(ctx, M, ends, name, what, F, count, w, state, src, ret=None):
    """blocks(n, state, src): state becomes F folded over the n blocks at src."""
    B = Blocks(ctx, M, name, what, ends)
    D = M.dom
    unit = 16 * w
    nsym = lsym("n")

    def block(i):
        """the words of block i (a public value)."""
        base = lmul(i, unit)
        return [D.cat([(src.atom(ladd(base, j * w + w - 1 - b)), 8) for b in range(w)]) for j in range(16)]
    init = [state.atom(j * w) for j in range(count)]
    fixed = {state: (count * w, "rw")}
    if not B.one_loop():
        return
    ctx.count("kernel_loops", len(M.loops))
    loop = M.loops[0] if M.loops else None
    if not B.req(loop is not None, "there is no loop over the number of blocks"):
        return
    p = B.peeled(loop.first.log, src, unit)
    if not B.req(p is not None and p < 3, "part of a block is read before the loop"):
        return
    chain = [init]
    for i in range(p + 1):
        chain.append(F(D, chain[-1], block(i)))
    r = turns(loop, p, "n")
    B.req(r is None, r)
    # which unknowns of the loop are the chaining value
    atoms = []
    for j in range(count):
        a = loop.pairs.get(((chain[p][j], chain[p + 1][j]), 8 * w))
        if a is None:
            B.bad("after one block no value is the standard's word %d of the chaining value" % j)
            return
        atoms.append(a)
    k = lsym(loop.k)
    want = F(D, atoms, block(ladd(k, p)))
    roles = {}
    for key, (a, b, v) in loop.fresh.items():
        for j, x in enumerate(atoms):
            if v is x:
                roles[key] = j
    for s in loop.iters:
        ss = M.slots(s)
        wrong = sorted({j for key, j in roles.items() if key not in ss or M.word(8 * w, ss[key][0]) is not want[j]})
        # a copy of the chaining value kept from before may differ as long as nothing uses it: words must each have one
        # carrier that is right, and ways out only use right ones
        good = {key for key, j in roles.items() if key in ss and not isinstance(ss[key][0], (KPtr, Lin)) and ss[key][0] is want[j]}
        lost = [j for j in wrong if not any(roles[g] == j for g in good)]
        if wrong:
            B.bad("one more block: word %d of the chaining value is not the standard's" % (lost or wrong)[0])
        else:
            ctx.ok("kernel:" + name)
        B.traffic(s.log, unit, lmul(ladd(k, p), unit), (src,), (), fixed, "block k")
    B.traffic(loop.first.log, unit * p, 0, (src,), (), fixed, "first blocks")
    B.req(len(loop.iters) >= 1, "no iteration")
    for s in ends:
        L = B.settle(s)
        got = words_of(M, s, state, count, w)
        if L is not None:
            i = diff(got, atoms)
            B.req(i is None, "state word %s left at the end is not the chaining value" % i)
            B.traffic(s.log, 0, 0, (), (), fixed, "end")
            left = lsubst(s.ret, L.k, lsub(nsym, p)) if ret is not None and is_pub(s.ret) else s.ret
        else:
            q = B.peeled(s.log, src, unit)
            if not B.req(q is not None and q <= p and decide(cond("eq", nsym, q), s.facts) is True,
                         "a way through reads %s blocks whatever their number" % q):
                continue
            i = diff(got, chain[q])
            B.req(i is None, "state word %s is wrong after %d blocks" % (i, q))
            B.traffic(s.log, unit * q, 0, (src,), (), fixed, "few blocks")
            left = lsubst(s.ret, "n", q) if is_pub(s.ret) else s.ret
            if ret is not None:
                B.req(left == lmul(q, ret), "returns %r for %d blocks" % (s.ret, q))
            continue
        if ret is not None:
            B.req(left == lmul(nsym, ret), "returns %r for n blocks" % (s.ret,))
    ctx.count("block_functions")


def cipher_kernel(ctx, M, ends, name, what, ratio, state, src, dst):
    """stream(n, state, dst[, src]): n units of ratio blocks of keystream from the counter on, combined with src."""
    B = Blocks(ctx, M, name, what, ends)
    D = M.dom
    unit = 64 * ratio
    nsym = lsym("n")
    fixed = {state: (64, "r")}
    init = [state.atom(4 * j) for j in range(16)]
    if not B.one_loop():
        return
    ctx.count("kernel_loops", len(M.loops))
    loop = M.loops[0] if M.loops else None
    if not B.req(loop is not None, "there is no loop over the number of blocks"):
        return
    p = B.peeled(loop.first.log, src, unit, dst)
    if not B.req(p is not None and p < 3, "part of a block is written before the loop"):
        return

    def stream(s, i, where):
        """the unit i of the output."""
        for b in range(ratio):
            pos = ladd(lmul(i, ratio), b)
            st = list(init)
            st[12] = D.add(32, st[12], D.lin(32, pos))
            ks = chacha(D, st)
            for j in range(16):
                off = ladd(lmul(pos, 64), 4 * j)
                want = ks[j]
                if src is not None:
                    want = D.xor(32, want, D.cat([(src.atom(ladd(off, x)), 8) for x in range(4)]))
                got = M.peek(s, dst, off, 4)
                if got is not want:
                    B.bad("%s: bytes %d..%d of block %d of %d are not the keystream of counter + %r%s" % (
                        where, 4 * j, 4 * j + 3, b, ratio, pos, " combined with the source" if src is not None else ""))
                    return
                ctx.count("keystream_words")
        ctx.ok("kernel:" + name)
    r = turns(loop, p, "n")
    B.req(r is None, r)
    k = lsym(loop.k)
    i = ladd(k, p)
    ins, outs = (src,) if src is not None else (), (dst,)
    for s in loop.iters:
        stream(s, i, "unit k")
        B.traffic(s.log, unit, lmul(i, unit), ins, outs, fixed, "unit k")
        B.inplace(s.log, src, dst, "unit k")
    B.req(len(loop.iters) >= 1, "no iteration")
    for q in range(p):
        stream(loop.first, q, "unit %d" % q)
    B.traffic(loop.first.log, unit * p, 0, ins, outs, fixed, "first units")
    B.inplace(loop.first.log, src, dst, "first units")
    for s in ends:
        L = B.settle(s)
        if L is not None:
            B.traffic(s.log, 0, 0, (), (), fixed, "end")
            v = lsubst(s.ret, L.k, lsub(nsym, p)) if is_pub(s.ret) else s.ret
            B.req(v == lmul(nsym, ratio), "reports %r blocks done for n units of %d" % (s.ret, ratio))
        else:
            q = B.peeled(s.log, src, unit, dst)
            if not B.req(q is not None and q <= p and decide(cond("eq", nsym, q), s.facts) is True,
                         "a way through handles %s units whatever their number" % q):
                continue
            for j in range(q):
                stream(s, j, "unit %d" % j)
            B.traffic(s.log, unit * q, 0, ins, outs, fixed, "few units")
            v = lsubst(s.ret, "n", q) if is_pub(s.ret) else s.ret
            B.req(v == q * ratio, "reports %r blocks done for %d units of %d" % (s.ret, q, ratio))
    ctx.count("block_functions")


def analysed(ctx, name, what, fn):
    """run an analysis; what it cannot follow is a violation only when the values leave the canonical domain."""
    try:
        return fn()
    except DataDecision as e:
        ctx.bad("decision:" + name, "%s: %s" % (what, e))
        return None
    except CanonError as e:
        ctx.bad("kernel:" + name, "%s: %s" % (what, e))
        return None


def portable(ctx):
    m = probe.load("kernels.cpp")
    for name, (F, count, w) in HASHES.items():
        for ch in ("uchar", "char"):
            D = Bits()
            M = IR(m, D)
            state, src = KReg("state", None, "arg", w, D), KReg("src", None, "arg", 1, D)
            what = "%s, %s source" % (name, ch)
            ctx.check(probe.const_global(m, name + "_block") == 16 * w, "kernel:" + name, "%s: block size" % name)

            def go():
                ends = M.call("%s_%s" % (name, ch), [lsym("n"), KPtr(state), KPtr(src)])
                hash_kernel(ctx, M, ends, name, what, F, count, w, state, src)
            analysed(ctx, name, what, go)
            ctx.count("ir_instrs", M.steps)
    ctx.check(probe.const_global(m, "chacha_block") == 64, "kernel:chacha", "chacha: block size")
    ratio = probe.const_global(m, "chacha_ratio")
    for fn in ("chacha_transform_uchar", "chacha_transform_char", "chacha_generate_uchar"):
        D = Bits()
        M = IR(m, D)
        state, src, dst = KReg("state", None, "arg", 4, D), KReg("src", None, "arg", 1, D), KReg("dst", None, "arg", 0, D)
        gen = "generate" in fn

        def go():
            ends = M.call(fn, [lsym("n"), KPtr(state), KPtr(dst)] + ([] if gen else [KPtr(src)]))
            cipher_kernel(ctx, M, ends, "chacha", fn, ratio, state, None if gen else src, dst)
        analysed(ctx, "chacha", fn, go)
        ctx.count("ir_instrs", M.steps)


def run_blocks(ctx):
    ctx.rule("folding the standard's function over the blocks, word by word, for any number of blocks; every access inside "
             "the block or the state; the number of blocks reported is the number done")
    portable(ctx)
    ctx.expect("block_functions", 9)


# ---- Poly1305 ----------------------------------------------------------------------------------------------------
P1305 = (1 << 130) - 5


def weigh(D, vs, bits=32):
    r = 0
    for i, v in enumerate(vs):
        r = D.padd(r, v, 1 << bits * i)
    return r


def residue(D, a, m):
    """the constant a is congruent to, if it is to one."""
    p = {mo: k % m for mo, k in D.p(a).items() if k % m}
    return p.get((), 0) if all(mo == () for mo in p) else None


def zero_mod(D, a, m):
    return all(k % m == 0 for k in D.p(a).values())


def run_poly(ctx):
    ctx.rule("as polynomials over the integers, the limbs after a block weigh (accumulator + block) times the multiplier "
             "modulo 2^130 - 5 with no carry lost, for every accumulator in the range the function keeps; the digest is "
             "the accumulator's residue plus the second half of the key modulo 2^128")
    key = key_setup(ctx)
    if key is None:
        return
    top = process(ctx, key)
    if top is not None:
        final(ctx, top)
    ctx.expect("obligations", 30)


def key_setup(ctx):
    """what initialize leaves where the block function reads its multiplier."""
    m = probe.load("poly_stream.cpp")
    D = Ints()
    M = IR(m, D, {"probe_process": record})
    obj = KReg("object", None, "obj", 0, D)
    key = KReg("key", 32, "arg", 1, D)
    msg = KReg("message", 16, "arg", 1, D)

    def go():
        s, = M.call("poly_construct", [KPtr(obj)])
        s, = M.call("poly_initialize", [KPtr(obj), KPtr(key), 32], s)
        s, = M.call("poly_update", [KPtr(obj), KPtr(msg), 16], s)
        return s
    s = analysed(ctx, "poly", "poly1305 key setup", go)
    if s is None:
        return None
    ev = s.events
    if not ctx.check(len(ev) == 1, "kernel:poly", "one block of message gives %d absorptions" % len(ev)):
        return None
    n, kp, acc, add, src, at = ev[0]
    raw = D.cat([(key.atom(i), 8) for i in range(16)])
    r = D.and_(128, raw, 0x0ffffffc0ffffffc0ffffffc0fffffff)
    got = weigh(D, [M.word(32, M.peek(at, kp.r, ladd(kp.off, 4 * i), 4)) for i in range(4)])
    ctx.check(got == r, "kernel:poly", "the multiplier is not the first half of the key, clamped")
    words = [M.word(32, M.peek(at, kp.r, ladd(kp.off, 4 * i), 4)) for i in range(8)]
    zero = [M.peek(at, acc.r, ladd(acc.off, 4 * i), 4) for i in range(5)]
    ctx.check(all(isinstance(z, int) and z == 0 for z in zero), "kernel:poly", "the accumulator does not start at zero")
    return D, words, r


def record(M, st, a):
    st.events += (tuple(a) + (st.clone(),),)
    return None


def process(ctx, key):
    """the block function: any number of blocks, pad bit 0 or 1. -> bound of the top limb."""
    m = probe.load("kernels.cpp")
    D, words, r = key
    bound = None
    for top in (4, 5, 6, 7, 8, 12, 16):
        if all(absorb(ctx, m, D, words, r, top, add, ch, None) for add in (0, 1) for ch in ("uchar",)):
            bound = top
            break
    if bound is None:
        absorb(ctx, m, D, words, r, 4, 1, "uchar", True)
        ctx.bad("kernel:poly", "no bound of the top limb is kept by the block function")
        return None
    for add in (0, 1):
        for ch in ("uchar", "char"):
            absorb(ctx, m, D, words, r, bound, add, ch, True)
    ctx.note("top limb of the accumulator at most %d between blocks" % bound)
    return bound


def absorb(ctx, m, D, words, r, top, add, ch, say):
    """say: report; otherwise only try whether the bound of the top limb is kept."""
    M = IR(m, D)
    what = "poly1305 block, pad bit %d, %s source" % (add, ch)
    src = KReg("msg.%s.%d.%d.%s" % (ch, add, top, say), None, "arg", 4, D)
    kreg = KReg("multiplier", 32, "arg", 0, D)
    acc = KReg("acc", 20, "arg", 0, D)
    st = KState()
    limbs = [D.atom("acc%d.%d" % (i, top), 32, 0, (1 << 32) - 1 if i < 4 else top) for i in range(5)]
    for i, v in enumerate(words):
        M.store(st, kreg, 4 * i, 4, v)
    for i, v in enumerate(limbs):
        M.store(st, acc, 4 * i, 4, v)
    st.log = []
    B = Blocks(ctx, M, "poly", what, ())
    fixed = {kreg: (32, "r"), acc: (20, "rw")}
    try:
        ends = M.call("poly_process_" + ch, [lsym("n"), KPtr(kreg), KPtr(acc), add, KPtr(src)], st)
    except CanonError as e:
        if say:
            B.bad(str(e))
        return False
    ctx.count("ir_instrs", M.steps)
    if len(M.loops) != 1:
        if say:
            B.bad("%d loops over the number of blocks" % len(M.loops))
        return False
    L = M.loops[0]
    p = B.peeled(L.first.log, src, 16)
    if p is None:
        if say:
            B.bad("part of a block is read before the loop")
        return False

    def step(vals, i):
        """(vals + block i) * r as a polynomial."""
        blk = weigh(D, [src.atom(ladd(lmul(i, 16), 4 * j)) for j in range(4)])
        return D.pmul(D.padd(D.padd(weigh(D, vals), blk), add << 128), r)

    def limbs_of(s):
        return [M.word(32, M.peek(s, acc, 4 * i, 4)) for i in range(5)]
    # the way out names the carriers of the accumulator
    outs = [s for s in ends if B.settle(s) is L]
    ok = True
    for s in outs:
        g = limbs_of(s)
        roles = []
        for v in g:
            ks = [key for key, (a, b, x) in L.fresh.items() if x is v or isinstance(x, I) and x == v]
            roles.append(ks[0] if ks else None)
        if None in roles:
            if say:
                B.bad("limb %d left at the end is not carried by the loop" % roles.index(None))
            return False
        first = M.slots(L.first)
        start = [M.word(32, first[key][0]) for key in roles]
        x = limbs
        if p == 0:
            good = all(a == b for a, b in zip(start, limbs))
        elif p == 1:
            good = zero_mod(D, D.padd(weigh(D, start), step(limbs, 0), -1), P1305)
        else:
            good = False
        if say:
            B.req(good, "the loop does not start from the accumulator")
        ok = ok and good
        for it in L.iters:
            ss = M.slots(it)
            new = [M.word(32, ss[key][0]) for key in roles]
            d = D.padd(weigh(D, new), step(g, ladd(lsym(L.k), p)), -1)
            if say:
                B.req(zero_mod(D, d, P1305), "the limbs after a block differ from (accumulator + block) * multiplier by "
                                             "something that is no multiple of 2^130 - 5: a carry is lost or misplaced")
                B.traffic(it.log, 16, lmul(ladd(lsym(L.k), p), 16), (src,), (), fixed, "block k")
        for v, i in zip(g, range(5)):
            lim = top if i == 4 else (1 << 32) - 1
            if D.hi(v) > lim or D.lo(v) < 0:
                ok = False
                if say:
                    B.bad("limb %d may reach %d" % (i, D.hi(v)))
        if say:
            B.traffic(s.log, 0, 0, (), (), fixed, "end")
    if not say:
        return ok
    t = turns(L, p, "n")
    B.req(t is None, t)
    B.req(bool(outs), "the loop has no way out")
    for s in ends:
        if B.settle(s) is L:
            continue
        q = B.peeled(s.log, src, 16)
        if not B.req(q is not None and q <= p and decide(cond("eq", lsym("n"), q), s.facts) is True,
                     "a way through reads %s blocks whatever their number" % q):
            continue
        g = limbs_of(s)
        if q == 0:
            B.req(all(a == b for a, b in zip(g, limbs)), "the accumulator changes without a block")
        else:
            B.req(zero_mod(D, D.padd(weigh(D, g), step(limbs, 0), -1), P1305), "the limbs after one block are wrong")
    ctx.count("block_functions")
    return ok


def chooser(D, d, pick):
    """the 0/1 polynomial b in the picked atoms with d = 5b modulo 2^128."""
    b = 0
    for case in range(1 << len(pick)):
        env = {i: case >> j & 1 for j, i in enumerate(pick)}
        c = residue(D, D.subst(d, env, {}), 1 << 128)
        if c not in (0, 5):
            return None
        t = c // 5
        for i, v in env.items():
            a = I({(i,): 1}, 0, 1)
            t = D.pmul(t, a if v else D.padd(1, a, -1))
        b = D.padd(b, t)
    return b


def final(ctx, top):
    """finalize and digest from any accumulator."""
    m = probe.load("poly_stream.cpp")
    for extra in (0, 5):
        D = Ints()
        limbs = [D.atom("acc%d" % i, 32, 0, (1 << 32) - 1 if i < 4 else top) for i in range(5)]

        def havoc(M, st, a):
            for i, v in enumerate(limbs):
                M.store(st, a[2].r, ladd(a[2].off, 4 * i), 4, v)
            st.events += (1,)
        M = IR(m, D, {"probe_process": havoc})
        obj = KReg("object", None, "obj", 0, D)
        key = KReg("key", 32, "arg", 4, D)
        msg = KReg("message", 21, "arg", 1, D)
        out = KReg("digest", 16, "arg", 0, D)
        what = "poly1305 digest after %d bytes" % (16 + extra)

        def go():
            s, = M.call("poly_construct", [KPtr(obj)])
            s, = M.call("poly_initialize", [KPtr(obj), KPtr(key), 32], s)
            s, = M.call("poly_update", [KPtr(obj), KPtr(msg), 16 + extra], s)
            s, = M.call("poly_finalize", [KPtr(obj)], s)
            s, = M.call("poly_digest", [KPtr(obj), KPtr(out), 16], s)
            return s
        s = analysed(ctx, "poly", what, go)
        if s is None:
            return
        got = D.cat([(M.word(8, M.peek(s, out, i, 1)), 8) for i in range(16)])
        h = weigh(D, limbs)
        kk = weigh(D, [key.atom(16 + 4 * i) for i in range(4)])
        # got = h + 5b + s - 2^128 q for a 0/1 value b that tells whether h is at least p; b is a multilinear polynomial in
        # the 0/1 quotients that choose between two results: those multiplied with something
        d = D.padd(D.padd(got, h, -1), kk, -1)
        chosen = sorted({i for v in D.deep(d) | {None} for m in (D.p(d) if v is None else D.p(D.atoms[v][3][0]) if D.atoms[v][3] else ())
                         if len(m) > 1 for i in m if D.atoms[i][1] >= 0 and D.atoms[i][2] <= 1 and D.atoms[i][3]})
        b = None
        for pick in [c for k in range(3) for c in itertools.combinations(chosen, k)]:
            b = chooser(D, d, pick)
            if b is not None:
                break
        good = b is not None and D.isbool(b)
        if good:
            # b = 1 exactly when h >= p: 0 <= h + 5 - 2^130 b < 2^130
            lo, hi = D.bounds(D.padd(D.padd(h, 5), b, -(1 << 130)))
            good = lo >= 0 and hi < 1 << 130
        ctx.check(good, "kernel:poly", "%s: not the accumulator modulo 2^130 - 5 plus the second half of the key modulo 2^128" % what)
        lo, hi = D.lo(got), D.hi(got)
        ctx.check(lo >= 0 and hi < 1 << 128, "kernel:poly", "%s: bytes out of range" % what)
        # h < 2p, so that one subtraction is enough
        ctx.check(D.hi(h) < 2 * P1305, "kernel:poly", "the accumulator may reach twice the modulus")
        ctx.count("ir_instrs", M.steps)
        ctx.count("block_functions")
