"""AEAD: what the cipher and the mac are asked, over recording stand-ins for both."""
from terms import sym, add, sub, xor, mk, urem, and_, mulc, Term, show, cat, to_bytes
from absint import Engine, Ptr, State
import objs
import probe
import stream

TOP = 1 << 60


def ciphers(eng, st, key, iv):
    """cipher objects set up with this key and nonce: cid -> keystream position of the first byte; reason if none."""
    out, why, seen = {}, "no cipher was set up", set()
    for h in st.user.get("objs", {}).values():
        if h.kind == "chacha20" and h.cid not in seen:
            seen.add(h.cid)
            r, c = cipher(eng, st, h, key, iv)
            if r is None:
                out[h.cid] = c
            else:
                why = r
    return out, None if out else why


def cipher(eng, st, h, key, iv):
    k = h.op("key")
    r = stream.match(eng, st, stream.pieces_of(eng, st, [k[0]] if k[0] else []), [("src", key[0], 0, key[1])])
    if r:
        return "cipher key: " + r, None
    f, n = h.op("iv")
    if not isinstance(n, int) or n != 16:
        return "the cipher nonce has %s bytes" % show(n), None
    ctr = [stream.piece_byte(eng, st, d, 0, 0) for i in range(4)
           for _, d in stream.pieces_of(eng, st, [(f[0], f[1], add(64, f[2], i), 1)])]
    if any(isinstance(c, Term) or not isinstance(c, int) for c in ctr):
        return "the first block counter is not a constant", None
    want = [mk("mem", 8, iv[0].name, i) if i < iv[1] else 0 for i in range(12)]
    r = stream.match(eng, st, stream.pieces_of(eng, st, [(f[0], f[1], add(64, f[2], 4), 12)]), [("bytes", want)])
    if r:
        return "cipher nonce: " + r, None
    return None, 64 * int.from_bytes(bytes(ctr), "little")


def pad16(n):
    return urem(64, sub(64, 0, n), 16)


def check(eng, st, key, iv, aads, data, digest, decrypt):
    """aads: [(region, n)]; data: [(in region, n, out region)]; digest: (region, n)."""
    ps = objs.problems(st)
    if ps:
        return "; ".join(ps)
    H = st.user.get("objs", {})
    # the digest is a digest of one mac object
    out, n = digest
    mem = st.rd(out)
    t = objs.tag_at(eng, st, out, mem, 0)
    if t is None or H[t].kind != "poly1305":
        return "the digest is not a digest of the mac"
    r = stream.match(eng, st, stream.pieces_of(eng, st, [(out, mem, 0, n)]), [("ev", "D%d" % t, 0, n)])
    if r:
        return "digest: " + r
    over = [o for o in mem.cells if not st.poly.ge(n, o + 1)] or [w for w in mem.log if not st.poly.ge(n, add(64, w.off, w.len))]
    if over:
        return "digest writes beyond %s bytes" % show(n)
    base, r = ciphers(eng, st, key, iv)
    if r:
        return r
    # its key is the first half of keystream block 0
    f, kn = H[t].op("key")
    if f is None or not st.poly.ge(kn, 32):
        return "the mac key has %s bytes" % show(kn)
    def is_ks(flow, spec):
        """matches spec(keystream byte function) for some cipher object."""
        why = "no keystream was used"
        for cid, b in sorted(base.items()):
            ks = lambda i, cid=cid, b=b: mk("evb", 8, "KS%d" % cid, sub(64, i, b))
            why = stream.match(eng, st, stream.pieces_of(eng, st, flow), spec(ks))
            if why is None:
                return None
        return why
    r = is_ks([(f[0], f[1], f[2], 32)], lambda ks: [("bytes", [ks(i) for i in range(32)])])
    if r:
        return "mac key: " + r
    # the data: every byte xored with the keystream from block 1 on
    pos = 64
    ct = []
    for i, (src, m, dst) in enumerate(data):
        def fn(j, ks, pos=pos, src=src):
            return xor(8, mk("mem", 8, src.name, j), ks(add(64, pos, j)))
        r = is_ks([(dst, st.rd(dst), 0, m)], lambda ks: [("fn", lambda j: fn(j, ks), 0, m)])
        if r:
            return "output %d: %s" % (i, r)
        pos = add(64, pos, m)
    # the transcript
    an = 0
    for _, m in aads:
        an = add(64, an, m)
    cn = 0
    for _, m, _ in data:
        cn = add(64, cn, m)

    def transcript(ks):
        spec = [("src", r, 0, m) for r, m in aads] + [("fill", 0, pad16(an))]
        pos = 64
        for src, m, dst in data:
            if decrypt:
                spec.append(("src", src, 0, m))
            else:
                spec.append(("fn", lambda j, pos=pos, src=src: xor(8, mk("mem", 8, src.name, j), ks(add(64, pos, j))), 0, m))
            pos = add(64, pos, m)
        return spec + [("fill", 0, pad16(cn)), ("bytes", to_bytes(an, 8) + to_bytes(cn, 8))]
    r = is_ks(H[t].updates(), transcript)
    if r:
        return "authenticated bytes: " + r
    return None


def mkdata(sizes, inplace):
    out = []
    for i, n in enumerate(sizes):
        src = probe.arg("in%d" % i, n)
        out.append((src, n, src if inplace else probe.arg("out%d" % i, n)))
    return out


def impl_plans(tier):
    for dec in (False, True):
        for inplace in (False, True):
            yield "", 1, 2, dec, inplace
    yield "", 2, 1, False, False
    yield "", 0, 1, True, True
    yield "_char", 1, 1, False, False
    yield "_char", 1, 1, True, False
    if tier == "thorough":
        yield "", 2, 2, False, True
        yield "", 2, 2, True, False
        yield "", 1, 3, True, True


def run(ctx):
    ctx.rule("over a recording cipher and mac: mac key = keystream block 0 (nonce behind a zero counter), data = input xor "
             "keystream from block 1 on, mac input = aad || zeros to 16 || ciphertext || zeros to 16 || 64 bit little "
             "endian sizes, in this order, also in place and when any part is empty or split")
    m = probe.load("aead.cpp")
    size = probe.const_global(m, "aead_sizeof")
    for suffix, na, nd, dec, inplace in impl_plans(ctx.tier):
        eng = Engine(m, objs.MODELS)
        key, iv = probe.buf("key", sym("kn", 64, 0, TOP)), (probe.arg("iv", 12), 12)
        obj, dig = probe.arg("object", size), probe.arg("digest", 16)
        aads = [probe.buf("aad%d" % i, sym("a%d" % i, 64, 0, TOP)) for i in range(na)]
        data = mkdata([sym("n%d" % i, 64, 0, TOP) for i in range(nd)], inplace)
        op = ("aead_decrypt" if dec else "aead_encrypt") + suffix
        seq = [("aead_make", [Ptr(obj)]), ("aead_initialize", [Ptr(obj), Ptr(key[0]), key[1], Ptr(iv[0]), 12])]
        seq += [("aead_aad", [Ptr(obj), Ptr(r), n]) for r, n in aads]
        seq += [("aead_aadover", [Ptr(obj)])]
        first = len(seq)
        seq += [(op, [Ptr(obj), Ptr(s), n, Ptr(d)]) for s, n, d in data]
        seq += [("aead_finalize", [Ptr(obj)]), ("aead_digest", [Ptr(obj), Ptr(dig), 16])]
        what = "%s, %d aad, %d data%s" % (op, na, nd, ", in place" if inplace else "")
        verdicts(ctx, eng, seq, what, "aead:impl", key, iv, aads, data, (dig, 16), dec, first)
    # nonces of other sizes
    for vn in range(0, 17):
        eng = Engine(m, objs.MODELS)
        key, iv = probe.buf("key", 32), (probe.arg("iv", vn), min(vn, 12))
        obj, dig = probe.arg("object", size), probe.arg("digest", 16)
        data = mkdata([5], False)
        seq = [("aead_make", [Ptr(obj)]), ("aead_initialize", [Ptr(obj), Ptr(key[0]), 32, Ptr(iv[0]), vn]), ("aead_aadover", [Ptr(obj)])]
        seq += [("aead_encrypt", [Ptr(obj), Ptr(s), n, Ptr(d)]) for s, n, d in data]
        seq += [("aead_finalize", [Ptr(obj)]), ("aead_digest", [Ptr(obj), Ptr(dig), 16])]
        verdicts(ctx, eng, seq, "nonce of %d bytes" % vn, "aead:nonce", key, iv, [], data, (dig, 16), False, 3)
    ctx.expect("obligations", 60)


def verdicts(ctx, eng, seq, what, tag, key, iv, aads, data, digest, dec, first=None, st=None):
    st = st or State()
    for s in probe.calls(eng, st, seq):
        if first is not None:
            for i, (_, n, _) in enumerate(data):
                v = s.user["ret%d" % (first + i)]
                ctx.check(s.poly.eq(v, n), tag, "%s: call %d of %s bytes returns %s" % (what, i, show(n), show(v)))
        for q, r in stream.split_eval(eng, s, lambda q: check(eng, q, key, iv, aads, data, digest, dec)):
            ctx.count("transcripts_proved")
            ctx.check(r is None, tag, "%s: %s" % (what, r))
    ctx.engine(eng)


def wrap_plans():
    """name, calls: i(nit) a(ad) e(ncrypt) d(ecrypt) g(digest), upper case for the container forms."""
    return ("iaeg", "iaaeeg", "ieg", "iag", "ig", "iadg", "IADG", "IAEG", "ceg", "Cag", "iaegG", "iaegs",
            "iaegiadg", "IAAEEGIAG", "iaesIs", "iesiag", "ieig", "iddg")


def run_wrapper(ctx):
    ctx.rule("the same transcript through the class and the all-at-once functions, pointer and container forms: the aad "
             "is closed exactly once, the mac finalized exactly once however many times the digest is read, and a second "
             "initialize starts afresh")
    m = probe.load("aead.cpp")
    size = probe.const_global(m, "wrap_sizeof")
    for plan in wrap_plans():
        eng = Engine(m, objs.MODELS)
        obj = probe.arg("object", size)
        seq = [] if plan[0] in "cC" else [("wrap_make", [Ptr(obj)])]
        key = iv = None
        aads, data, dig, dec = [], [], None, False
        digests = []
        lead = 0
        for c in plan:
            k = len(seq)
            if c in "iIcC":
                key = probe.buf("key%d" % k, sym("k%d" % k, 64, 0, TOP))
                iv = (probe.arg("iv%d" % k, 12), 12)
                fn = {"i": "wrap_initialize", "I": "wrap_initialize_c", "c": "wrap_construct", "C": "wrap_construct_c"}[c]
                seq.append((fn, [Ptr(obj), Ptr(key[0]), key[1], Ptr(iv[0]), 12]))
                aads, data, digests = [], [], []
                dec = False
                rets = []
            elif c in "aA":
                a = probe.buf("aad%d" % k, sym("a%d" % k, 64, 0, TOP))
                aads.append(a)
                seq.append(("wrap_aad" + ("_c" if c == "A" else ""), [Ptr(obj), Ptr(a[0]), a[1]]))
            elif c in "eEdD":
                n = sym("n%d" % k, 64, 0, TOP)
                d = (probe.arg("in%d" % k, n), n, probe.arg("out%d" % k, n))
                data.append(d)
                dec = c in "dD"
                fn = ("wrap_decrypt" if dec else "wrap_encrypt") + ("_c" if c in "ED" else "")
                rets.append((len(seq), n))
                seq.append((fn, [Ptr(obj), Ptr(d[0]), n, Ptr(d[2])]))
            else:
                dig = probe.arg("digest%d" % k, 16)
                digests.append(dig)
                if c == "s":
                    seq.append(("wrap_digest_s", [Ptr(obj), Ptr(dig)]))
                else:
                    rets.append((len(seq), 16))
                    seq.append(("wrap_digest" + ("_c" if c == "G" else ""), [Ptr(obj), Ptr(dig), 16]))
        for s in probe.calls(eng, State(), seq):
            for i, n in rets:
                v = s.user["ret%d" % i]
                ctx.check(s.poly.eq(v, n), "aead:wrapper", "%s: %s of %s bytes returns %s" % (plan, seq[i][0], show(n), show(v)))
            for dig in digests:
                for q, r in stream.split_eval(eng, s, lambda q: check(eng, q, key, iv, aads, data, (dig, 16), dec)):
                    ctx.count("transcripts_proved")
                    ctx.check(r is None, "aead:wrapper", "sequence %s: %s" % (plan, r))
        ctx.engine(eng)
    for fn in ("one_encrypt", "one_encrypt_c"):
        eng = Engine(m, objs.MODELS)
        key, iv = probe.buf("key", sym("kn", 64, 0, TOP)), (probe.arg("iv", 12), 12)
        aad, dig = probe.buf("aad", sym("an", 64, 0, TOP)), probe.arg("digest", 16)
        n = sym("n", 64, 0, TOP)
        d = (probe.arg("in", n), n, probe.arg("out", n))
        seq = [(fn, [Ptr(key[0]), key[1], Ptr(iv[0]), 12, Ptr(aad[0]), aad[1], Ptr(d[0]), n, Ptr(d[2]), Ptr(dig)])]
        verdicts(ctx, eng, seq, fn, "aead:one", key, iv, [aad], [d], (dig, 16), False, 0)
    ctx.expect("obligations", 60)
