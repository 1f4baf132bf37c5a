"""Recording algorithms (witness/probe_objects.h): histories of what they were given.

A history is immutable and named by a number; the probe object in the analysed
program only carries the number, so copying or moving it copies the history.
"""
from terms import Term, add, sub, mulc, xor, mk, fresh, icmp, show, cat, sym
from absint import Ptr, Region, AnalysisError, NeedSplit, resolve, piece_byte, Cell
import probe

KINDS = {1: "hash", 2: "hmac", 3: "poly1305", 4: "chacha20", 5: "hkdf", 6: "pbkdf2"}


class Hist:
    __slots__ = ("id", "kind", "ops", "final", "parent", "pos", "cid")

    def updates(self):
        return [f for op, f in self.ops if op == "update"]

    def op(self, name):
        r = [f for op, f in self.ops if op == name]
        return r[-1] if r else None


def problem(st, text):
    st.user["problems"] = st.user.get("problems", ()) + (text,)


def problems(st):
    return st.user.get("problems", ())


def flow(eng, st, p, n, x, what):
    """snapshot of n bytes at p."""
    if isinstance(n, Term):
        n = st.poly.pin(n)
    if not isinstance(n, Term) and n == 0:
        return None
    if not isinstance(p, Ptr):
        if isinstance(n, Term):
            c = icmp("eq", 64, n, 0)
            t = st.poly.truth(c)
            if t is None:
                raise NeedSplit(c)
            if t:
                return None
        problem(st, "%s: %s bytes from an invalid pointer at %s" % (what, show(n), probe.locstr(x.loc)))
        return None
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "load", p, n, x)
    return (p.r, st.freeze(p.r), p.off, n)


def new(st, kind, ops, final=False, parent=None, pos=0, eng=None, x=None):
    d = dict(st.user.get("objs", {}))
    h = Hist()
    h.id = 0x1000 + len(d)
    h.kind, h.ops, h.final, h.parent, h.pos = kind, ops, final, parent, pos
    h.cid = parent.cid if parent is not None else h.id
    d[h.id] = h
    st.user["objs"] = d
    if eng is not None:
        eng.event(st, "obj", kind, [h.id], x.loc)
    return h.id


def get(st, i, x, what):
    if isinstance(i, Term):
        i = st.poly.pin(i)
    h = st.user.get("objs", {}).get(i) if isinstance(i, int) else None
    if h is None:
        if isinstance(i, Term):
            raise AnalysisError("%s of an object whose history is not known, at %s" % (what, probe.locstr(x.loc)))
        problem(st, "%s of an object that was never initialized, at %s" % (what, probe.locstr(x.loc)))
        raise Stop("%s of an object that was never initialized, at %s" % (what, probe.locstr(x.loc)))
    return h


class Stop(AnalysisError):
    """the path cannot be followed after a reported problem."""


def _init(eng, st, x, a):
    return new(st, KINDS[a[0]], (), eng=eng, x=x)


def _init_key(eng, st, x, a):
    k = KINDS[a[0]]
    return new(st, k, (("key", (flow(eng, st, a[1], a[2], x, k + " key"), a[2])),), eng=eng, x=x)


def _init_key_iv(eng, st, x, a):
    k = KINDS[a[0]]
    return new(st, k, (("key", (flow(eng, st, a[1], a[2], x, k + " key"), a[2])),
                       ("iv", (flow(eng, st, a[3], a[4], x, k + " iv"), a[4]))), eng=eng, x=x)


def _update(eng, st, x, a):
    h = get(st, a[0], x, "update")
    if h.final:
        problem(st, "update of a finalized %s at %s" % (h.kind, probe.locstr(x.loc)))
    f = flow(eng, st, a[1], a[2], x, h.kind + " update")
    if f is None:
        return h.id
    return new(st, h.kind, h.ops + (("update", f),), False, h, eng=eng, x=x)


def _finalize(eng, st, x, a):
    h = get(st, a[0], x, "finalize")
    if h.final:
        problem(st, "%s is finalized twice at %s" % (h.kind, probe.locstr(x.loc)))
    return new(st, h.kind, h.ops, True, h, eng=eng, x=x)


def _digest(eng, st, x, a):
    h = get(st, a[0], x, "digest")
    if not h.final:
        problem(st, "digest of a %s that is not finalized at %s" % (h.kind, probe.locstr(x.loc)))
    p, n = a[1], a[2]
    if isinstance(n, Term):
        n = st.poly.pin(n)
    if not isinstance(n, Term) and n == 0:
        return None
    if not isinstance(p, Ptr):
        raise AnalysisError("digest into an unknown pointer")
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "store", p, n, x)
    eng.write_range(st, p.r, p.off, n, ("ev", "D%d" % h.id, 0), False, x.loc)
    return None


def _crypt(eng, st, x, a):
    i, dec, src, n, dst = a
    h = get(st, i, x, "encryption")
    if isinstance(n, Term):
        n = st.poly.pin(n)
    f = flow(eng, st, src, n, x, h.kind + " input")
    if f is None:
        return h.id
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "store", dst, n, x)
    ks = "KS%d" % h.cid
    out = []
    for lo, hi, d in resolve(eng, st, src.r, st.freeze(src.r), src.off, add(64, src.off, n)):
        rel = sub(64, lo, src.off)
        j = fresh("j", 64, 0, 1 << 62)
        ln = sub(64, hi, lo)
        if isinstance(ln, Term) or isinstance(dst.off, Term) or isinstance(rel, Term):
            v = xor(8, piece_byte(eng, st, d, j, j), mk("evb", 8, ks, add(64, add(64, h.pos, rel), j)))
            out.append((add(64, dst.off, rel), ln, ("map", ("val", v, 1), j, 1, 1)))
        else:
            for b in range(ln):
                v = xor(8, piece_byte(eng, st, d, b, b), mk("evb", 8, ks, add(64, h.pos, rel + b)))
                out.append((dst.off + rel + b, 1, v))
    for off, ln, c in out:
        if isinstance(c, tuple):
            eng.write_range(st, dst.r, off, ln, c, False, x.loc)
        else:
            m = st.wr(dst.r)
            st.seq += 1
            m.cells[off] = Cell(c, 1, 0, False, st.seq, x.loc)
    return new(st, h.kind, h.ops + (("crypt", (dec, f)),), False, h, add(64, h.pos, n), eng=eng, x=x)


def _kdf(eng, st, x, a):
    k = KINDS[a[0]]
    ops = (("ikm", (flow(eng, st, a[1], a[2], x, k + " ikm"), a[2])), ("salt", (flow(eng, st, a[3], a[4], x, k + " salt"), a[4])))
    if k == "hkdf":
        ops += (("info", (flow(eng, st, a[5], a[6], x, k + " info"), a[6])),)
    else:
        ops += (("count", a[7]),)
    return new(st, k, ops, eng=eng, x=x)


def _derive(eng, st, x, a):
    h = get(st, a[0], x, "derive")
    p, n = a[1], a[2]
    if isinstance(n, Term):
        n = st.poly.pin(n)
    if not isinstance(n, Term) and n == 0:
        return h.id
    if not isinstance(p, Ptr):
        c = icmp("eq", 64, n, 0)
        t = st.poly.truth(c)
        if t is None:
            raise NeedSplit(c)
        if not t:
            problem(st, "derive into an invalid pointer at %s" % probe.locstr(x.loc))
        return h.id
    acc = st.user.get("on_access")
    if acc:
        acc(eng, st, "store", p, n, x)
    eng.write_range(st, p.r, p.off, n, ("ev", "K%d" % h.cid, h.pos), False, x.loc)
    return new(st, h.kind, h.ops, False, h, add(64, h.pos, n), eng=eng, x=x)


def _resize(eng, st, x, a):
    """storage of a growing container: k bytes, the first min(n, k) as before."""
    p, n, k = a
    c = icmp("eq", 64, n, k)
    t = st.poly.truth(c)
    if t is None:
        raise NeedSplit(c)
    if t:
        return p
    st.user["grown"] = i = st.user.get("grown", 0) + 1
    eng.regcount += 1
    r = Region("storage#%d.%d" % (i, eng.regcount), k if not isinstance(k, Term) else None, "arg")
    if isinstance(k, Term):
        r.meta = {"len": k}
    if isinstance(p, Ptr):
        c = icmp("ult", 64, n, k)
        t = st.poly.truth(c)
        if t is None:
            raise NeedSplit(c)
        acc = st.user.pop("on_access", None)
        eng.memcpy(st, Ptr(r), p, n if t else k, x)
        if acc:
            st.user["on_access"] = acc
    return Ptr(r)


def _codec(eng, st, x, a):
    op, p, n, q, e = a
    st.user["codec"] = st.user.get("codec", ()) + ((op, flow(eng, st, p, n, x, "codec input"), n, q),)
    if op == 2:
        return mulc(64, n, 2)
    if op == 4:
        return n
    bound = mulc(64, n, 2) if op == 1 else n
    r = sym("result", 64, 0, 1 << 62)
    st.poly.add(st.poly.math(bound) - st.poly.math(r))
    if isinstance(q, Ptr):
        acc = st.user.get("on_access")
        if acc:
            acc(eng, st, "store", q, bound, x)
        eng.write_range(st, q.r, q.off, bound, ("ev", "E%d" % op, 0), False, x.loc)
    if op == 3:
        c = sym("code", 32, 0, 6)
        eng.store_n(st, e.r, e.off, 4, c, False, x.loc)
    return r


MODELS = {"probe_kdf": _kdf, "probe_derive": _derive, "probe_resize": _resize, "probe_codec": _codec, "probe_init": _init, "probe_init_key": _init_key, "probe_init_key_iv": _init_key_iv,
          "probe_update": _update, "probe_finalize": _finalize, "probe_digest": _digest, "probe_crypt": _crypt}


def tag_at(eng, st, region, mem, off):
    """id of the digest the byte at off comes from, or None."""
    for lo, hi, d in resolve(eng, st, region, mem, off, add(64, off, 1)):
        if d[0] in ("ev", "cells", "val", "map", "byte"):
            v = piece_byte(eng, st, d, 0, 0) if d[0] != "ev" else mk("evb", 8, d[1], d[2])
            if isinstance(v, Term) and v.op == "evb" and v.a[0].startswith("D"):
                return int(v.a[0][1:])
    return None
