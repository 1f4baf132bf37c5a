"""Flow and addresses of the C++ code: decided by sizes, never by what the bytes are."""
import importlib
import multiprocessing
import report
import probe
from absint import Engine, Ptr
from terms import Term, show

SCENARIOS = ("kdf:run_pbkdf", "kernels:run_blocks", "hash_stream", "cipher_stream", "poly_stream", "hmac", "kdf:run_hkdf", "aead",
             "aead:run_wrapper", "verify", "kernels:run_poly", "front", "front:run_aead")
TAG = 16         # bytes of a tag


class Watch:
    """decisions taken on the contents of a buffer or the output of a primitive."""
    def __init__(self):
        self.found = {}
        self.decisions = self.accesses = self.paths = 0
        self.memo = {}

    def data(self, t):
        """a piece of data the term depends on, if any."""
        r = self.memo.get(t, 0)
        if r == 0:
            r = self.memo[t] = self.search(t)
        return r

    @staticmethod
    def search(t):
        seen, todo = set(), [t]
        while todo:
            t = todo.pop()
            if not isinstance(t, Term) or t in seen:
                continue
            seen.add(t)
            if t.op == "mem":
                return "the contents of %s" % t.a[0]
            if t.op in ("evb", "opaque", "table", "fold"):
                return "computed data"
            if t.op == "lin":
                todo += [x for x, _ in t.a[1]]
            elif t.op == "cat":
                todo += list(t.a[0])
            else:
                todo += [x for x in t.a if isinstance(x, Term)]
        return None

    @staticmethod
    def verdict(t):
        """is this the one answer about a whole tag: all of the given one compared with all of the computed one?"""
        given, made, seen, todo = set(), set(), set(), [t]
        while todo:
            t = todo.pop()
            if not isinstance(t, Term) or t in seen:
                continue
            seen.add(t)
            if t.op == "mem" and str(t.a[0]).startswith("given"):
                given.add(t)
            elif t.op == "evb":
                made.add(t)
            elif t.op == "lin":
                todo += [x for x, _ in t.a[1]]
            elif t.op == "cat":
                todo += list(t.a[0])
            else:
                todo += [x for x in t.a if isinstance(x, Term)]
        return len(given) >= TAG and len(made) >= TAG

    def note(self, kind, t, x):
        d = self.data(t)
        if d and not (kind in ("a branch", "a choice") and self.verdict(t)):
            self.found.setdefault((kind, d, probe.locstr(x.loc)), show(t)[:120])

    def decide(self, st, kind, t, x):
        self.decisions += 1
        self.note("a " + kind, t, x)

    def access(self, eng, st, kind, p, n, x):
        self.accesses += 1
        if isinstance(p, Ptr) and isinstance(p.off, Term):
            self.note("the address of a " + kind, p.off, x)
        if isinstance(n, Term):
            self.note("the size of a " + kind, n, x)


def scenario(a):
    name, pid, tier, seed = a
    import sys
    sys.setrecursionlimit(20000)
    mod, _, fn = name.partition(":")
    w = Watch()

    def begin(st):
        if "on_access" not in st.user:
            st.user["on_access"] = w.access

    def end(st):
        w.paths += 1
    sub = report.Ctx(pid, tier, seed)
    broken = None
    Engine.on_begin, Engine.on_end, Engine.on_decide = staticmethod(begin), staticmethod(end), staticmethod(w.decide)
    try:
        getattr(importlib.import_module(mod), fn or "run")(sub)
    except Exception as e:
        broken = "%s: %s" % (name, e)
    finally:
        Engine.on_begin = Engine.on_end = Engine.on_decide = None
    kern = [t for k, t in sub.viol if k.startswith("decision:")]
    return name, sub.funcs, w.paths, w.decisions, w.accesses, sorted(w.found.items()), kern, sub.counts.get("block_functions", 0), broken


def run(ctx):
    ctx.rule("on every path of the streaming and block analyses no condition of a branch, choice or switch, no address and no "
             "length of an access depends on the contents of a buffer, a key, or the output of a primitive")
    probs = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for name, funcs, paths, dec, acc, found, kern, blocks, broken in pool.imap_unordered(
                scenario, [(s, ctx.pid, ctx.tier, ctx.seed) for s in SCENARIOS], 1):
            ctx.funcs |= funcs
            ctx.count("paths_watched", paths)
            ctx.count("decisions_watched", dec)
            ctx.count("accesses_watched", acc)
            ctx.count("block_functions", blocks)
            for (kind, d, loc), t in found:
                ctx.bad("flow:" + name, "%s: %s depends on %s: %s (%s)" % (name, kind, d, t, loc))
            for t in kern:
                ctx.bad("flow:" + name, "%s: %s" % (name, t))
            if broken:
                probs.append(broken)
            elif not found and not kern:
                ctx.ok("flow:" + name)
    if probs:
        raise RuntimeError("; ".join(probs))
    ctx.expect("decisions_watched", 1000)
    ctx.expect("accesses_watched", 50000)
