"""Obligations, violations, known findings, evidence."""
import json
import multiprocessing
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.counts = {}
        self.funcs = set()
        self.viol = []
        self.known = []
        self.rules = []
        self.notes = []
        self.minimum = {}
        self.done = {}
        self.files = set()
        self.jobs = []
        self.copies = False

    # work that can be done side by side
    def defer(self, fn):
        """fn(ctx) will be run by join(), in some process; obligations and counts come back."""
        self.jobs.append(fn)

    def join(self):
        jobs, self.jobs = self.jobs, []
        if multiprocessing.current_process().daemon or len(jobs) < 2:
            for fn in jobs:
                fn(self)
            return
        global _jobs
        _jobs = jobs
        broken = []
        with multiprocessing.get_context("fork").Pool(min(8, len(jobs))) as pool:
            for counts, funcs, viol, notes, err in pool.imap_unordered(_job, [(i, self.pid, self.tier, self.seed) for i in range(len(jobs))], 1):
                for k, v in counts.items():
                    self.count(k, v)
                self.funcs |= funcs
                self.viol += viol
                for t in notes:
                    self.note(t)
                if err:
                    broken.append(err)
        if broken:
            raise RuntimeError("; ".join(sorted(set(broken))))

    # bookkeeping
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def expect(self, what, n):
        """instance minimum confirmed by hand on the reference tree."""
        self.minimum[what] = n

    def ok(self, instance):
        self.count("obligations")
        self.count("obligations_holding")

    def bad(self, key, text):
        """an obligation that fails; key identifies it for the known findings file."""
        self.count("obligations")
        self.viol.append((key, text))

    def check(self, cond, key, text):
        if cond:
            self.ok(key)
        else:
            self.bad(key, text)
        return cond

    def engine(self, eng):
        s = eng.stats
        for k in ("instrs", "paths", "loops", "calls"):
            self.count("ir_" + k, s[k])
        self.funcs |= s["funcs"]


_jobs = []


def _job(a):
    import objs
    i, pid, tier, seed = a
    sys.setrecursionlimit(20000)
    sub = Ctx(pid, tier, seed)
    err = None
    try:
        _jobs[i](sub)
    except objs.Stop as e:
        sub.bad("uninitialized", str(e))
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        err = "%s: %s" % (type(e).__name__, e)
    return sub.counts, sub.funcs, sub.viol, sub.notes, err


def known_findings(pid):
    """lines 'known: property=<id> key=<key> :: text'."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s key=" % pid):]
                k, _, t = rest.partition(" :: ")
                out[k.strip()] = t.strip()
    return out


def finish(ctx, level, technique):
    short = [(k, ctx.counts.get(k, 0), n) for k, n in ctx.minimum.items() if ctx.counts.get(k, 0) < n]
    known = known_findings(ctx.pid)
    new = []
    seen = set()
    for key, text in ctx.viol:
        if key in known:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (ctx.pid, known[key]))
                seen.add(key)
        else:
            new.append((key, text))
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {"explanation": technique + " Rules: " + " | ".join(ctx.rules),
                     "functions_analysed": len(ctx.funcs)},
        "wall_s": round(time.time() - ctx.t0, 2),
        "assumptions": ctx.notes,
        "violations": len(new),
    }
    ev["coverage"].update({k: v for k, v in sorted(ctx.counts.items())})
    if ctx.funcs:
        ev["coverage"]["functions"] = sorted(ctx.funcs)[:400]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", ctx.pid + ".violation.txt")
    if new:
        with open(rp, "w") as f:
            for key, text in new:
                f.write("[%s]\n%s\n\n" % (key, text))
        ev["coverage"]["violations_found"] = [t[:500] for _, t in new[:20]]
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k, v in sorted(ctx.counts.items()):
        print("%s: %s = %d" % (ctx.pid, k, v))
    if new:
        for key, text in new[:10]:
            print("  [%s] %s" % (key, text.replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if short:
        for k, got, want in short:
            print("ANALYSIS-BROKEN: %s: %d instances, at least %d expected" % (k, got, want))
        return 3
    print("%s: holds (%d obligations, %.1f s)" % (ctx.pid, ctx.counts.get("obligations", 0), time.time() - ctx.t0))
    return 0
