"""Memory: every access made on every path the streaming analyses follow stays inside its object."""
import importlib
import multiprocessing
import report
import probe
from absint import Engine

SCENARIOS = ("kdf:run_pbkdf", "hash_stream", "codec", "cipher_stream", "poly_stream", "hmac", "kdf:run_hkdf", "aead",
             "aead:run_wrapper", "verify")


def scenario(a):
    name, pid, tier, seed = a
    import sys
    sys.setrecursionlimit(20000)
    mod, _, fn = name.partition(":")
    sink = probe.Sink()
    probe.install(sink)
    sub = report.Ctx(pid, tier, seed)
    broken = None
    try:
        getattr(importlib.import_module(mod), fn or "run")(sub)
    except Exception as e:
        broken = "%s: %s" % (name, e)
    finally:
        Engine.on_begin = Engine.on_end = None
    return name, sub.funcs, sink.paths, sink.accesses, sorted(sink.oob), broken


def run(ctx):
    ctx.rule("with every buffer, size and split of the streaming analyses symbolic, each load, store, copy, fill and "
             "backend call is shown to lie inside the array, member or caller buffer it addresses, the caller's buffers "
             "having exactly the sizes given")
    probs = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for name, funcs, paths, acc, oob, broken in pool.imap_unordered(
                scenario, [(s, ctx.pid, ctx.tier, ctx.seed) for s in SCENARIOS], 1):
            ctx.funcs |= funcs
            ctx.count("paths_watched", paths)
            ctx.count("accesses_inside_their_object", acc - len(oob))
            for kind, region, off, n, loc in oob:
                ctx.bad("bounds:" + name, "%s: %s of %s bytes at offset %s of %s, which does not reach that far (%s)" % (
                    name, kind, n, off, region, loc))
            if broken:
                probs.append(broken)
            elif not oob:
                ctx.ok("bounds:" + name)
    if probs:
        raise RuntimeError("; ".join(probs))
    ctx.expect("accesses_inside_their_object", 50000)
