"""What compiles and what must not: decided by the type checkers of g++ and clang++ over programs that are never run."""
import os
import re
from concurrent.futures import ThreadPoolExecutor

import build
import llvm
import probe

COMPILERS = ("g++", "clang++")
UNIX = ["-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_UNIX=true"]
WIND = ["-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_WIND=true"]
HEADERS = ["milo/error.h", "milo/literal.h", "milo/option.h", "milo/container.h", "milo/meta.h", "milo/def.h", "milo/internal.h"] + [
    "milo/primitive/%s.h" % h for h in (
        "hash/apie hash/sha mac/apie mac/hmac mac/poly cipher/apie cipher/chacha kdf/apie kdf/hkdf kdf/pbkdf aead/apie "
        "aead/chacha codec/apie codec/base").split()]


def first_error(text):
    for line in text.splitlines():
        if "error" in line:
            return line.strip()[:300]
    return text.strip()[:300]


class Batch:
    """programs for the compilers, checked side by side."""

    def __init__(self, ctx):
        self.ctx, self.todo = ctx, []

    def add(self, what, text, good=True, compilers=COMPILERS, flags=(), defs=UNIX, key=None):
        for c in compilers:
            self.todo.append((what, text, good, c, list(flags), list(defs), key or what))

    def go(self):
        def one(a):
            i, (what, text, good, c, flags, defs, key) = a
            ok, err = build.syntax(text, c, flags + ["-w"], defs, "p%d.cpp" % i)
            return what, good, c, flags, defs, key, ok, err
        build.tmpdir()
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, enumerate(self.todo)))


def documented():
    """(file, number, text) of every whole program in the documentation."""
    out = []
    names = [os.path.join(build.REPO, "README.md")]
    d = os.path.join(build.REPO, "doc")
    if os.path.isdir(d):
        names += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".md")]
    for p in names:
        if not os.path.exists(p):
            continue
        with open(p) as f:
            text = f.read()
        for i, m in enumerate(re.finditer(r"```(?:c\+\+|cpp)\n(.*?)```", text, re.S)):
            if re.search(r"\bint\s+main\s*\(", m.group(1)):
                out.append((os.path.relpath(p, build.REPO), text[:m.start()].count("\n") + 2, m.group(1)))
    return out


def run_usable(ctx):
    """documented programs, the whole interface, each header by itself, and several translation units."""
    ctx.rule("the type checkers of g++ and clang++ accept: every whole program of the documentation; the witness that uses "
             "every overload of every class and one-call function with the containers and character types documented, with "
             "and without the assembly, in C++20 and C++23; each public header on its own, twice, and all in either order; "
             "and no function or variable of the headers is defined so that a second translation unit would clash")
    b = Batch(ctx)
    docs = documented()
    if len(docs):
        for f, line, text in docs:
            b.add("the program at %s:%d" % (f, line), text, key="doc:" + f)
    ctx.count("documented_programs", len(docs))
    with open(os.path.join(build.VERIF, "witness", "api.cpp")) as f:
        api = f.read()
    b.add("the interface witness", api, key="api")
    b.add("the interface witness without assembly", api, defs=[], key="api")
    b.add("the interface witness for the other calling convention", api, defs=WIND, key="api")
    b.add("the interface witness as C++23", api, flags=["-std=c++23"], key="api")
    if ctx.tier == "thorough":
        b.add("the interface witness, all algorithms", api, flags=["-DALL"], key="api")
        b.add("the interface witness, all algorithms, C++23, no assembly", api, flags=["-DALL", "-std=c++23"], defs=[], key="api")
    for h in HEADERS:
        ctx.count("headers")
        b.add("%s on its own, twice" % h, "#include <%s>\n#include <%s>\n" % (h, h), key="header:" + h)
    b.add("all headers", "".join("#include <%s>\n" % h for h in HEADERS), key="headers")
    b.add("all headers, last first", "".join("#include <%s>\n" % h for h in reversed(HEADERS)), key="headers")
    for what, good, c, flags, defs, key, ok, err in b.go():
        ctx.count("programs_checked")
        ctx.check(ok, "rejected:%s:%s" % (key, c), "%s does not compile with %s %s: %s" % (what, c, " ".join(flags), first_error(err)))
    # definitions that would clash
    m = probe.load("api.cpp")
    for f in m.funcs.values():
        if f.decl or f.intrinsic or "/src/milo/" not in f.file:
            continue
        ctx.count("definitions")
        ctx.check(f.linkage != 0, "clash:" + f.name, "%s (%s) is defined with external linkage in a header: two translation units that "
                  "include it do not link" % (f.name, f.file))
    for g in m.globals.values():
        if g.decl or g.name.startswith("llvm.") or "milo" not in g.name:
            continue
        ctx.count("definitions")
        ctx.check(g.linkage != 0, "clash:" + g.name, "%s is defined with external linkage in a header: two translation units that include it do not link" % g.name)
    # what is used but nowhere defined
    import x86
    wind, none = ["-UMILO_INTERNAL_ABI_UNIX", "-DMILO_INTERNAL_ABI_WIND=true"], ["-UMILO_INTERNAL_ABI_UNIX", "-UMILO_INTERNAL_ASM"]
    for what, flags, abi in (("with assembly", [], "unix"), ("with assembly for the other calling convention", wind, "wind"), ("without assembly", none, None)):
        mod = m if abi == "unix" else probe.load("api.cpp", flags)
        have = {}
        for f in x86.files() if abi else ():
            for n in x86.assemble(f, abi).symbols:
                ctx.check(n not in have, "twice:" + n, "%s is defined in %s and in %s" % (n, have.get(n), f))
                have[n] = f
        names = [f.name for f in mod.funcs.values() if f.decl and not f.intrinsic and "milo" in f.name] + [
            g.name for g in mod.globals.values() if g.decl and "milo" in g.name]
        if abi:
            ctx.count("assembly_functions_used", len(names))
        for n in names:
            ctx.check(n in have, "undefined:%s:%s" % (n, abi), "%s is used %s, but %s: a program that uses it does not link" % (
                n, what, "no assembly file exports it" if abi else "only assembly defines it" if n.startswith("milo_") else "nothing defines it"))
    ctx.expect("programs_checked", 90)
    ctx.expect("assembly_functions_used", 10)
    ctx.expect("documented_programs", 15)
    ctx.expect("definitions", 800)


PRELUDE = """
#include <array>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include <type_traits>
#include "milo/primitive/hash/apie.h"
#include "milo/primitive/hash/sha.h"
#include "milo/primitive/mac/apie.h"
#include "milo/primitive/mac/hmac.h"
#include "milo/primitive/mac/poly.h"
#include "milo/primitive/cipher/apie.h"
#include "milo/primitive/cipher/chacha.h"
#include "milo/primitive/kdf/apie.h"
#include "milo/primitive/kdf/hkdf.h"
#include "milo/primitive/kdf/pbkdf.h"
#include "milo/primitive/aead/apie.h"
#include "milo/primitive/aead/chacha.h"
#include "milo/primitive/codec/apie.h"
#include "milo/primitive/codec/base.h"
#include "milo/option.h"
using namespace milo;
using namespace milo::primitive;
using namespace std::literals;
using H1 = hash::sha_1_160<>;
using H = hash::sha_2_256<>;
using M = mac::hmac<H>;
using P = mac::poly_1305<>;
using C = cipher::chacha_20<>;
using K = kdf::hkdf<M>;
using B = kdf::pbkdf_2<M>;
using A = aead::chacha_20_poly_1305<>;
using D = codec::base_64<>;
template<class T, size_t N> using arr = std::array<T, N>;
struct no_noexcept { using value_type = char; char* data() const; size_t size() const; };
struct unreadable { using value_type = char; size_t size() const noexcept; };
struct wide { using value_type = wchar_t; wchar_t* data() const noexcept; size_t size() const noexcept; };
void f()
{
    hash::apie<H> h; hash::apie<H1> h1; mac::apie<M> m; mac::apie<P> q; cipher::apie<C> c("k"sv, "i"sv); kdf::apie<K> k("a"sv, "b"sv, "c"sv);
    kdf::apie<B> b("a"sv, "b"sv, 1); aead::apie<A> a("k"sv, "i"sv);
    std::string s; std::string_view v; const std::string cs; std::vector<int> vi; std::vector<char> vc; int* pi = nullptr; char* p = nullptr;
    const char* cp = nullptr; wchar_t* pw = nullptr; bool* pb = nullptr; void* pv = nullptr; size_t n = 1; error e;
    arr<char, 1> a1; arr<int, 4> ai; const arr<char, 4> ca{}; std::span<const char> sc; std::span<char> sp;
    (void)n; (void)p; (void)cp; (void)pi; (void)pw; (void)pb; (void)pv; (void)a1; (void)ai; (void)ca; (void)sc; (void)sp; (void)e;
    %s
}
"""

# (the misuse, what is right) - whole statements
PAIRS = [
    # more than the algorithm has
    ("h.digest<arr<char, 33>>();", "h.digest<arr<char, 32>>();"),
    ("h1.digest<arr<char, 21>>();", "h1.digest<arr<char, 20>>();"),
    ("hash::digest<H, arr<char, 33>>(v);", "hash::digest<H, arr<char, 32>>(v);"),
    ("hash::digest<hash::sha_2_224<>, arr<char, 29>>(v);", "hash::digest<hash::sha_2_224<>, arr<char, 28>>(v);"),
    ("hash::digest<hash::sha_2_384<>, arr<char, 49>>(v);", "hash::digest<hash::sha_2_384<>, arr<char, 48>>(v);"),
    ("hash::digest<hash::sha_2_512<>, arr<char, 65>>(v);", "hash::digest<hash::sha_2_512<>, arr<char, 64>>(v);"),
    ("hash::digest<hash::sha_2_512_224<>, arr<char, 29>>(v);", "hash::digest<hash::sha_2_512_224<>, arr<char, 28>>(v);"),
    ("hash::digest<hash::sha_2_512_256<>, arr<char, 33>>(v);", "hash::digest<hash::sha_2_512_256<>, arr<char, 32>>(v);"),
    ("m.digest<arr<char, 33>>();", "m.digest<arr<char, 32>>();"),
    ("q.digest<arr<char, 17>>();", "q.digest<arr<char, 16>>();"),
    ("mac::digest<M, arr<char, 33>>(v, v);", "mac::digest<M, arr<char, 32>>(v, v);"),
    ("mac::digest<P, arr<char, 17>>(v, v);", "mac::digest<P, arr<char, 16>>(v, v);"),
    ("a.digest<arr<char, 17>>();", "a.digest<arr<char, 16>>();"),
    # sizes chosen by option
    ("mac::apie<mac::hmac<H, option::digest_size<33>>> x;", "mac::apie<mac::hmac<H, option::digest_size<32>>> x;"),
    ("mac::apie<mac::hmac<H, option::digest_size<0>>> x;", "mac::apie<mac::hmac<H, option::digest_size<1>>> x;"),
    ("mac::apie<mac::hmac<hash::sha_1_160<>, option::digest_size<21>>> x;", "mac::apie<mac::hmac<hash::sha_1_160<>, option::digest_size<20>>> x;"),
    ("mac::apie<mac::hmac<hash::sha_2_256<option::digest_size<16>>, option::digest_size<17>>> x;", "mac::apie<mac::hmac<hash::sha_2_256<option::digest_size<16>>, option::digest_size<16>>> x;"),
    ("mac::apie<mac::hmac<H, option::digest_size<8>>> x; x.digest<arr<char, 9>>();", "mac::apie<mac::hmac<H, option::digest_size<8>>> x; x.digest<arr<char, 8>>();"),
    ("mac::apie<mac::poly_1305<option::digest_size<17>>> x;", "mac::apie<mac::poly_1305<option::digest_size<16>>> x;"),
    ("mac::apie<mac::poly_1305<option::digest_size<0>>> x;", "mac::apie<mac::poly_1305<option::digest_size<1>>> x;"),
    ("mac::apie<mac::poly_1305<option::digest_size<8>>> x; x.digest<arr<char, 9>>();", "mac::apie<mac::poly_1305<option::digest_size<8>>> x; x.digest<arr<char, 8>>();"),
    ("hash::apie<hash::sha_1_160<option::digest_size<21>>> x;", "hash::apie<hash::sha_1_160<option::digest_size<20>>> x;"),
    ("hash::apie<hash::sha_1_160<option::digest_size<0>>> x;", "hash::apie<hash::sha_1_160<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_224<option::digest_size<29>>> x;", "hash::apie<hash::sha_2_224<option::digest_size<28>>> x;"),
    ("hash::apie<hash::sha_2_224<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_224<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_256<option::digest_size<33>>> x;", "hash::apie<hash::sha_2_256<option::digest_size<32>>> x;"),
    ("hash::apie<hash::sha_2_256<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_256<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_384<option::digest_size<49>>> x;", "hash::apie<hash::sha_2_384<option::digest_size<48>>> x;"),
    ("hash::apie<hash::sha_2_384<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_384<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_512<option::digest_size<65>>> x;", "hash::apie<hash::sha_2_512<option::digest_size<64>>> x;"),
    ("hash::apie<hash::sha_2_512<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_512<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_512_224<option::digest_size<29>>> x;", "hash::apie<hash::sha_2_512_224<option::digest_size<28>>> x;"),
    ("hash::apie<hash::sha_2_512_224<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_512_224<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_512_256<option::digest_size<33>>> x;", "hash::apie<hash::sha_2_512_256<option::digest_size<32>>> x;"),
    ("hash::apie<hash::sha_2_512_256<option::digest_size<0>>> x;", "hash::apie<hash::sha_2_512_256<option::digest_size<1>>> x;"),
    ("hash::apie<hash::sha_2_256<option::digest_size<9>>> x; x.digest<arr<char, 10>>();", "hash::apie<hash::sha_2_256<option::digest_size<9>>> x; x.digest<arr<char, 9>>();"),
    ("hash::apie<hash::sha_2_512<option::digest_size<21>>> x; x.digest<arr<char, 22>>();", "hash::apie<hash::sha_2_512<option::digest_size<21>>> x; x.digest<arr<char, 21>>();"),
    # nothing asked for
    ("h.digest<arr<char, 0>>();", "h.digest<arr<char, 1>>();"),
    ("m.digest<arr<char, 0>>();", "m.digest<arr<char, 1>>();"),
    ("a.digest<arr<char, 0>>();", "a.digest<arr<char, 1>>();"),
    # a fixed size where the size is not known before, and the other way round
    ("h.digest<arr<char, 4>>(n);", "h.digest<std::string>(n);"),
    ("m.digest<arr<char, 4>>(n);", "m.digest<std::string>(n);"),
    ("a.digest<arr<char, 4>>(n);", "a.digest<std::string>(n);"),
    ("h.digest<std::string>();", "h.digest<arr<char, 4>>();"),
    ("c.encrypt<arr<char, 4>>(v);", "c.encrypt<std::string>(v);"),
    ("c.decrypt<arr<char, 4>>(v);", "c.decrypt<std::string>(v);"),
    ("a.encrypt<arr<char, 4>>(v);", "a.encrypt<std::string>(v);"),
    ("a.decrypt<arr<char, 4>>(v);", "a.decrypt<std::string>(v);"),
    ("codec::encode<D, arr<char, 4>>(v);", "codec::encode<D, std::string>(v);"),
    ("codec::decode<D, arr<char, 4>>(v);", "codec::decode<D, std::string>(v);"),
    ("k.derive<std::string>();", "k.derive<arr<char, 4>>();"),
    # not bytes
    ("h.update(pi, n);", "h.update(cp, n);"),
    ("h.update(pw, n);", "h.update(cp, n);"),
    ("h.update(pb, n);", "h.update(cp, n);"),
    ("h.update(pv, n);", "h.update(cp, n);"),
    ("h.update(vi);", "h.update(vc);"),
    ("h.update(ai);", "h.update(ca);"),
    ("h.update(L\"\"sv);", "h.update(\"\"sv);"),
    ("h.update(wide{});", "h.update(vc);"),
    ("h.update(unreadable{});", "h.update(vc);"),
    ("h.update(no_noexcept{});", "h.update(vc);"),
    ("m.update(vi);", "m.update(vc);"),
    ("m.initialize(vi);", "m.initialize(vc);"),
    ("m.update(pi, n);", "m.update(cp, n);"),
    ("c.encrypt(vi, s);", "c.encrypt(vc, s);"),
    ("c.encrypt(vc, vi);", "c.encrypt(vc, vc);"),
    ("c.initialize(vi, v);", "c.initialize(v, v);"),
    ("a.aad(vi);", "a.aad(vc);"),
    ("a.encrypt(vc, vi);", "a.encrypt(vc, s);"),
    ("a.verify(vi, e);", "a.verify(vc, e);"),
    ("a.verify(vi);", "a.verify(vc);"),
    ("k.derive(vi, n);", "k.derive(vc, n);"),
    ("b.derive(pi, n);", "b.derive(p, n);"),
    ("codec::encode<D>(vi, s);", "codec::encode<D>(vc, s);"),
    ("codec::decode<D>(vc, vi, e);", "codec::decode<D>(vc, s, e);"),
    ("hash::digest<H>(vi);", "hash::digest<H>(vc);"),
    # results into what must not change
    ("h.digest(cp, n);", "h.digest(p, n);"),
    ("h.digest(cs, n);", "h.digest(s, n);"),
    ("h.digest(ca);", "h.digest(a1);"),
    ("h.digest(sc, n);", "h.digest(sp, n);"),
    ("m.digest(cp, n);", "m.digest(p, n);"),
    ("m.digest(cs, n);", "m.digest(s, n);"),
    ("c.encrypt(cp, n, cp);", "c.encrypt(cp, n, p);"),
    ("c.encrypt(v, cs);", "c.encrypt(v, s);"),
    ("c.decrypt(v, sc);", "c.decrypt(v, sp);"),
    ("a.encrypt(cp, n, cp);", "a.encrypt(cp, n, p);"),
    ("a.decrypt(v, cs);", "a.decrypt(v, s);"),
    ("a.digest(ca);", "a.digest(a1);"),
    ("k.derive(cp, n);", "k.derive(p, n);"),
    ("b.derive(cs, n);", "b.derive(s, n);"),
    ("codec::encode<D>(v, cs);", "codec::encode<D>(v, s);"),
    ("codec::decode<D>(cp, n, cp, e);", "codec::decode<D>(cp, n, p, e);"),
    # the wrong kind of algorithm
    ("hash::apie<M> x;", "hash::apie<H> x;"),
    ("hash::digest<M>(v);", "hash::digest<H>(v);"),
    ("mac::apie<H> x(v);", "mac::apie<M> x(v);"),
    ("cipher::apie<A> x(v, v);", "cipher::apie<C> x(v, v);"),
    ("cipher::apie<M> x(v, v);", "cipher::apie<C> x(v, v);"),
    ("aead::apie<C> x(v, v);", "aead::apie<A> x(v, v);"),
    ("kdf::apie<M> x(v, v, v);", "kdf::apie<K> x(v, v, v);"),
    ("codec::encode<H>(v, s);", "codec::encode<D>(v, s);"),
    ("mac::hmac<C> x;", "mac::hmac<H> x;"),
    ("mac::hmac<M> x;", "mac::hmac<H> x;"),
    ("kdf::hkdf<H> x;", "kdf::hkdf<M> x;"),
    ("kdf::pbkdf_2<H> x;", "kdf::pbkdf_2<M> x;"),
    # what one kind of key derivation needs and the other does not
    ("kdf::apie<B> x(v, v, v);", "kdf::apie<B> x(v, v, 10);"),
    ("kdf::apie<K> x(v, v, 10);", "kdf::apie<K> x(v, v, v);"),
    # errors
    ("int x = e; (void)x;", "bool x = bool(e); (void)x;"),
    ("bool x = e; (void)x;", "if (e) {}"),
    ("e = 3;", "e = error::size;"),
    ("error x = 3;", "error x = error::size;"),
    ("const error x; codec::decode<D>(v, s, x);", "error x; codec::decode<D>(v, s, x);"),
    ("const error x; a.verify(v, x);", "error x; a.verify(v, x);"),
    ("codec::decode<D>(v, s, error());", "codec::decode<D>(v, s, e);"),
    # keys are not optional for one-call functions
    ("mac::digest<M>(v);", "mac::digest<M>(v, v);"),
    ("cipher::encrypt<C>(v, v);", "cipher::encrypt<C>(v, v, v, s);"),
]

# Every call of the interface with what stands for its arguments: $I and $P what is read, $O and $Q what is written.
CALLS = """
h.update($I); h.update($P, n); h.digest($O); h.digest($O, n); h.digest($Q); h.digest($Q, n);
hash::digest<H>($I); hash::digest<H>($I, n); hash::digest<H>($I, $O); hash::digest<H>($I, $O, n);
hash::digest<H>($P, n, $Q); hash::digest<H>($P, n, $Q, n); hash::digest<H, std::string>($I, n); hash::digest<H, arr<char, 4>>($I);
mac::apie<M> x($I); mac::apie<M> x($P, n); m.initialize($I); m.initialize($P, n); m.update($I); m.update($P, n);
m.digest($O); m.digest($O, n); m.digest($Q); m.digest($Q, n);
mac::digest<M>($I, $I); mac::digest<M>($I, $I, n); mac::digest<M>($I, $I, $O); mac::digest<M>($I, $I, $O, n);
mac::digest<M>($P, n, $P, n, $Q); mac::digest<M>($P, n, $P, n, $Q, n); mac::digest<M, std::string>($I, $I, n); mac::digest<M, arr<char, 4>>($I, $I);
cipher::apie<C> x($I, $I); cipher::apie<C> x($P, n, $P, n); c.initialize($I, $I); c.initialize($P, n, $P, n);
c.encrypt($I, $O); c.encrypt($P, n, $Q); c.encrypt<std::string>($I); c.encrypt_size($I); c.encrypt_size($P, n);
c.decrypt($I, $O); c.decrypt($P, n, $Q); c.decrypt<std::string>($I); c.decrypt_size($I); c.decrypt_size($P, n);
cipher::encrypt<C>($I, $I, $I, $O); cipher::encrypt<C>($P, n, $P, n, $P, n, $Q); cipher::encrypt<C, std::string>($I, $I, $I);
cipher::decrypt<C>($I, $I, $I, $O); cipher::decrypt<C>($P, n, $P, n, $P, n, $Q); cipher::decrypt<C, std::string>($I, $I, $I);
kdf::apie<K> x($I, $I, $I); kdf::apie<K> x($P, n, $P, n, $P, n); k.initialize($I, $I, $I); k.initialize($P, n, $P, n, $P, n);
k.derive($O, n); k.derive($Q, n); kdf::derive<K>($I, $I, $I, $O, n); kdf::derive<K>($P, n, $P, n, $P, n, $Q, n); kdf::derive<K>($I, $I, $I, n);
kdf::derive<K, std::string>($I, $I, $I, n); kdf::derive<K, arr<char, 4>>($I, $I, $I);
kdf::apie<B> x($I, $I, 1); kdf::apie<B> x($P, n, $P, n, 1); b.initialize($I, $I, 1); b.initialize($P, n, $P, n, 1); b.derive($O, n); b.derive($Q, n);
kdf::derive<B>($I, $I, 1, $O, n); kdf::derive<B>($P, n, $P, n, 1, $Q, n); kdf::derive<B>($I, $I, 1, n); kdf::derive<B, arr<char, 4>>($I, $I, 1);
aead::apie<A> x($I, $I); aead::apie<A> x($P, n, $P, n); a.initialize($I, $I); a.initialize($P, n, $P, n); a.aad($I); a.aad($P, n);
a.encrypt($I, $O); a.encrypt($P, n, $Q); a.encrypt<std::string>($I); a.encrypt_size($I); a.encrypt_size($P, n);
a.decrypt($I, $O); a.decrypt($P, n, $Q); a.decrypt<std::string>($I); a.decrypt_size($I); a.decrypt_size($P, n);
a.digest($O); a.digest($O, n); a.digest($Q); a.digest($Q, n); a.verify($I, e); a.verify($P, n, e); a.verify($I); a.verify($P, n);
aead::encrypt<A>($I, $I, $I, $I, $O, $O); aead::encrypt<A>($P, n, $P, n, $P, n, $P, n, $Q, $Q); aead::encrypt<A, std::string>($I, $I, $I, $I);
aead::decrypt<A>($I, $I, $I, $I, $I, $O, e); aead::decrypt<A>($P, n, $P, n, $P, n, $P, n, $P, n, $Q, e); aead::decrypt<A, std::string>($I, $I, $I, $I, $I);
aead::decrypt<A>($I, $I, $I, $I, $I, $O); aead::decrypt<A>($P, n, $P, n, $P, n, $P, n, $P, n, $Q);
codec::apie<D>::encode($I, $O); codec::apie<D>::encode($P, n, $Q); codec::apie<D>::encode<std::string>($I); codec::apie<D>::encode_size($I); codec::apie<D>::encode_size($P, n);
codec::apie<D>::decode($I, $O, e); codec::apie<D>::decode($P, n, $Q, e); codec::apie<D>::decode<std::string>($I); codec::apie<D>::decode_size($I); codec::apie<D>::decode_size($P, n);
codec::apie<D>::decode($I, $O); codec::apie<D>::decode($P, n, $Q);
codec::encode<D>($I, $O); codec::encode<D>($P, n, $Q); codec::encode<D, std::string>($I);
codec::decode<D>($I, $O, e); codec::decode<D>($P, n, $Q, e); codec::decode<D, std::string>($I); codec::decode<D>($I, $O); codec::decode<D>($P, n, $Q);
"""
RIGHT = {"$I": "v", "$P": "cp", "$O": "s", "$Q": "p"}
WRONG = {"$I": ("vi", "ai", "wide{}", "no_noexcept{}", "n"), "$P": ("pi", "pw", "pb", "pv"), "$O": ("vi", "cs", "sc", "ai"), "$Q": ("pi", "cp", "pv", "pw")}


def every_call():
    """(misuse, what is right) for each argument of each call."""
    out = []
    for c in re.findall(r"[^;]+;", CALLS):
        c = c.strip()
        slots = list(re.finditer(r"\$[IPOQ]", c))
        good = re.sub(r"\$[IPOQ]", lambda t: RIGHT[t.group(0)], c)
        for t in slots:
            for w in WRONG[t.group(0)]:
                bad = c[:t.start()] + "\0" + c[t.end():]
                out.append((re.sub(r"\$[IPOQ]", lambda q: RIGHT[q.group(0)], bad).replace("\0", w), good))
    return out


def lines_with_errors(err, name):
    """the lines of the program itself that an error is about."""
    return set(int(x) for x in re.findall(re.escape(name) + r":(\d+):\d+:\s+(?:error|note: in instantiation|required from|required by)", err))


def accepted(statements, compiler):
    """those of the statements that the compiler has nothing against: all in one program, one per line, then
    again without the lines that have an error, as an error in what two lines share is shown for one of them."""
    left = list(statements)
    name = "rejected_%s.cpp" % compiler.strip("+")
    while left:
        text = PRELUDE % "\n".join("    { %s }" % x for x in left)
        first = (PRELUDE[:PRELUDE.index("%s")]).count("\n") + 1
        ok, err = build.syntax(text, compiler, ["-w", "-fmax-errors=0" if compiler == "g++" else "-ferror-limit=0"], UNIX, name)
        lines = lines_with_errors(err, name)
        rest = [x for i, x in enumerate(left) if first + i not in lines]
        if ok or len(rest) == len(left):
            return left
        left = rest
    return left


def run_misuse(ctx):
    """misuse that types can tell does not compile."""
    ctx.rule("for each pair of statements that differ in one respect, the type checkers of g++ and clang++ accept the one that "
             "is documented and reject the misuse: more bytes than the algorithm has, element types that are not bytes, "
             "results into constants, a fixed size where it is not known and the other way round, algorithms of the wrong kind, errors that are ignored; "
             "and for each call of the interface, each of its arguments with each of what it must not be")
    more = every_call()
    right = {bad: good for bad, good in PAIRS + more}
    b = Batch(ctx)
    # the right ones together: what the misuses differ from
    b.add("what is documented", PRELUDE % "\n    ".join("{ %s }" % r for r in sorted(set(right.values()))), key="right")
    if ctx.tier == "thorough":
        # each alone as well
        for bad, good in PAIRS:
            b.add(bad, PRELUDE % ("{ %s }" % bad), False)
    with ThreadPoolExecutor(2) as ex:
        for c, wrongly in zip(COMPILERS, ex.map(lambda c: accepted(sorted(right), c), COMPILERS)):
            for bad in sorted(right):
                ctx.count("misuses_checked")
                ctx.check(bad not in wrongly, "accepted:%s:%s" % (bad, c), "%s accepts `%s`, which must not compile (`%s` is what is right)" % (c, bad, right[bad]))
    for what, good, c, flags, defs, key, ok, err in b.go():
        ctx.count("programs_checked")
        if good:
            ctx.check(ok, "rejected:%s" % c, "%s rejects what is documented: %s" % (c, first_error(err)))
        else:
            ctx.check(not ok, "accepted:%s:%s" % (what, c), "%s accepts `%s`, which must not compile (`%s` is what is right)" % (c, what, right[what]))
    ctx.expect("programs_checked", 2)
    ctx.expect("misuses_checked", 2000)
