// The public interface with the types a user has: characters of either kind, standard containers and containers of one's own.
#include <array>
#include <string>
#include <string_view>
#include <span>
#include <vector>
#include "milo/primitive/hash/apie.h"
#include "milo/primitive/hash/sha.h"
#include "milo/primitive/mac/apie.h"
#include "milo/primitive/mac/hmac.h"
#include "milo/primitive/mac/poly.h"
#include "milo/primitive/cipher/apie.h"
#include "milo/primitive/cipher/chacha.h"
#include "milo/primitive/kdf/apie.h"
#include "milo/primitive/kdf/hkdf.h"
#include "milo/primitive/kdf/pbkdf.h"
#include "milo/primitive/aead/apie.h"
#include "milo/primitive/aead/chacha.h"
#include "milo/primitive/codec/apie.h"
#include "milo/primitive/codec/base.h"
#include "milo/literal.h"

namespace p = milo::primitive;

namespace user
{
    // a view over fixed memory
    template<class B>
    struct fixed
    {
        using value_type = B;
        B* at = nullptr;
        size_t many = 0;
        constexpr B* data() const noexcept { return at; }
        constexpr size_t size() const noexcept { return many; }
    };

    // a container that grows
    template<class B>
    struct grown
    {
        using value_type = B;
        std::vector<B> held;
        B* data() noexcept { return held.data(); }
        const B* data() const noexcept { return held.data(); }
        size_t size() const noexcept { return held.size(); }
        void resize(size_t n, B v) { held.resize(n, v); }
        void reserve(size_t n) { held.reserve(n); }
    };
}

namespace roots
{
    // Pointers and sizes. Neither throws, nor allocates.
    namespace plain
    {
        template<class H, class B, class C>
        size_t hash_algorithm(H& h, const B* in, size_t n, C* out, size_t m)
        {
            h.initialize();
            h.update(in, n);
            h.finalize();
            H g(h), f(static_cast<H&&>(g));
            g = f;
            return h.digest(out) + g.digest(out, m);
        }
        template<class H, class B, class C>
        size_t hash(const B* in, size_t n, C* out, size_t m)
        {
            p::hash::apie<H> h, g(h), f(static_cast<p::hash::apie<H>&&>(g));
            g = f;
            h.initialize();
            h.update(in, n);
            return h.digest(out) + h.digest(out, m) + g.digest(out) + p::hash::digest<H>(in, n, out) + p::hash::digest<H>(in, n, out, m);
        }
        template<class M, class B, class C>
        size_t mac_algorithm(M& h, const B* key, size_t k, const B* in, size_t n, C* out, size_t m)
        {
            h.initialize(key, k);
            h.update(in, n);
            h.finalize();
            M g(h), f(static_cast<M&&>(g));
            g = f;
            return h.digest(out) + g.digest(out, m);
        }
        template<class M, class B, class C>
        size_t mac(const B* key, size_t k, const B* in, size_t n, C* out, size_t m)
        {
            p::mac::apie<M> h(key, k), g(h), f(static_cast<p::mac::apie<M>&&>(g));
            g = f;
            h.initialize(key, k);
            h.update(in, n);
            return h.digest(out) + h.digest(out, m) + g.digest(out) + p::mac::digest<M>(key, k, in, n, out) + p::mac::digest<M>(key, k, in, n, out, m);
        }
        template<class C, class B, class D>
        size_t cipher_algorithm(C& h, const B* key, size_t k, const B* iv, size_t v, const B* in, size_t n, D* out)
        {
            h.initialize(key, k, iv, v);
            C g(h), f(static_cast<C&&>(g));
            g = f;
            return h.encrypt(in, n, out) + g.decrypt(in, n, out) + h.encrypt_size(in, n) + h.decrypt_size(in, n);
        }
        template<class C, class B, class D>
        size_t cipher(const B* key, size_t k, const B* iv, size_t v, const B* in, size_t n, D* out)
        {
            p::cipher::apie<C> h(key, k, iv, v), g(h), f(static_cast<p::cipher::apie<C>&&>(g));
            g = f;
            h.initialize(key, k, iv, v);
            return h.encrypt(in, n, out) + g.decrypt(in, n, out) + h.encrypt_size(in, n) + h.decrypt_size(in, n) +
                p::cipher::encrypt<C>(key, k, iv, v, in, n, out) + p::cipher::decrypt<C>(key, k, iv, v, in, n, out);
        }
        template<class K, class B, class C>
        size_t hkdf_algorithm(K& h, const B* ikm, size_t i, const B* salt, size_t s, const B* info, size_t x, C* out, size_t m)
        {
            h.initialize(ikm, i, salt, s, info, x);
            K g(h), f(static_cast<K&&>(g));
            g = f;
            return h.derive(out, m) + g.derive(out, m);
        }
        template<class K, class B, class C>
        size_t hkdf(const B* ikm, size_t i, const B* salt, size_t s, const B* info, size_t x, C* out, size_t m)
        {
            p::kdf::apie<K> h(ikm, i, salt, s, info, x), g(h), f(static_cast<p::kdf::apie<K>&&>(g));
            g = f;
            h.initialize(ikm, i, salt, s, info, x);
            return h.derive(out, m) + p::kdf::derive<K>(ikm, i, salt, s, info, x, out, m);
        }
        template<class K, class B, class C>
        size_t pbkdf_algorithm(K& h, const B* ikm, size_t i, const B* salt, size_t s, uint32_t c, C* out, size_t m)
        {
            h.initialize(ikm, i, salt, s, c);
            K g(h), f(static_cast<K&&>(g));
            g = f;
            return h.derive(out, m) + g.derive(out, m);
        }
        template<class K, class B, class C>
        size_t pbkdf(const B* ikm, size_t i, const B* salt, size_t s, uint32_t c, C* out, size_t m)
        {
            p::kdf::apie<K> h(ikm, i, salt, s, c), g(h), f(static_cast<p::kdf::apie<K>&&>(g));
            g = f;
            h.initialize(ikm, i, salt, s, c);
            return h.derive(out, m) + p::kdf::derive<K>(ikm, i, salt, s, c, out, m);
        }
        template<class A, class B, class C>
        size_t aead_algorithm(A& h, const B* key, size_t k, const B* iv, size_t v, const B* in, size_t n, C* out, size_t m)
        {
            h.initialize(key, k, iv, v);
            h.aad(in, n);
            size_t r = h.encrypt(in, n, out) + h.encrypt_size(in, n);
            h.finalize();
            r += h.digest(out) + h.digest(out, m);
            A g(h), f(static_cast<A&&>(g));
            g = f;
            g.initialize(key, k, iv, v);
            return r + g.decrypt(in, n, out) + g.decrypt_size(in, n);
        }
        template<class A, class B, class C>
        size_t aead(const B* key, size_t k, const B* iv, size_t v, const B* in, size_t n, C* out, size_t m, milo::error& e)
        {
            p::aead::apie<A> h(key, k, iv, v), g(h), f(static_cast<p::aead::apie<A>&&>(g));
            g = f;
            h.initialize(key, k, iv, v);
            h.aad(in, n);
            size_t r = h.encrypt(in, n, out) + h.encrypt_size(in, n) + h.digest(out) + h.digest(out, m);
            r += g.decrypt(in, n, out) + g.decrypt_size(in, n);
            g.verify(in, n, e);
            auto s = p::aead::encrypt<A>(key, k, iv, v, in, n, in, n, out, out);
            r += s.item_0 + s.item_1;
            return r + p::aead::decrypt<A>(key, k, iv, v, in, n, in, n, in, n, out, e);
        }
        template<class D, class B, class C>
        size_t codec(const B* in, size_t n, C* out, milo::error& e)
        {
            using W = p::codec::apie<D>;
            return D::encode_size(in, n) + D::decode_size(in, n) + D::encode(in, n, out) +
                W::encode(in, n, out) + W::encode_size(in, n) + W::decode(in, n, out, e) + W::decode_size(in, n) +
                p::codec::encode<D>(in, n, out) + p::codec::decode<D>(in, n, out, e);
        }
    }

    // Containers of fixed size, and results of fixed size. Neither throws, nor allocates.
    namespace fixed
    {
        template<class H, class I, class O>
        size_t hash(const I& in, O& out, size_t m)
        {
            p::hash::apie<H> h;
            h.update(in);
            return h.digest(out) + h.digest(out, m) + p::hash::digest<H>(in, out) + p::hash::digest<H>(in, out, m);
        }
        template<class H, class I, class R>
        void hash_returned(const I& in, std::array<unsigned char, H::digest_size>& r, R& s)
        {
            p::hash::apie<H> h;
            h.update(in);
            r = h.digest();
            s = h.template digest<R>();
            r = p::hash::digest<H>(in);
            s = p::hash::digest<H, R>(in);
        }
        template<class M, class I, class O>
        size_t mac(const I& key, const I& in, O& out, size_t m)
        {
            p::mac::apie<M> h(key);
            h.initialize(key);
            h.update(in);
            return h.digest(out) + h.digest(out, m) + p::mac::digest<M>(key, in, out) + p::mac::digest<M>(key, in, out, m);
        }
        template<class M, class I, class R>
        void mac_returned(const I& key, const I& in, std::array<unsigned char, M::digest_size>& r, R& s)
        {
            p::mac::apie<M> h(key);
            h.update(in);
            r = h.digest();
            s = h.template digest<R>();
            r = p::mac::digest<M>(key, in);
            s = p::mac::digest<M, R>(key, in);
        }
        template<class C, class I, class O>
        size_t cipher(const I& key, const I& iv, const I& in, O& out)
        {
            p::cipher::apie<C> h(key, iv);
            h.initialize(key, iv);
            return h.encrypt(in, out) + h.decrypt(in, out) + h.encrypt_size(in) + h.decrypt_size(in) +
                p::cipher::encrypt<C>(key, iv, in, out) + p::cipher::decrypt<C>(key, iv, in, out);
        }
        template<class K, class I, class O>
        size_t hkdf(const I& ikm, const I& salt, const I& info, O& out, size_t m)
        {
            p::kdf::apie<K> h(ikm, salt, info);
            h.initialize(ikm, salt, info);
            return h.derive(out, m) + p::kdf::derive<K>(ikm, salt, info, out, m);
        }
        template<class K, class I, class R>
        void hkdf_returned(const I& ikm, const I& salt, const I& info, R& r)
        {
            p::kdf::apie<K> h(ikm, salt, info);
            r = h.template derive<R>();
            r = p::kdf::derive<K, R>(ikm, salt, info);
        }
        template<class K, class I, class O>
        size_t pbkdf(const I& ikm, const I& salt, uint32_t c, O& out, size_t m)
        {
            p::kdf::apie<K> h(ikm, salt, c);
            h.initialize(ikm, salt, c);
            return h.derive(out, m) + p::kdf::derive<K>(ikm, salt, c, out, m);
        }
        template<class K, class I, class R>
        void pbkdf_returned(const I& ikm, const I& salt, uint32_t c, R& r)
        {
            p::kdf::apie<K> h(ikm, salt, c);
            r = h.template derive<R>();
            r = p::kdf::derive<K, R>(ikm, salt, c);
        }
        template<class A, class I, class O>
        size_t aead(const I& key, const I& iv, const I& aad, const I& in, const I& digest, O& out, O& out_digest, size_t m, milo::error& e)
        {
            p::aead::apie<A> h(key, iv);
            h.initialize(key, iv);
            h.aad(aad);
            size_t r = h.encrypt(in, out) + h.encrypt_size(in) + h.digest(out) + h.digest(out, m);
            h.initialize(key, iv);
            r += h.decrypt(in, out) + h.decrypt_size(in);
            h.verify(digest, e);
            auto s = p::aead::encrypt<A>(key, iv, aad, in, out, out_digest);
            r += s.item_0 + s.item_1;
            return r + p::aead::decrypt<A>(key, iv, aad, in, digest, out, e);
        }
        template<class A, class I, class R>
        void aead_returned(const I& key, const I& iv, const I& aad, std::array<unsigned char, 16>& r, R& s)
        {
            p::aead::apie<A> h(key, iv);
            h.aad(aad);
            r = h.digest();
            s = h.template digest<R>();
        }
        template<class D, class I, class O>
        size_t codec(const I& in, O& out, milo::error& e)
        {
            using W = p::codec::apie<D>;
            return W::encode(in, out) + W::encode_size(in) + W::decode(in, out, e) + W::decode_size(in) +
                p::codec::encode<D>(in, out) + p::codec::decode<D>(in, out, e);
        }
    }

    // The overloads that throw milo::error, over pointers and containers of fixed size. They do not allocate.
    namespace thrown
    {
        template<class A, class B, class C>
        size_t aead(p::aead::apie<A>& h, const B* key, size_t k, const B* iv, size_t v, const B* in, size_t n, C* out)
        {
            h.verify(in, n);
            return p::aead::decrypt<A>(key, k, iv, v, in, n, in, n, in, n, out);
        }
        template<class A, class I, class O>
        size_t aead_fixed(p::aead::apie<A>& h, const I& key, const I& iv, const I& aad, const I& in, const I& digest, O& out)
        {
            h.verify(digest);
            return p::aead::decrypt<A>(key, iv, aad, in, digest, out);
        }
        template<class D, class B, class C>
        size_t codec(const B* in, size_t n, C* out)
        {
            return p::codec::apie<D>::decode(in, n, out) + p::codec::decode<D>(in, n, out);
        }
        template<class D, class I, class O>
        size_t codec_fixed(const I& in, O& out)
        {
            return p::codec::apie<D>::decode(in, out) + p::codec::decode<D>(in, out);
        }
    }

    // Containers that grow with the error by reference. Only what allocation throws passes through.
    namespace quiet
    {
        template<class A, class I, class O>
        size_t aead(const I& key, const I& iv, const I& aad, const I& in, const I& digest, O& out, milo::error& e)
        {
            p::aead::apie<A> h(key, iv);
            h.verify(digest, e);
            return h.encrypt(in, out) + h.decrypt(in, out) + h.digest(out) + p::aead::decrypt<A>(key, iv, aad, in, digest, out, e);
        }
        template<class D, class I, class O>
        size_t codec(const I& in, O& out, milo::error& e)
        {
            using W = p::codec::apie<D>;
            return W::encode(in, out) + W::decode(in, out, e) + p::codec::encode<D>(in, out) + p::codec::decode<D>(in, out, e);
        }
    }

    // Containers that grow, by reference and returned. They allocate, and what allocation throws passes through.
    namespace grown
    {
        template<class H, class I, class O>
        size_t hash(const I& in, O& out, size_t m)
        {
            p::hash::apie<H> h;
            h.update(in);
            size_t r = h.digest(out) + h.digest(out, m) + p::hash::digest<H>(in, out) + p::hash::digest<H>(in, out, m);
            out = h.template digest<O>(m);
            out = p::hash::digest<H, O>(in, m);
            return r + h.digest(m).size() + p::hash::digest<H>(in, m).size();
        }
        template<class M, class I, class O>
        size_t mac(const I& key, const I& in, O& out, size_t m)
        {
            p::mac::apie<M> h(key);
            h.update(in);
            size_t r = h.digest(out) + h.digest(out, m) + p::mac::digest<M>(key, in, out) + p::mac::digest<M>(key, in, out, m);
            out = h.template digest<O>(m);
            out = p::mac::digest<M, O>(key, in, m);
            return r + h.digest(m).size() + p::mac::digest<M>(key, in, m).size();
        }
        template<class C, class I, class O>
        size_t cipher(const I& key, const I& iv, const I& in, O& out)
        {
            p::cipher::apie<C> h(key, iv);
            size_t r = h.encrypt(in, out) + h.decrypt(in, out);
            out = h.template encrypt<O>(in);
            out = h.template decrypt<O>(in);
            r += p::cipher::encrypt<C>(key, iv, in, out) + p::cipher::decrypt<C>(key, iv, in, out);
            out = p::cipher::encrypt<C, O>(key, iv, in);
            out = p::cipher::decrypt<C, O>(key, iv, in);
            return r;
        }
        template<class K, class I, class O>
        size_t hkdf(const I& ikm, const I& salt, const I& info, O& out, size_t m)
        {
            p::kdf::apie<K> h(ikm, salt, info);
            size_t r = h.derive(out, m) + p::kdf::derive<K>(ikm, salt, info, out, m);
            out = h.template derive<O>(m);
            out = p::kdf::derive<K, O>(ikm, salt, info, m);
            return r + h.derive(m).size() + p::kdf::derive<K>(ikm, salt, info, m).size();
        }
        template<class K, class I, class O>
        size_t pbkdf(const I& ikm, const I& salt, uint32_t c, O& out, size_t m)
        {
            p::kdf::apie<K> h(ikm, salt, c);
            size_t r = h.derive(out, m) + p::kdf::derive<K>(ikm, salt, c, out, m);
            out = h.template derive<O>(m);
            out = p::kdf::derive<K, O>(ikm, salt, c, m);
            return r + h.derive(m).size() + p::kdf::derive<K>(ikm, salt, c, m).size();
        }
        template<class A, class I, class O>
        size_t aead(const I& key, const I& iv, const I& aad, const I& in, const I& digest, O& out, O& out_digest, size_t m, milo::error& e)
        {
            p::aead::apie<A> h(key, iv);
            size_t r = h.encrypt(in, out) + h.digest(out) + h.digest(out, m);
            h.initialize(key, iv);
            r += h.decrypt(in, out);
            out = h.template digest<O>(m);
            out = h.template encrypt<O>(in);
            out = h.template decrypt<O>(in);
            auto s = p::aead::encrypt<A>(key, iv, aad, in, out, out_digest);
            auto t = p::aead::encrypt<A, O>(key, iv, aad, in);
            out = t.item_0;
            r += s.item_0 + s.item_1 + t.item_1.size();
            r += p::aead::decrypt<A>(key, iv, aad, in, digest, out) + p::aead::decrypt<A>(key, iv, aad, in, digest, out, e);
            out = p::aead::decrypt<A, O>(key, iv, aad, in, digest);
            return r;
        }
        template<class D, class I, class O>
        size_t codec(const I& in, O& out, milo::error& e)
        {
            using W = p::codec::apie<D>;
            size_t r = W::encode(in, out) + W::decode(in, out, e) + W::decode(in, out);
            out = W::template encode<O>(in);
            out = W::template decode<O>(in);
            r += p::codec::encode<D>(in, out) + p::codec::decode<D>(in, out, e) + p::codec::decode<D>(in, out);
            out = p::codec::encode<D, O>(in);
            out = p::codec::decode<D, O>(in);
            return r;
        }
        inline size_t literals()
        {
            using namespace milo::literal;
            return "0a"_base_16.size() + "AAAA"_base_64.size() + "a"_b.size() + "a"_bv.size() + "a"_c.size() + "a"_cv.size();
        }
    }
}

using u8 = unsigned char;
using s8 = signed char;
using error = milo::error;
template<class B, size_t N> using arr = std::array<B, N>;
template<class B> using tie = std::span<B, 16>;

#define HASH(H) \
    template size_t roots::plain::hash_algorithm<H, char, char>(H&, const char*, size_t, char*, size_t); \
    template size_t roots::plain::hash_algorithm<H, u8, u8>(H&, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::hash_algorithm<H, char, u8>(H&, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::hash_algorithm<H, s8, char>(H&, const s8*, size_t, char*, size_t); \
    template size_t roots::plain::hash<H, char, char>(const char*, size_t, char*, size_t); \
    template size_t roots::plain::hash<H, u8, u8>(const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::hash<H, char, u8>(const char*, size_t, u8*, size_t); \
    template size_t roots::plain::hash<H, s8, char>(const s8*, size_t, char*, size_t); \
    template size_t roots::fixed::hash<H, std::string, std::array<char, 16>>(const std::string&, std::array<char, 16>&, size_t); \
    template size_t roots::fixed::hash<H, std::string_view, std::span<u8>>(const std::string_view&, std::span<u8>&, size_t); \
    template size_t roots::fixed::hash<H, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, user::fixed<char>&, size_t); \
    template size_t roots::fixed::hash<H, std::span<const char>, tie<u8>>(const std::span<const char>&, tie<u8>&, size_t); \
    template size_t roots::fixed::hash<H, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, std::array<u8, 16>&, size_t); \
    template size_t roots::fixed::hash<H, std::vector<char>, std::span<char>>(const std::vector<char>&, std::span<char>&, size_t); \
    template size_t roots::grown::hash<H, std::string, std::string>(const std::string&, std::string&, size_t); \
    template size_t roots::grown::hash<H, std::string_view, std::vector<u8>>(const std::string_view&, std::vector<u8>&, size_t); \
    template size_t roots::grown::hash<H, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, user::grown<char>&, size_t); \
    template size_t roots::grown::hash<H, std::span<const char>, std::vector<char>>(const std::span<const char>&, std::vector<char>&, size_t); \
    template size_t roots::grown::hash<H, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, user::grown<u8>&, size_t); \
    template size_t roots::grown::hash<H, std::vector<char>, std::string>(const std::vector<char>&, std::string&, size_t); \
    template void roots::fixed::hash_returned<H, std::string, arr<char, 16>>(const std::string&, std::array<u8, H::digest_size>&, arr<char, 16>&); \
    template void roots::fixed::hash_returned<H, std::string_view, arr<u8, 1>>(const std::string_view&, std::array<u8, H::digest_size>&, arr<u8, 1>&); \
    template void roots::fixed::hash_returned<H, std::vector<u8>, arr<u8, 20>>(const std::vector<u8>&, std::array<u8, H::digest_size>&, arr<u8, 20>&);

#define MAC(M) \
    template size_t roots::plain::mac_algorithm<M, char, char>(M&, const char*, size_t, const char*, size_t, char*, size_t); \
    template size_t roots::plain::mac_algorithm<M, u8, u8>(M&, const u8*, size_t, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::mac_algorithm<M, char, u8>(M&, const char*, size_t, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::mac_algorithm<M, s8, char>(M&, const s8*, size_t, const s8*, size_t, char*, size_t); \
    template size_t roots::plain::mac<M, char, char>(const char*, size_t, const char*, size_t, char*, size_t); \
    template size_t roots::plain::mac<M, u8, u8>(const u8*, size_t, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::mac<M, char, u8>(const char*, size_t, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::mac<M, s8, char>(const s8*, size_t, const s8*, size_t, char*, size_t); \
    template size_t roots::fixed::mac<M, std::string, std::array<char, 16>>(const std::string&, const std::string&, std::array<char, 16>&, size_t); \
    template size_t roots::fixed::mac<M, std::string_view, std::span<u8>>(const std::string_view&, const std::string_view&, std::span<u8>&, size_t); \
    template size_t roots::fixed::mac<M, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, const std::vector<u8>&, user::fixed<char>&, size_t); \
    template size_t roots::fixed::mac<M, std::span<const char>, tie<u8>>(const std::span<const char>&, const std::span<const char>&, tie<u8>&, size_t); \
    template size_t roots::fixed::mac<M, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, const user::fixed<u8>&, std::array<u8, 16>&, size_t); \
    template size_t roots::fixed::mac<M, std::vector<char>, std::span<char>>(const std::vector<char>&, const std::vector<char>&, std::span<char>&, size_t); \
    template size_t roots::grown::mac<M, std::string, std::string>(const std::string&, const std::string&, std::string&, size_t); \
    template size_t roots::grown::mac<M, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, std::vector<u8>&, size_t); \
    template size_t roots::grown::mac<M, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, user::grown<char>&, size_t); \
    template size_t roots::grown::mac<M, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, std::vector<char>&, size_t); \
    template size_t roots::grown::mac<M, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, user::grown<u8>&, size_t); \
    template size_t roots::grown::mac<M, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, std::string&, size_t); \
    template void roots::fixed::mac_returned<M, std::string, arr<char, 16>>(const std::string&, const std::string&, std::array<u8, M::digest_size>&, arr<char, 16>&); \
    template void roots::fixed::mac_returned<M, std::string_view, arr<u8, 1>>(const std::string_view&, const std::string_view&, std::array<u8, M::digest_size>&, arr<u8, 1>&); \
    template void roots::fixed::mac_returned<M, std::vector<u8>, arr<u8, 13>>(const std::vector<u8>&, const std::vector<u8>&, std::array<u8, M::digest_size>&, arr<u8, 13>&);

#define CIPHER(C) \
    template size_t roots::plain::cipher_algorithm<C, char, char>(C&, const char*, size_t, const char*, size_t, const char*, size_t, char*); \
    template size_t roots::plain::cipher_algorithm<C, u8, u8>(C&, const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*); \
    template size_t roots::plain::cipher_algorithm<C, char, u8>(C&, const char*, size_t, const char*, size_t, const char*, size_t, u8*); \
    template size_t roots::plain::cipher_algorithm<C, s8, char>(C&, const s8*, size_t, const s8*, size_t, const s8*, size_t, char*); \
    template size_t roots::plain::cipher<C, char, char>(const char*, size_t, const char*, size_t, const char*, size_t, char*); \
    template size_t roots::plain::cipher<C, u8, u8>(const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*); \
    template size_t roots::plain::cipher<C, char, u8>(const char*, size_t, const char*, size_t, const char*, size_t, u8*); \
    template size_t roots::plain::cipher<C, s8, char>(const s8*, size_t, const s8*, size_t, const s8*, size_t, char*); \
    template size_t roots::fixed::cipher<C, std::string, std::array<char, 16>>(const std::string&, const std::string&, const std::string&, std::array<char, 16>&); \
    template size_t roots::fixed::cipher<C, std::string_view, std::span<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, std::span<u8>&); \
    template size_t roots::fixed::cipher<C, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::fixed<char>&); \
    template size_t roots::fixed::cipher<C, std::span<const char>, tie<u8>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, tie<u8>&); \
    template size_t roots::fixed::cipher<C, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, std::array<u8, 16>&); \
    template size_t roots::fixed::cipher<C, std::vector<char>, std::span<char>>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::span<char>&); \
    template size_t roots::grown::cipher<C, std::string, std::string>(const std::string&, const std::string&, const std::string&, std::string&); \
    template size_t roots::grown::cipher<C, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, std::vector<u8>&); \
    template size_t roots::grown::cipher<C, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::grown<char>&); \
    template size_t roots::grown::cipher<C, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, std::vector<char>&); \
    template size_t roots::grown::cipher<C, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, user::grown<u8>&); \
    template size_t roots::grown::cipher<C, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::string&);

#define HKDF(K) \
    template size_t roots::plain::hkdf_algorithm<K, char, char>(K&, const char*, size_t, const char*, size_t, const char*, size_t, char*, size_t); \
    template size_t roots::plain::hkdf_algorithm<K, u8, u8>(K&, const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::hkdf_algorithm<K, char, u8>(K&, const char*, size_t, const char*, size_t, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::hkdf_algorithm<K, s8, char>(K&, const s8*, size_t, const s8*, size_t, const s8*, size_t, char*, size_t); \
    template size_t roots::plain::hkdf<K, char, char>(const char*, size_t, const char*, size_t, const char*, size_t, char*, size_t); \
    template size_t roots::plain::hkdf<K, u8, u8>(const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::hkdf<K, char, u8>(const char*, size_t, const char*, size_t, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::hkdf<K, s8, char>(const s8*, size_t, const s8*, size_t, const s8*, size_t, char*, size_t); \
    template size_t roots::fixed::hkdf<K, std::string, std::array<char, 16>>(const std::string&, const std::string&, const std::string&, std::array<char, 16>&, size_t); \
    template size_t roots::fixed::hkdf<K, std::string_view, std::span<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, std::span<u8>&, size_t); \
    template size_t roots::fixed::hkdf<K, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::fixed<char>&, size_t); \
    template size_t roots::fixed::hkdf<K, std::span<const char>, tie<u8>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, tie<u8>&, size_t); \
    template size_t roots::fixed::hkdf<K, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, std::array<u8, 16>&, size_t); \
    template size_t roots::fixed::hkdf<K, std::vector<char>, std::span<char>>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::span<char>&, size_t); \
    template size_t roots::grown::hkdf<K, std::string, std::string>(const std::string&, const std::string&, const std::string&, std::string&, size_t); \
    template size_t roots::grown::hkdf<K, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, std::vector<u8>&, size_t); \
    template size_t roots::grown::hkdf<K, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::grown<char>&, size_t); \
    template size_t roots::grown::hkdf<K, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, std::vector<char>&, size_t); \
    template size_t roots::grown::hkdf<K, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, user::grown<u8>&, size_t); \
    template size_t roots::grown::hkdf<K, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::string&, size_t); \
    template void roots::fixed::hkdf_returned<K, std::string, arr<char, 16>>(const std::string&, const std::string&, const std::string&, arr<char, 16>&); \
    template void roots::fixed::hkdf_returned<K, std::string_view, arr<u8, 70>>(const std::string_view&, const std::string_view&, const std::string_view&, arr<u8, 70>&);

#define PBKDF(K) \
    template size_t roots::plain::pbkdf_algorithm<K, char, char>(K&, const char*, size_t, const char*, size_t, uint32_t, char*, size_t); \
    template size_t roots::plain::pbkdf_algorithm<K, u8, u8>(K&, const u8*, size_t, const u8*, size_t, uint32_t, u8*, size_t); \
    template size_t roots::plain::pbkdf_algorithm<K, char, u8>(K&, const char*, size_t, const char*, size_t, uint32_t, u8*, size_t); \
    template size_t roots::plain::pbkdf_algorithm<K, s8, char>(K&, const s8*, size_t, const s8*, size_t, uint32_t, char*, size_t); \
    template size_t roots::plain::pbkdf<K, char, char>(const char*, size_t, const char*, size_t, uint32_t, char*, size_t); \
    template size_t roots::plain::pbkdf<K, u8, u8>(const u8*, size_t, const u8*, size_t, uint32_t, u8*, size_t); \
    template size_t roots::plain::pbkdf<K, char, u8>(const char*, size_t, const char*, size_t, uint32_t, u8*, size_t); \
    template size_t roots::plain::pbkdf<K, s8, char>(const s8*, size_t, const s8*, size_t, uint32_t, char*, size_t); \
    template size_t roots::fixed::pbkdf<K, std::string, std::array<char, 16>>(const std::string&, const std::string&, uint32_t, std::array<char, 16>&, size_t); \
    template size_t roots::fixed::pbkdf<K, std::string_view, std::span<u8>>(const std::string_view&, const std::string_view&, uint32_t, std::span<u8>&, size_t); \
    template size_t roots::fixed::pbkdf<K, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, const std::vector<u8>&, uint32_t, user::fixed<char>&, size_t); \
    template size_t roots::fixed::pbkdf<K, std::span<const char>, tie<u8>>(const std::span<const char>&, const std::span<const char>&, uint32_t, tie<u8>&, size_t); \
    template size_t roots::fixed::pbkdf<K, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, const user::fixed<u8>&, uint32_t, std::array<u8, 16>&, size_t); \
    template size_t roots::fixed::pbkdf<K, std::vector<char>, std::span<char>>(const std::vector<char>&, const std::vector<char>&, uint32_t, std::span<char>&, size_t); \
    template size_t roots::grown::pbkdf<K, std::string, std::string>(const std::string&, const std::string&, uint32_t, std::string&, size_t); \
    template size_t roots::grown::pbkdf<K, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, uint32_t, std::vector<u8>&, size_t); \
    template size_t roots::grown::pbkdf<K, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, uint32_t, user::grown<char>&, size_t); \
    template size_t roots::grown::pbkdf<K, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, uint32_t, std::vector<char>&, size_t); \
    template size_t roots::grown::pbkdf<K, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, uint32_t, user::grown<u8>&, size_t); \
    template size_t roots::grown::pbkdf<K, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, uint32_t, std::string&, size_t); \
    template void roots::fixed::pbkdf_returned<K, std::string, arr<char, 16>>(const std::string&, const std::string&, uint32_t, arr<char, 16>&); \
    template void roots::fixed::pbkdf_returned<K, std::string_view, arr<u8, 70>>(const std::string_view&, const std::string_view&, uint32_t, arr<u8, 70>&);

#define AEAD(A) \
    template size_t roots::quiet::aead<A, std::string, std::string>(const std::string&, const std::string&, const std::string&, const std::string&, const std::string&, std::string&, error&); \
    template size_t roots::quiet::aead<A, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, std::vector<u8>&, error&); \
    template size_t roots::quiet::aead<A, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::grown<char>&, error&); \
    template size_t roots::quiet::aead<A, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, std::vector<char>&, error&); \
    template size_t roots::quiet::aead<A, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, user::grown<u8>&, error&); \
    template size_t roots::quiet::aead<A, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::string&, error&); \
    template size_t roots::plain::aead_algorithm<A, char, char>(A&, const char*, size_t, const char*, size_t, const char*, size_t, char*, size_t); \
    template size_t roots::plain::aead_algorithm<A, u8, u8>(A&, const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*, size_t); \
    template size_t roots::plain::aead_algorithm<A, char, u8>(A&, const char*, size_t, const char*, size_t, const char*, size_t, u8*, size_t); \
    template size_t roots::plain::aead_algorithm<A, s8, char>(A&, const s8*, size_t, const s8*, size_t, const s8*, size_t, char*, size_t); \
    template size_t roots::plain::aead<A, char, char>(const char*, size_t, const char*, size_t, const char*, size_t, char*, size_t, error&); \
    template size_t roots::plain::aead<A, u8, u8>(const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*, size_t, error&); \
    template size_t roots::plain::aead<A, char, u8>(const char*, size_t, const char*, size_t, const char*, size_t, u8*, size_t, error&); \
    template size_t roots::plain::aead<A, s8, char>(const s8*, size_t, const s8*, size_t, const s8*, size_t, char*, size_t, error&); \
    template size_t roots::thrown::aead<A, char, char>(p::aead::apie<A>&, const char*, size_t, const char*, size_t, const char*, size_t, char*); \
    template size_t roots::thrown::aead<A, u8, u8>(p::aead::apie<A>&, const u8*, size_t, const u8*, size_t, const u8*, size_t, u8*); \
    template size_t roots::thrown::aead<A, char, u8>(p::aead::apie<A>&, const char*, size_t, const char*, size_t, const char*, size_t, u8*); \
    template size_t roots::thrown::aead<A, s8, char>(p::aead::apie<A>&, const s8*, size_t, const s8*, size_t, const s8*, size_t, char*); \
    template size_t roots::thrown::aead_fixed<A, std::string, std::array<char, 16>>(p::aead::apie<A>&, const std::string&, const std::string&, const std::string&, const std::string&, const std::string&, std::array<char, 16>&); \
    template size_t roots::thrown::aead_fixed<A, std::string_view, std::span<u8>>(p::aead::apie<A>&, const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, std::span<u8>&); \
    template size_t roots::thrown::aead_fixed<A, std::vector<u8>, user::fixed<char>>(p::aead::apie<A>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::fixed<char>&); \
    template size_t roots::thrown::aead_fixed<A, std::span<const char>, tie<u8>>(p::aead::apie<A>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, tie<u8>&); \
    template size_t roots::thrown::aead_fixed<A, user::fixed<u8>, std::array<u8, 16>>(p::aead::apie<A>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, std::array<u8, 16>&); \
    template size_t roots::thrown::aead_fixed<A, std::vector<char>, std::span<char>>(p::aead::apie<A>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::span<char>&); \
    template size_t roots::fixed::aead<A, std::string, std::array<char, 16>>(const std::string&, const std::string&, const std::string&, const std::string&, const std::string&, std::array<char, 16>&, std::array<char, 16>&, size_t, error&); \
    template size_t roots::fixed::aead<A, std::string_view, std::span<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, std::span<u8>&, std::span<u8>&, size_t, error&); \
    template size_t roots::fixed::aead<A, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::fixed<char>&, user::fixed<char>&, size_t, error&); \
    template size_t roots::fixed::aead<A, std::span<const char>, tie<u8>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, tie<u8>&, tie<u8>&, size_t, error&); \
    template size_t roots::fixed::aead<A, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, std::array<u8, 16>&, std::array<u8, 16>&, size_t, error&); \
    template size_t roots::fixed::aead<A, std::vector<char>, std::span<char>>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::span<char>&, std::span<char>&, size_t, error&); \
    template size_t roots::grown::aead<A, std::string, std::string>(const std::string&, const std::string&, const std::string&, const std::string&, const std::string&, std::string&, std::string&, size_t, error&); \
    template size_t roots::grown::aead<A, std::string_view, std::vector<u8>>(const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, const std::string_view&, std::vector<u8>&, std::vector<u8>&, size_t, error&); \
    template size_t roots::grown::aead<A, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, const std::vector<u8>&, user::grown<char>&, user::grown<char>&, size_t, error&); \
    template size_t roots::grown::aead<A, std::span<const char>, std::vector<char>>(const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, const std::span<const char>&, std::vector<char>&, std::vector<char>&, size_t, error&); \
    template size_t roots::grown::aead<A, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, const user::fixed<u8>&, user::grown<u8>&, user::grown<u8>&, size_t, error&); \
    template size_t roots::grown::aead<A, std::vector<char>, std::string>(const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, const std::vector<char>&, std::string&, std::string&, size_t, error&); \
    template void roots::fixed::aead_returned<A, std::string, arr<char, 16>>(const std::string&, const std::string&, const std::string&, arr<u8, 16>&, arr<char, 16>&); \
    template void roots::fixed::aead_returned<A, std::string_view, arr<u8, 7>>(const std::string_view&, const std::string_view&, const std::string_view&, arr<u8, 16>&, arr<u8, 7>&);

#define CODEC(D) \
    template size_t roots::quiet::codec<D, std::string, std::string>(const std::string&, std::string&, error&); \
    template size_t roots::quiet::codec<D, std::string_view, std::vector<u8>>(const std::string_view&, std::vector<u8>&, error&); \
    template size_t roots::quiet::codec<D, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, user::grown<char>&, error&); \
    template size_t roots::quiet::codec<D, std::span<const char>, std::vector<char>>(const std::span<const char>&, std::vector<char>&, error&); \
    template size_t roots::quiet::codec<D, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, user::grown<u8>&, error&); \
    template size_t roots::quiet::codec<D, std::vector<char>, std::string>(const std::vector<char>&, std::string&, error&); \
    template size_t roots::plain::codec<D, char, char>(const char*, size_t, char*, error&); \
    template size_t roots::plain::codec<D, u8, u8>(const u8*, size_t, u8*, error&); \
    template size_t roots::plain::codec<D, char, u8>(const char*, size_t, u8*, error&); \
    template size_t roots::plain::codec<D, s8, char>(const s8*, size_t, char*, error&); \
    template size_t roots::thrown::codec<D, char, char>(const char*, size_t, char*); \
    template size_t roots::thrown::codec<D, u8, u8>(const u8*, size_t, u8*); \
    template size_t roots::thrown::codec<D, char, u8>(const char*, size_t, u8*); \
    template size_t roots::thrown::codec<D, s8, char>(const s8*, size_t, char*); \
    template size_t roots::fixed::codec<D, std::string, std::array<char, 16>>(const std::string&, std::array<char, 16>&, error&); \
    template size_t roots::fixed::codec<D, std::string_view, std::span<u8>>(const std::string_view&, std::span<u8>&, error&); \
    template size_t roots::fixed::codec<D, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, user::fixed<char>&, error&); \
    template size_t roots::fixed::codec<D, std::span<const char>, tie<u8>>(const std::span<const char>&, tie<u8>&, error&); \
    template size_t roots::fixed::codec<D, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, std::array<u8, 16>&, error&); \
    template size_t roots::fixed::codec<D, std::vector<char>, std::span<char>>(const std::vector<char>&, std::span<char>&, error&); \
    template size_t roots::thrown::codec_fixed<D, std::string, std::array<char, 16>>(const std::string&, std::array<char, 16>&); \
    template size_t roots::thrown::codec_fixed<D, std::string_view, std::span<u8>>(const std::string_view&, std::span<u8>&); \
    template size_t roots::thrown::codec_fixed<D, std::vector<u8>, user::fixed<char>>(const std::vector<u8>&, user::fixed<char>&); \
    template size_t roots::thrown::codec_fixed<D, std::span<const char>, tie<u8>>(const std::span<const char>&, tie<u8>&); \
    template size_t roots::thrown::codec_fixed<D, user::fixed<u8>, std::array<u8, 16>>(const user::fixed<u8>&, std::array<u8, 16>&); \
    template size_t roots::thrown::codec_fixed<D, std::vector<char>, std::span<char>>(const std::vector<char>&, std::span<char>&); \
    template size_t roots::grown::codec<D, std::string, std::string>(const std::string&, std::string&, error&); \
    template size_t roots::grown::codec<D, std::string_view, std::vector<u8>>(const std::string_view&, std::vector<u8>&, error&); \
    template size_t roots::grown::codec<D, std::vector<u8>, user::grown<char>>(const std::vector<u8>&, user::grown<char>&, error&); \
    template size_t roots::grown::codec<D, std::span<const char>, std::vector<char>>(const std::span<const char>&, std::vector<char>&, error&); \
    template size_t roots::grown::codec<D, user::fixed<u8>, user::grown<u8>>(const user::fixed<u8>&, user::grown<u8>&, error&); \
    template size_t roots::grown::codec<D, std::vector<char>, std::string>(const std::vector<char>&, std::string&, error&);

HASH(p::hash::sha_1_160<>)
HASH(p::hash::sha_2_256<>)
HASH(p::hash::sha_2_512<>)
#ifdef ALL
HASH(p::hash::sha_2_224<>)
HASH(p::hash::sha_2_384<>)
HASH(p::hash::sha_2_512_224<>)
HASH(p::hash::sha_2_512_256<>)
#endif
MAC(p::mac::hmac<p::hash::sha_1_160<>>)
MAC(p::mac::hmac<p::hash::sha_2_512<>>)
MAC(p::mac::poly_1305<>)
#ifdef ALL
MAC(p::mac::hmac<p::hash::sha_2_256<>>)
MAC(p::mac::hmac<p::hash::sha_2_384<>>)
HKDF(p::kdf::hkdf<p::mac::hmac<p::hash::sha_1_160<>>>)
HKDF(p::kdf::hkdf<p::mac::hmac<p::hash::sha_2_512<>>>)
PBKDF(p::kdf::pbkdf_2<p::mac::hmac<p::hash::sha_1_160<>>>)
PBKDF(p::kdf::pbkdf_2<p::mac::hmac<p::hash::sha_2_512<>>>)
#endif
CIPHER(p::cipher::chacha_20<>)
HKDF(p::kdf::hkdf<p::mac::hmac<p::hash::sha_2_256<>>>)
PBKDF(p::kdf::pbkdf_2<p::mac::hmac<p::hash::sha_2_256<>>>)
AEAD(p::aead::chacha_20_poly_1305<>)
CODEC(p::codec::base_16<>)
CODEC(p::codec::base_64<>)
