From 938eec2bd5c284958fc1db8408f02c40232c0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 01/17] fix: aead decrypt one-liners are noexcept only when the
 error is returned by reference

The condition was inverted: the throwing overloads were noexcept(true), so a
forged tag ended in std::terminate instead of a catchable milo::error.
---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..6755cbc 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1159,7 +1159,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) == 1
     )
     ) -> size_t
     requires
@@ -1252,7 +1252,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) == 1 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From fdeda19443ee753bb7143ef481e106c26a234c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 02/17] fix: add the pointer constructor the cipher one-liners
 use

The pointer overloads of cipher::encrypt and cipher::decrypt construct
apie(key_ptr, key_size, iv_ptr, iv_size), which did not exist, so neither
overload could ever be instantiated.
---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From 1d5468c5e36c205fbec061ad790ae60c2333d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 03/17] fix: make namespace-scope header functions inline

Two translation units that include milo headers failed to link with multiple
definitions of arch_x86_64_cpuid and of the _b and _bv literals.
---
 src/milo/internal/arch/x86_64.h | 1 +
 src/milo/literal.h              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a84eed5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,6 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
+    inline
     auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..153e89f 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,6 +11,7 @@
 
 namespace milo::literal
 {
+    inline
     auto
     operator "" _b(
         const char* a_ptr,
@@ -23,6 +24,7 @@ namespace milo::literal
         };
     }
     
+    inline
     auto
     operator "" _bv(
         const char* a_ptr,
-- 
2.43.0


From 4eef10f4ad0d72275b547248b093ba6f7f380c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 04/17] fix: base 16 decodes every byte of an odd-length input

The output pointer was advanced past the leading half byte and the loop also
started at 1, so one byte was left unwritten and the last one was dropped.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..50f385e 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From acac89ded6d741ba673c5e417ce296bfa2381089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 05/17] fix: base 16 decode reports bytes written when it fails

It returned the number of characters consumed, up to twice the capacity that
decode_size promises, and the containers were resized to that.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 50f385e..b50a874 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (c_0 == b_0 || c_1 == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return last_size + i;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 35d7f6d922142cceade4255d2e8d749853a74020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 06/17] fix: codecs reject characters above 0x7f

An invalid character decodes to itself, and that was tested by comparing a
signed char with uint8_t, which can never be equal for 0x80 and above: such
input decoded to garbage without an error.
---
 src/milo/primitive/detail/codec/base_16.h |  6 +++---
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index b50a874..caae1be 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -127,7 +127,7 @@ namespace milo::primitive::detail
             
             if (last_size)
             {
-                auto c_0 = char(from_ptr[0]);
+                auto c_0 = uint8_t(from_ptr[0]);
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
@@ -145,8 +145,8 @@ namespace milo::primitive::detail
             
             for (size_t i = 0; i < full_size; i += 1)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
                 auto b_0 = decode(c_0);
                 auto b_1 = decode(c_1);
                 
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..cdfc7f9 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -177,10 +177,10 @@ namespace milo::primitive::detail
             
             for (size_t i = 1; i < full_size; i += 1)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
-                auto c_2 = char(from_ptr[2]);
-                auto c_3 = char(from_ptr[3]);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
+                auto c_2 = uint8_t(from_ptr[2]);
+                auto c_3 = uint8_t(from_ptr[3]);
                 auto b_0 = decode(c_0);
                 auto b_1 = decode(c_1);
                 auto b_2 = decode(c_2);
@@ -207,10 +207,10 @@ namespace milo::primitive::detail
             
             if (full_size > 0)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
-                auto c_2 = char(from_ptr[2]);
-                auto c_3 = char(from_ptr[3]);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
+                auto c_2 = uint8_t(from_ptr[2]);
+                auto c_3 = uint8_t(from_ptr[3]);
                 auto b_0 = decode(c_0);
                 auto b_1 = decode(c_1);
                 auto b_2 = decode(c_2);
-- 
2.43.0


From 29135da2e5405301330b0e0d029b46ed1a9f25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 07/17] fix: poly 1305 reads the key as little endian words

The key was copied in native order, so tags were wrong on big endian hosts.
---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..ee10c78 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -107,7 +107,7 @@ namespace milo::primitive::detail
             size_t a_key_size
         ) noexcept(true) -> void
         {
-            internal::memory_init(
+            internal::memory_init_le(
                 m_key_r,
                 a_key_ptr,
                 a_key_size
-- 
2.43.0


From bdbe991692e28258bcbff6b30a4f3dbb4a7ebd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 08/17] fix: poly 1305 honours its implementation options

The options were not passed to the implementation proxy, so impl_enforce and
the other selection options had no effect.
---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index ee10c78..005ac9a 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -27,7 +27,8 @@ namespace milo::primitive::detail
                 >,
                 internal::impl_runtime<
                     mac_poly_1305_impl_sw
-                >
+                >,
+                t_options...
             >
         {
             static
-- 
2.43.0


From 9921dd72ace2fc058a33c1db519e151d190bec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 09/17] fix: aead digest closes the aad when nothing was
 encrypted

With no encrypt or decrypt call between aad and digest the padding that ends
the additional data was left out of the tag.
---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 6755cbc..29db4e0 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 21bbc1ba628f1512a3746b0e8a04d154674e4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 10/17] fix: zero the one-time mac key and the pbkdf 2 blocks
 on the stack

Both are key material that was left in dead stack memory.
---
 src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h | 2 ++
 src/milo/primitive/detail/kdf/pbkdf_2.h                     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 630103f..d935685 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -117,6 +117,8 @@ namespace milo::primitive::detail
                 init_mac_key_size
             );
             
+            internal::memory_erase(init_mac_key);
+            
             m_aad_processed_size = 0;
             m_edd_processed_size = 0;
         }
diff --git a/src/milo/primitive/detail/kdf/pbkdf_2.h b/src/milo/primitive/detail/kdf/pbkdf_2.h
index 61d761c..e3f5ba9 100644
--- a/src/milo/primitive/detail/kdf/pbkdf_2.h
+++ b/src/milo/primitive/detail/kdf/pbkdf_2.h
@@ -143,6 +143,9 @@ namespace milo::primitive::detail
                 buffer_1,
                 expand_size
             );
+            
+            internal::memory_erase(buffer_0);
+            internal::memory_erase(buffer_1);
         }
     
     public:
-- 
2.43.0


From c1d1759184d5cb067ebe136fc898c4c0970de5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 11/17] fix: reject digest_size options the algorithm cannot
 produce

A larger option made digest read past the state and hand out other members of
the object (for hmac a tail that was never written); zero made verify accept
an empty digest.
---
 src/milo/primitive/detail/hash/sha/sha_1_160.h | 5 +++++
 src/milo/primitive/detail/hash/sha/sha_2_256.h | 5 +++++
 src/milo/primitive/detail/hash/sha/sha_2_512.h | 5 +++++
 src/milo/primitive/detail/mac/hmac/hmac.h      | 5 +++++
 src/milo/primitive/detail/mac/poly/poly_1305.h | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/src/milo/primitive/detail/hash/sha/sha_1_160.h b/src/milo/primitive/detail/hash/sha/sha_1_160.h
index 5e110e6..7d218c3 100644
--- a/src/milo/primitive/detail/hash/sha/sha_1_160.h
+++ b/src/milo/primitive/detail/hash/sha/sha_1_160.h
@@ -61,6 +61,11 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(
+            digest_size > 0 &&
+            digest_size <= bits / 8
+        );
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_256.h b/src/milo/primitive/detail/hash/sha/sha_2_256.h
index da23024..15b21d2 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_256.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_256.h
@@ -61,6 +61,11 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(
+            digest_size > 0 &&
+            digest_size <= bits / 8
+        );
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_512.h b/src/milo/primitive/detail/hash/sha/sha_2_512.h
index 5111b34..34bc14f 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_512.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_512.h
@@ -59,6 +59,11 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(
+            digest_size > 0 &&
+            digest_size <= bits / 8
+        );
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/hmac/hmac.h b/src/milo/primitive/detail/mac/hmac/hmac.h
index e4b78ed..126b36d 100644
--- a/src/milo/primitive/detail/mac/hmac/hmac.h
+++ b/src/milo/primitive/detail/mac/hmac/hmac.h
@@ -40,6 +40,11 @@ namespace milo::primitive::detail
                 hash_type::digest_size,
                 t_options...
             >;
+        
+        static_assert(
+            digest_size > 0 &&
+            digest_size <= hash_type::digest_size
+        );
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 005ac9a..a9cacb0 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -55,6 +55,11 @@ namespace milo::primitive::detail
                 16,
                 t_options...
             >;
+        
+        static_assert(
+            digest_size > 0 &&
+            digest_size <= 16
+        );
     
     private:
         
-- 
2.43.0


From 65436c0aa11a08bb8e8a9bc744174e7aac376336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 12/17] fix: give every member of the wrappers and of the aead
 an initial value

A default-constructed object held indeterminate flags and counters, so copying
it, which the documentation allows, read indeterminate values.
---
 src/milo/primitive/aead/apie.h                              | 4 ++--
 src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h | 4 ++--
 src/milo/primitive/hash/apie.h                              | 2 +-
 src/milo/primitive/mac/apie.h                               | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 29db4e0..d58bc2f 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -38,9 +38,9 @@ namespace milo::primitive::aead
         
         impl_type m_impl;
         
-        bool m_finalized_aad;
+        bool m_finalized_aad = false;
         
-        bool m_finalized;
+        bool m_finalized = false;
     
     public:
         
diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index d935685..8af7002 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -47,9 +47,9 @@ namespace milo::primitive::detail
         
         mac_type m_mac;
         
-        uint64_t m_aad_processed_size;
+        uint64_t m_aad_processed_size = 0;
         
-        uint64_t m_edd_processed_size;
+        uint64_t m_edd_processed_size = 0;
     
     public:
         
diff --git a/src/milo/primitive/hash/apie.h b/src/milo/primitive/hash/apie.h
index c776888..85b9012 100644
--- a/src/milo/primitive/hash/apie.h
+++ b/src/milo/primitive/hash/apie.h
@@ -35,7 +35,7 @@ namespace milo::primitive::hash
         
         impl_type m_impl;
         
-        bool m_finalized;
+        bool m_finalized = false;
     
     public:
         
diff --git a/src/milo/primitive/mac/apie.h b/src/milo/primitive/mac/apie.h
index 1bb6355..c3c329b 100644
--- a/src/milo/primitive/mac/apie.h
+++ b/src/milo/primitive/mac/apie.h
@@ -35,7 +35,7 @@ namespace milo::primitive::mac
         
         impl_type m_impl;
         
-        bool m_finalized;
+        bool m_finalized = false;
     
     public:
         
-- 
2.43.0


From 5ea2431f45a6a5240cef791eb23c3dcac04d753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 13/17] fix: the application no longer pops from an empty
 string

Without arguments dump() called pop_back on an empty string, which ended in an
uncaught std::bad_alloc.
---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From 3f54042fd04903592e8e20c46741e7d50d98ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 14/17] fix: make the option solvers class templates so that
 clang compiles the headers

---
 src/milo/internal/option.h | 70 +++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/milo/internal/option.h b/src/milo/internal/option.h
index 17dfc1c..e21c87a 100644
--- a/src/milo/internal/option.h
+++ b/src/milo/internal/option.h
@@ -138,25 +138,28 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_ofvalue_is_v<t_option>;
-                    requires meta::same<
-                        meta::del_constant<
-                            decltype(t_option::value)
-                        >,
-                        t_type
-                    >;
-                    requires meta::same<
-                        t_option,
-                        option<t_option::value>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_ofvalue_is_v<t_option>;
+                        requires meta::same<
+                            meta::del_constant<
+                                decltype(t_option::value)
+                            >,
+                            t_type
+                        >;
+                        requires meta::same<
+                            t_option,
+                            option<t_option::value>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
@@ -224,19 +227,22 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_oftype_is_v<t_option>;
-                    requires meta::same<
-                        t_option,
-                        option<typename t_option::type>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_oftype_is_v<t_option>;
+                        requires meta::same<
+                            t_option,
+                            option<typename t_option::type>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
-- 
2.43.0


From ac4bc3fc1e7665ee3763f990ce7c9a8ddd4f371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 15/17] fix: the assembly does not ask for an executable stack

---
 src/milo/internal/arch/x86_64/abi.asm | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/milo/internal/arch/x86_64/abi.asm b/src/milo/internal/arch/x86_64/abi.asm
index b5e6ee3..96bd297 100644
--- a/src/milo/internal/arch/x86_64/abi.asm
+++ b/src/milo/internal/arch/x86_64/abi.asm
@@ -15,3 +15,11 @@
     %define abi_arg_2 r8
     %define abi_arg_3 r9
 %endif
+
+; Tell the linker that the stack does not have to be executable.
+
+%ifidn __?OUTPUT_FORMAT?__, elf64
+    section .note.GNU-stack noalloc noexec nowrite progbits
+    
+    section .text
+%endif
-- 
2.43.0


From 657ed6fa42fd104aea40375ddf7d1da8ea2cede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 16/17] fix: tuple deduces values so that the aead encrypt
 one-liners compile

---
 src/milo/container.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/container.h b/src/milo/container.h
index 32ce35a..850afbe 100644
--- a/src/milo/container.h
+++ b/src/milo/container.h
@@ -123,6 +123,6 @@ namespace milo::container
         typename... t_args
     >
     tuple(
-        t_args&& ... a_args
+        t_args ... a_args
     ) -> tuple<t_args...>;
 }
-- 
2.43.0


From 28088ee7c1e931e50aa3414792e1e9303d281ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 17/17] fix: signed char data is accepted as the interface
 promises

---
 src/milo/meta.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 4613eca..9deae10 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -232,7 +232,8 @@ namespace milo::meta
     using type_map_char_ptr_to_unsigned_char_ptr = type_map<
         t_arg,
         unsigned char*,
-        char*
+        char*,
+        signed char*
     >;
     
     template<
@@ -241,7 +242,8 @@ namespace milo::meta
     using type_map_const_char_ptr_to_const_unsigned_char_ptr = type_map<
         t_arg,
         const unsigned char*,
-        const char*
+        const char*,
+        const signed char*
     >;
     
     template<typename t_0>
-- 
2.43.0

