From 6094690727c8964d89864f85086dc276509716ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 01/32] fix: select sha3-256 by its name and reject unknown
 hash names

---
 src/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 6cd817c..3b407ae 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -22,11 +22,11 @@ struct Hash::Impl {
       impl.emplace<SHA2<512>>();
     } else if (hashName == "sha3-224") {
       impl.emplace<SHA3<224>>();
-    } else if (hashName == "sha2-256") {
+    } else if (hashName == "sha3-256") {
       impl.emplace<SHA3<256>>();
     } else if (hashName == "sha3-384") {
       impl.emplace<SHA3<384>>();
-    } else if ("sha3-512") {
+    } else if (hashName == "sha3-512") {
       impl.emplace<SHA3<512>>();
     } else {
       throw std::runtime_error("Invalid hash selected");
-- 
2.43.0


From a02a431a086a29db214029f81099d2845a00c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 02/32] fix: hex form of SHA-224 and SHA-384 is that of the
 truncated digest

---
 include/caligo/sha2.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 0f43f9c..d877478 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -64,7 +64,9 @@ struct SHA2<224> : private SHA2<256> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<256>::operator std::string;
+  inline operator std::string() const {
+    return SHA2<256>::operator std::string().substr(0, 2 * hashsize);
+  }
   using SHA2<256>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04, 0x05, 0x00, 0x04, 0x1c };
@@ -127,7 +129,9 @@ struct SHA2<384> : private SHA2<512> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<512>::operator std::string;
+  inline operator std::string() const {
+    return SHA2<512>::operator std::string().substr(0, 2 * hashsize);
+  }
   using SHA2<512>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30 };
-- 
2.43.0


From 70ced11c9f03fdcf522cff52ad9296bb3c3fe5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 03/32] fix: SHA-3 DigestInfo prefixes carry the digest length
 of their variant

---
 include/caligo/sha3.h | 6 +++---
 src/sha3.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 57e8d01..7cbef6b 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -31,13 +31,13 @@ struct SHA3 {
   }
   static inline std::vector<uint8_t> getAsn1Id() {
     if constexpr (size == 224) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
     } else if constexpr (size == 256) {
       return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x08, 0x05, 0x00, 0x04, 0x20 };
     } else if constexpr (size == 384) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
     } else if constexpr (size == 512) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
     } else {
       return {};
     }
diff --git a/src/sha3.cpp b/src/sha3.cpp
index eed5317..8edee21 100644
--- a/src/sha3.cpp
+++ b/src/sha3.cpp
@@ -123,7 +123,7 @@ void Caligo::SHA3<size>::processChunk() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<224>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
 }
 
 template <>
@@ -133,12 +133,12 @@ std::vector<uint8_t> Caligo::SHA3<256>::getAsn1Id() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<384>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
 }
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<512>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
 }
 
 template struct Caligo::SHA3<224>;
-- 
2.43.0


From 6a609fdfdc7d854dc08e0c1ccd4e7d937cfe56f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 04/32] fix: CTR keystream was wiped by the resize after
 generating it

---
 include/caligo/ctr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/ctr.h b/include/caligo/ctr.h
index c84f7d7..c836c59 100644
--- a/include/caligo/ctr.h
+++ b/include/caligo/ctr.h
@@ -46,7 +46,7 @@ struct CTR {
 
     std::vector<uint8_t> keystream;
     size_t blocks = (size + Cipher::size - 1) / Cipher::size;
-    keystream.reserve(blocks * Cipher::size);
+    keystream.resize(blocks * Cipher::size);
     for (size_t n = 0; n < blocks; n++) {
       ctr_inc(ctr);
       __m128i block = Cipher::Encrypt(sched, _mm_loadu_si128((__m128i*)ctr.data()));
-- 
2.43.0


From ad3f1bd675c4b90c90960a208aae6185f8862c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 05/32] fix: HMAC pads to the block size of the hash and hashes
 longer keys

---
 include/caligo/hkdf.h | 9 +++++++--
 include/caligo/md5.h  | 1 +
 include/caligo/sha1.h | 1 +
 include/caligo/sha2.h | 4 ++++
 include/caligo/sha3.h | 1 +
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 16362a1..a9e95e3 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -10,9 +10,14 @@ namespace Caligo {
 
 template <typename Hash>
 std::array<uint8_t, Hash::hashsize> HMAC(std::span<const uint8_t> text, std::span<const uint8_t> key) {
+  std::array<uint8_t, Hash::hashsize> hashedKey;
+  if (key.size() > Hash::blocksize) {
+    hashedKey = Hash(key);
+    key = hashedKey;
+  }
   std::vector<uint8_t> o(key.begin(), key.end()), i(key.begin(), key.end());
-  o.resize(Hash::hashsize*2);
-  i.resize(Hash::hashsize*2);
+  o.resize(Hash::blocksize);
+  i.resize(Hash::blocksize);
   for (auto& c : o) c ^= 0x5C;
   for (auto& c : i) c ^= 0x36;
   i.insert(i.end(), text.begin(), text.end());
diff --git a/include/caligo/md5.h b/include/caligo/md5.h
index 268fc8f..caf642b 100644
--- a/include/caligo/md5.h
+++ b/include/caligo/md5.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct MD5 {
   static constexpr size_t hashsize = 16;
+  static constexpr size_t blocksize = 64;
   MD5();
   template <typename... T>
   inline MD5(T... ts)
diff --git a/include/caligo/sha1.h b/include/caligo/sha1.h
index 5d3f3e2..fc8564c 100644
--- a/include/caligo/sha1.h
+++ b/include/caligo/sha1.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct SHA1 {
   static constexpr size_t hashsize = 20;
+  static constexpr size_t blocksize = 64;
   SHA1();
   template <typename... T>
   inline SHA1(T... ts)
diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index d877478..5805b71 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -14,6 +14,7 @@ struct SHA2;
 template <>
 struct SHA2<256> {
   static constexpr size_t hashsize = 32;
+  static constexpr size_t blocksize = 64;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -44,6 +45,7 @@ protected:
 template <>
 struct SHA2<224> : private SHA2<256> {
   static constexpr size_t hashsize = 28;
+  static constexpr size_t blocksize = 64;
   inline SHA2() {
     sha224_override();
   }
@@ -79,6 +81,7 @@ struct SHA2<224> : private SHA2<256> {
 template <>
 struct SHA2<512> {
   static constexpr size_t hashsize = 64;
+  static constexpr size_t blocksize = 128;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -109,6 +112,7 @@ protected:
 template <>
 struct SHA2<384> : private SHA2<512> {
   static constexpr size_t hashsize = 48;
+  static constexpr size_t blocksize = 128;
   inline SHA2() {
     sha384_override();
   }
diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 7cbef6b..63c7e01 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -12,6 +12,7 @@ template <size_t size>
 struct SHA3 {
   static constexpr size_t hashsize = size/8;
   static constexpr size_t r = 1600 - 2 * size;
+  static constexpr size_t blocksize = r/8;
   SHA3();
   template <typename... T>
   inline SHA3(T... ts)
-- 
2.43.0


From d33b87a397d5a33b37c41b856a4ea2c87793342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 06/32] fix: TLS 1.3 secret update, exporter and resumption
 secrets could not be instantiated

---
 include/caligo/hkdf.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index a9e95e3..6ccc6fd 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -93,17 +93,19 @@ secret<Hash> HKDF_MasterSecret(secret<Hash> secret) {
 
 template <typename Hash>
 secret<Hash> HKDF_UpdateSecret(secret<Hash> secret) {
-  return {HKDF_Expand_Label<Hash>(secret.data, "traffic upd", Hash(), Hash::hashsize)};
+  std::vector<uint8_t> updated = HKDF_Expand_Label<Hash>(secret.data, "traffic upd", {}, Hash::hashsize);
+  std::copy(updated.begin(), updated.end(), secret.data.begin());
+  return secret;
 }
 
 template <typename Hash>
 std::vector<uint8_t> exporter_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "exp master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "exp master", hash, Hash::hashsize);
 }
 
 template <typename Hash>
 std::vector<uint8_t> resumption_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "res master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "res master", hash, Hash::hashsize);
 }
 
 }
-- 
2.43.0


From ed62224357072d738719880393921f79e6552967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 07/32] fix: X25519 masks the top bit of the received
 u-coordinate

---
 include/caligo/x25519.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index 020bdad..a70466a 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -120,6 +120,7 @@ struct ec_value {
 
 inline ec_value X25519(ec_value k, ec_value u) {
    k.normalize();
+   u.v.clear_bit(255); // RFC 7748, section 5: the top bit of the u-coordinate is masked
 
    ec_value x_2 = {1};
    ec_value z_2 = {0};
-- 
2.43.0


From e145e030950e76f89f83b766a13e66516832f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 08/32] fix: field elements compare unequal exactly when they
 do not compare equal

---
 include/caligo/x25519.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index a70466a..05ce91b 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -18,7 +18,7 @@ struct ec_value {
   bignum<256> v;
   int bit(size_t n) const { return v.bit(n); }
   ec_value& operator=(uint32_t value) { v = value; return *this; }
-  bool operator!=(const ec_value& rhs) { return !(v == rhs.v); }
+  bool operator!=(const ec_value& rhs) const { return !(*this == rhs); }
   constexpr ec_value(std::initializer_list<uint32_t> nv) 
   : v(nv) {}
   constexpr ec_value(bignum<256> nv) 
-- 
2.43.0


From e2a194fbbba0d7cec087349fad80f9e5c437f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 09/32] fix: converting a bignum keeps its partially used top
 word

---
 include/caligo/bignum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/bignum.h b/include/caligo/bignum.h
index 95ace0f..42ed643 100644
--- a/include/caligo/bignum.h
+++ b/include/caligo/bignum.h
@@ -67,7 +67,7 @@ struct bignum {
   : v{}
   {
       size_t n;
-      for (n = 0; n < std::min(K, Bits)/32; n++) {
+      for (n = 0; n < std::min(bignum<K>::N, N); n++) {
           v[n] = value.v[n];
       }
       for (; n < N; n++) {
-- 
2.43.0


From a2de03e41570e809cb44845126a3e2ce3b42d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 10/32] fix: reducing a bignum works for moduli of any length
 and refuses zero

---
 include/caligo/bignum.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/caligo/bignum.h b/include/caligo/bignum.h
index 42ed643..8338eec 100644
--- a/include/caligo/bignum.h
+++ b/include/caligo/bignum.h
@@ -92,14 +92,20 @@ struct bignum {
   }
   template <size_t K>
   constexpr bignum<K> naive_reduce(const bignum<K>& p) const {
-    bignum<Bits> s = p;
-    bignum<Bits> c = *this;
+    if (p == bignum<K>(0)) throw std::runtime_error("Reduction modulo zero");
+    using wide = bignum<std::max(Bits, K)>;
+    wide s = p;
+    wide c = *this;
     size_t shift = 0;
-    while (s.v[(Bits + 31)/32 - 1] == 0) {
+    while (s.v[wide::N - 1] == 0) {
       s.shl_word(1);
+      shift += 32;
+    }
+    while (not (s.v[wide::N - 1] & 0x80000000)) {
+      s.add(s.v);
       shift++;
     }
-    for (size_t n = 0; n <= (shift * 32); n++) {
+    for (size_t n = 0; n <= shift; n++) {
       auto [overflow, c2] = c - s;
       c = (overflow ? c : c2);
       s.shr1();
-- 
2.43.0


From 988d1325c3d6138a274fd6222c3a84a21c4eab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 11/32] fix: Montgomery reduction yields the canonical residue

---
 include/caligo/mont.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 25fe245..3104d9a 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -48,7 +48,7 @@ struct MontgomeryState {
     auto vmn = v + mn;
     bignum<K> t = vmn.second.template slice<K>(K);
     auto [carry, t2] = t - N;
-    return vmn.first ? t2 : t;
+    return (vmn.first || !carry) ? t2 : t;
   }
 };
 
-- 
2.43.0


From f0d83dd34b57d8826f855003dac27e23e44f0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 12/32] fix: Montgomery addition reduces its result

---
 include/caligo/mont.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 3104d9a..512f89e 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -64,7 +64,9 @@ struct MontgomeryValue {
   }
   MontgomeryValue operator+(const MontgomeryValue& rhs) const {
     MontgomeryValue rv(state);
-    rv.value = (value + rhs.value).second;
+    auto [carry, sum] = value + rhs.value;
+    auto [underflow, reduced] = sum - state->N;
+    rv.value = (carry || !underflow) ? reduced : sum;
     return rv;
   }
   MontgomeryValue operator*(const MontgomeryValue& rhs) const {
-- 
2.43.0


From 89cab307a69796e0b1a9abd7b079ee6b3cc5248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:36 +0000
Subject: [PATCH 13/32] fix: exponentiation by a 32-bit exponent uses that
 exponent

---
 include/caligo/mont.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 512f89e..294d826 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -80,13 +80,13 @@ struct MontgomeryValue {
     return rv;
   }
   MontgomeryValue exp(uint32_t exponent) const {
-    (void)exponent;
     MontgomeryValue b = *this;
     MontgomeryValue<K> v(*state, 1);
-    for (size_t n = 0; n < 16; n++) {
+    for (; exponent != 0; exponent >>= 1) {
+      if (exponent & 1) v = v * b;
       b = b.square();
     }
-    return b * *this;
+    return v;
   }
   MontgomeryValue exp(bignum<K> exponent) const {
     MontgomeryValue b = *this;
-- 
2.43.0


From a0b66f2b8ab1d383a59dfe559da4c3cb0f786d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:36 +0000
Subject: [PATCH 14/32] fix: PSS signing hashes the message with the hash of
 the scheme

---
 src/X509Certificate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8f0fc73..05a24b5 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -88,12 +88,12 @@ std::vector<uint8_t> RsaPrivateKey::sign(Tls13SignatureScheme type, std::span<co
   case Tls13SignatureScheme::rsa_pss_pss_sha384:
     salt.resize(48);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<384>(data).data(), salt);
   case Tls13SignatureScheme::rsa_pss_rsae_sha512:
   case Tls13SignatureScheme::rsa_pss_pss_sha512:
     salt.resize(64);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<512>(data).data(), salt);
   default:
     return {};
   }
-- 
2.43.0


From fc3655e78cd066e4861c27cdfbbd17b50a413a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 15/32] fix: PKCS#1 v1.5 encoding refuses sizes that cannot
 hold it

---
 include/caligo/pkcs1.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index d32fdf1..419cf70 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -5,6 +5,8 @@ namespace Caligo {
 template <typename Hash>
 std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize) {
   std::vector<uint8_t> rv;
+  // RFC 8017, section 9.2: there must be room for at least 8 bytes of padding
+  if (requestedSize < Hash::getAsn1Id().size() + Hash::hashsize + 11) return rv;
   rv.push_back(0);
   rv.push_back(1);
   while (rv.size() < requestedSize - Hash::getAsn1Id().size() - Hash::hashsize - 1) {
-- 
2.43.0


From 24ba57a715883a4ca81c74e70f7293dd27aeeae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 16/32] fix: PKCS#1 v1.5 signatures have the length of the
 modulus and are big-endian when signing and validating

---
 include/caligo/rsa.h    | 21 ++++++++++++++++++---
 src/X509Certificate.cpp |  7 +++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index bc7a0bd..74218d2 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -81,6 +81,14 @@ std::vector<uint8_t> generatePssData(std::span<const uint8_t> data, std::span<co
   return dbmask;
 }
 
+// Length of a modulus in bits
+template <size_t N>
+size_t rsa_bits(const bignum<N>& n) {
+  size_t bits = N;
+  while (bits > 0 && not n.bit(bits - 1)) bits--;
+  return bits;
+}
+
 template <size_t N = 2048>
 struct rsa_public_key {
   MontgomeryState<N> s;
@@ -105,9 +113,14 @@ struct rsa_public_key {
   }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
+    if (sig.size() != (rsa_bits(n) + 7) / 8) return false;
+    std::vector<uint8_t> sigR(sig.rbegin(), sig.rend());
+    bignum<N> sigBN = bignum<N>(sigR);
+    if (not (sigBN < n)) return false;
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
+    if (hash.empty()) return false;
     std::reverse(hash.begin(), hash.end());
-    return bignum<N>(hash) == rsaep(bignum<N>(sig));
+    return bignum<N>(hash) == rsaep(sigBN);
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
@@ -144,10 +157,12 @@ struct rsa_private_key {
   }
   template <typename Hash>
   std::vector<uint8_t> signPkcs1_5Signature(std::span<const uint8_t> data) const {
-    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, actualN / 8);
+    size_t size = (actualN + 7) / 8;
+    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, size);
+    if (hash.empty()) return {};
     std::reverse(hash.begin(), hash.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(hash)).as_bytes();
-    while (signature[signature.size() - 1] == 0 && (signature[signature.size() - 2] & 0x80) == 0x00) signature.pop_back();
+    signature.resize(size);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 05a24b5..21040f8 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -379,10 +379,9 @@ bool x509certificate::verify(x509certificate& issuer) {
 
   asn1_view algov(algo);
   auto [six, oid] = algov.read();
-  std::vector<uint8_t> signature;
-  for (size_t n = 0; n < sig.size() - 1; n++) {
-    signature.push_back(sig[sig.size() - n - 1]);
-  }
+  // The first byte of a bit string is its number of unused bits
+  if (sig.empty()) return false;
+  std::span<const uint8_t> signature = sig.subspan(1);
   object_id objid{oid};
   Tls13SignatureScheme type = Tls13SignatureScheme::rsa_pkcs1_sha256;
   if (objid == object_id::SignatureType::RsaSHA256) {
-- 
2.43.0


From e9f2d422985b9e767dde63cf3b5c13851d7a3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 17/32] fix: PSS signing and validation handle every modulus
 length and refuse malformed signatures

---
 include/caligo/rsa.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index 74218d2..ef555bf 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -66,6 +66,7 @@ std::vector<uint8_t> getSalt(std::span<const uint8_t> sig) {
 
 template <typename Hash>
 std::vector<uint8_t> generatePssData(std::span<const uint8_t> data, std::span<const uint8_t> salt, size_t desiredLength) {
+  if (desiredLength < Hash::hashsize + salt.size() + 2) return {};
   Hash Hh;
   Hh.add(std::vector<uint8_t>({0,0,0,0,0,0,0,0}));
   Hh.add(data);
@@ -124,16 +125,23 @@ struct rsa_public_key {
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
+    // RFC 8017, section 8.1.2: the encoded message has one bit less than the modulus
+    size_t emBits = rsa_bits(n) - 1, emLen = (emBits + 7) / 8;
+    if (sig.size() != (rsa_bits(n) + 7) / 8) return false;
+    if (emLen < Hash::hashsize + MGF::hashsize + 2) return false;
     std::vector<uint8_t> sigR(sig.begin(), sig.end());
     std::reverse(sigR.begin(), sigR.end());
     bignum<N> sigBN = bignum<N>(sigR);
-    std::vector<uint8_t> dSigV = rsaep(sigBN).as_bytes();
-    dSigV.resize(sig.size());
+    if (not (sigBN < n)) return false;
+    bignum<N> em = rsaep(sigBN);
+    if (rsa_bits(em) > 8 * emLen) return false;
+    std::vector<uint8_t> dSigV = em.as_bytes();
+    dSigV.resize(emLen);
     std::reverse(dSigV.begin(), dSigV.end());
     std::vector<uint8_t> salt = Caligo::getSalt<Hash, MGF::hashsize>(dSigV);
     std::array<uint8_t, Hash::hashsize> hMessage = Hash(message);
     std::vector<uint8_t> pssdata = Caligo::generatePssData<Hash>(hMessage, salt, dSigV.size());
-    pssdata[0] &= 0x7F;
+    pssdata[0] &= 0xFF >> (8 * emLen - emBits);
     return dSigV == pssdata;
   }
 };
@@ -168,11 +176,13 @@ struct rsa_private_key {
   }
   template <typename Hash, typename MGF>
   std::vector<uint8_t> signPssSignature(std::span<const uint8_t> message, std::span<const uint8_t> salt) const {
-    std::vector<uint8_t> pssData = Caligo::generatePssData<Hash>(message, salt, actualN / 8);
-    pssData[0] &= 0x7F;
+    size_t emBits = actualN - 1, emLen = (emBits + 7) / 8;
+    std::vector<uint8_t> pssData = Caligo::generatePssData<Hash>(message, salt, emLen);
+    if (pssData.empty()) return {};
+    pssData[0] &= 0xFF >> (8 * emLen - emBits);
     std::reverse(pssData.begin(), pssData.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(pssData)).as_bytes();
-    signature.resize(actualN / 8);
+    signature.resize((actualN + 7) / 8);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
-- 
2.43.0


From 08bd8c7bcd50bb42da724ec274c2d36ae43150ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 18/32] fix: RSA keys with an even modulus are refused

---
 include/caligo/rsa.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index ef555bf..7de8459 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -99,7 +99,9 @@ struct rsa_public_key {
   : s(n)
   , n(n)
   , e(e)
-  {}
+  {
+    if (n.bit(0) == 0) throw std::runtime_error("Invalid RSA modulus");
+  }
 
   std::array<uint8_t, 9> RsaSHA256 = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b};
   std::array<uint8_t, 9> RsaSHA384 = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0c};
@@ -157,6 +159,7 @@ struct rsa_private_key {
   , n(n)
   , d(d)
   {
+    if (n.bit(0) == 0) throw std::runtime_error("Invalid RSA modulus");
     while (not n.bit(actualN)) actualN--;
     actualN++;
   }
-- 
2.43.0


From 3e70d90841e90ed6c62e8f3d9ed337eeccd111cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 19/32] fix: truncated or oversized ASN.1 elements are refused
 instead of read out of bounds

---
 include/caligo/Asn1.h   | 15 ++++++++++++---
 src/X509Certificate.cpp |  4 +++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 7d78731..1af780a 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -4,6 +4,7 @@
 #include <utility>
 #include <cstdint>
 #include <cstddef>
+#include <stdexcept>
 
 namespace Caligo {
 
@@ -34,25 +35,33 @@ struct asn1_view {
   : data(data)
   {}
   std::pair<asn1_id, std::span<const uint8_t>> read() {
-    asn1_id id = (asn1_id)data[offset++];
-    size_t size = data[offset++];
+    asn1_id id = (asn1_id)next();
+    size_t size = next();
     if (size & 0x80) {
       size_t bytes = size & 0x7F;
       size = 0;
       for (; bytes --> 0;) {
-        size = (size << 8) + data[offset++];
+        if (size > (SIZE_MAX >> 8)) throw std::runtime_error("ASN.1 length too large");
+        size = (size << 8) + next();
       }
     }
+    if (size > data.size() - offset) throw std::runtime_error("Truncated ASN.1 data");
     size_t off = offset;
     offset += size;
     return { id, std::span<const uint8_t>(data.data() + off, data.data() + off + size) };
   }
   asn1_id peek() {
+    if (empty()) throw std::runtime_error("Truncated ASN.1 data");
     return (asn1_id)data[offset];
   }
   bool empty() {
     return offset == data.size();
   }
+private:
+  uint8_t next() {
+    if (empty()) throw std::runtime_error("Truncated ASN.1 data");
+    return data[offset++];
+  }
 };
 
 }
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 21040f8..1bd7a78 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -106,7 +106,7 @@ template <>
 x509date parseDer<x509date>(asn1_view& data) {
   static constexpr size_t daysInMonth[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   auto [id, bytes] = data.read();
-  if (bytes.back() != 'Z') return 0;
+  if (bytes.size() < 2 || bytes.back() != 'Z') return 0;
   std::vector<uint8_t> bytesCopy;
   if (id == asn1_id::utctime) {
     bool isPre2000 = (bytes[0] >= '5');
@@ -120,6 +120,7 @@ x509date parseDer<x509date>(asn1_view& data) {
   for (auto& b : bytesCopy) {
     if (b < '0' || b > '9') return 0;
   }
+  if (bytesCopy.size() < 10) return 0;
   int year = (bytesCopy[0] - '0') * 1000 + (bytesCopy[1] - '0') * 100 + (bytesCopy[2] - '0') * 10 + (bytesCopy[3] - '0') - 1970;
   int month = (bytesCopy[4] - '0') * 10 + bytesCopy[5] - '0';
   if (month <= 0 || month > 12) return 0;
@@ -243,6 +244,7 @@ std::unique_ptr<PublicKey> parseDer<std::unique_ptr<PublicKey>>(asn1_view& data)
     return {};
 
   auto [id3, s2] = data.read();
+  if (s2.empty()) FAIL();
   std::span<const uint8_t> s22 = s2.subspan(1);
   asn1_view body(s22);
   return std::make_unique<RsaPubkey>(parseDer<RsaPubkey>(body));
-- 
2.43.0


From 1a57c66333c64b35b4761f5e01389392e9593110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 20/32] fix: verifying against an issuer without usable key, or
 a malformed certificate, fails

---
 src/X509Certificate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 1bd7a78..e5b96b1 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -357,7 +357,9 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   return certs;
 }
 
-bool x509certificate::verify(x509certificate& issuer) {
+bool x509certificate::verify(x509certificate& issuer) try {
+  if (not issuer.pubkey)
+    return false;
   if (validity_start < issuer.validity_start)
     return false;
   if (validity_end > issuer.validity_end)
@@ -397,6 +399,8 @@ bool x509certificate::verify(x509certificate& issuer) {
   }
 
   return issuer.pubkey->validateSignature(type, cert, signature);
+} catch (const std::runtime_error&) { // malformed certificate
+  return false;
 }
 
 std::unique_ptr<PrivateKey> parsePrivateKey(std::span<const uint8_t> in, DataFormat format) {
-- 
2.43.0


From 54f09eee34d89c27cdb3291826552bc48c14b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 21/32] fix: an empty certificate list is not trusted

---
 src/Truststore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index 218d6ca..45b9a36 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -46,6 +46,8 @@ bool Truststore::trust(std::vector<x509certificate> &untrustedCertificates, uint
   for (auto& [name, cert] : trusted_certs) {
     localCertMap[name] = &cert;
   }
+  if (untrustedCertificates.empty())
+    return false;
   if (untrustedCertificates[0].validity_start > currentTime)
     return false;
   if (untrustedCertificates[0].validity_end < currentTime)
-- 
2.43.0


From 1749661c6b03dfc0a6a32e068cded39e0f94181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 22/32] fix: the last certificate of a PEM bundle is parsed,
 not the first one again

---
 src/X509Certificate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index e5b96b1..d511147 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -341,6 +341,7 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   std::vector<x509certificate> certs;
   std::string_view buffer((const char*)in.data(), in.size());
   size_t start = buffer.find("-----BEGIN CERTIFICATE-----");
+  if (start == std::string::npos) return certs;
   size_t end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
 
   while (end != std::string::npos) {
@@ -352,7 +353,8 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
     end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
   }
 
-  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data(), buffer.size()));
+  std::string_view certpem = buffer.substr(start);
+  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)certpem.data(), certpem.size()));
   certs.push_back(parseCertificate(av, DataFormat::Pem));
   return certs;
 }
-- 
2.43.0


From e13b3aefc921b78b96e58d06d7fb837e6a63e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 23/32] fix: certificate dates before 1970 and from March 2100
 on

---
 src/X509Certificate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index d511147..80084e5 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -129,8 +129,10 @@ x509date parseDer<x509date>(asn1_view& data) {
   int minutes = (bytesCopy.size() >= 12) ? (bytesCopy[10] - '0') * 10 + bytesCopy[11] - '0' : 0;
   int seconds = (bytesCopy.size() >= 14) ? (bytesCopy[12] - '0') * 10 + bytesCopy[13] - '0' : 0;
 
-  int leapdays = (year + 1) / 4;
-  if (year % 4 == 2 && month > 2) leapdays++;
+  if (year < 0) return 0; // before the epoch
+  auto leapYearsUpTo = [](int y) { return y / 4 - y / 100 + y / 400; };
+  int leapdays = leapYearsUpTo(year + 1969) - leapYearsUpTo(1969);
+  if (month > 2 && leapYearsUpTo(year + 1970) != leapYearsUpTo(year + 1969)) leapdays++;
   return (year * 365 + (daysInMonth[month-1] + day - 1 + leapdays)) * 86400 + hours * 3600 + minutes * 60 + seconds;
 }
 
-- 
2.43.0


From d6828377261fb801cdcd4d95745798cab9ae2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 24/32] fix: RSA keys with integers larger than supported are
 refused, not cut off

---
 src/X509Certificate.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 80084e5..ce1939d 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -208,7 +208,7 @@ int parseDer<int>(asn1_view& data) {
 }
 
 template <size_t N>
-Caligo::bignum<N> parseBignumDer(asn1_view& data) {
+Caligo::bignum<N> parseBignumDer(asn1_view& data, bool truncate = false) {
   auto [int_id, bytes] = data.read();
   if (int_id != asn1_id::integer) FAIL();
   std::vector<uint8_t> int_bytes;
@@ -221,6 +221,7 @@ Caligo::bignum<N> parseBignumDer(asn1_view& data) {
   // return type though, so we don't like that.
   if (!int_bytes.empty() && int_bytes.back() == 0) int_bytes.pop_back();
 
+  if (int_bytes.size() > N / 8 && not truncate) throw std::runtime_error("Integer too large");
   return Caligo::bignum<N>(int_bytes);
 }
 
@@ -283,7 +284,7 @@ x509certificate parseCertificate(std::span<const uint8_t> in, DataFormat format)
   }
 
   // serialnumber
-  x.serialNumber = parseBignumDer<128>(cdata);
+  x.serialNumber = parseBignumDer<128>(cdata, true);
 
   // algorithm ID
   auto [id3, d3] = cdata.read();
-- 
2.43.0


From ecd23043b8609eede4fe2f32cc6c96977f30fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 25/32] fix: drawing random values from several threads is not
 a data race

---
 include/caligo/random.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/caligo/random.h b/include/caligo/random.h
index cb3869b..4c64923 100644
--- a/include/caligo/random.h
+++ b/include/caligo/random.h
@@ -2,6 +2,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <mutex>
 #include <span>
 #include <vector>
 
@@ -10,6 +11,9 @@ namespace Caligo {
 extern std::vector<uint64_t> testValues;
 
 inline uint64_t generate_random_value() {
+  // The generator is shared by all threads
+  static std::mutex mutex;
+  std::lock_guard<std::mutex> lock(mutex);
   if (!testValues.empty()) {
     uint64_t value = testValues.back();
     testValues.pop_back();
-- 
2.43.0


From 140c9d473212ce50074eb996cce5a9987e37238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 26/32] fix: AES refuses keys of the wrong size

---
 src/aes.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aes.cpp b/src/aes.cpp
index a2ca037..579d09d 100644
--- a/src/aes.cpp
+++ b/src/aes.cpp
@@ -19,6 +19,7 @@ static __m128i nextRoundKey(__m128i in) {
 
 template <>
 AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 16) throw std::runtime_error("Invalid key size");
   std::memcpy(eroundKeys, key.data(), key.size());
 
   eroundKeys[1] = nextRoundKey<0>(eroundKeys[0]);
@@ -35,6 +36,7 @@ AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
 
 template <>
 AesKeySchedule<256>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 32) throw std::runtime_error("Invalid key size");
   __m128i a = _mm_loadu_si128((__m128i*)key.data()), b = _mm_loadu_si128((__m128i*)(key.data()+16));
   eroundKeys[0]=a;
   eroundKeys[1]=b;
-- 
2.43.0


From 8f86e3b530398ef68f423f2f7480a988cce86d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 27/32] fix: PKCS#1 v1.5 wraps messages of 16 MiB and more with
 their full length

---
 include/caligo/pkcs1.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index 419cf70..0602a3a 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -27,11 +27,17 @@ std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize)
       prefix.push_back(0x82);
       prefix.push_back((data.size() >> 8) & 0xFF);
       prefix.push_back(data.size() & 0xFF);
-    } else {
+    } else if (data.size() < 0x1000000) {
       prefix.push_back(0x83);
       prefix.push_back((data.size() >> 16) & 0xFF);
       prefix.push_back((data.size() >> 8) & 0xFF);
       prefix.push_back(data.size() & 0xFF);
+    } else {
+      prefix.push_back(0x84);
+      prefix.push_back((data.size() >> 24) & 0xFF);
+      prefix.push_back((data.size() >> 16) & 0xFF);
+      prefix.push_back((data.size() >> 8) & 0xFF);
+      prefix.push_back(data.size() & 0xFF);
     }
     Hash hash;
     hash.add(prefix);
-- 
2.43.0


From c16dd15e82749c636b27468983aa452c534b9946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:50 +0000
Subject: [PATCH 28/32] fix: certificate names keep every attribute of a
 multi-valued RDN

---
 src/X509Certificate.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index ce1939d..a6f8752 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -144,10 +144,7 @@ std::string parseDer<std::string>(asn1_view& data) {
 }
 
 std::pair<object_id, std::string> readOIDAndString(asn1_view& data) {
-  auto [id, s] = data.read();
-  if (id != asn1_id::set) return {{}, ""};
-  asn1_view sv(s);
-  auto [id2, s2] = sv.read();
+  auto [id2, s2] = data.read();
   if (id2 != asn1_id::sequence) return {{}, ""};
   asn1_view sv2(s2);
   auto [id3, obj_id] = sv2.read();
@@ -160,8 +157,14 @@ std::pair<object_id, std::string> readOIDAndString(asn1_view& data) {
 template <>
 x509name parseDer<x509name>(asn1_view& data) {
   x509name rv;
-  while (!data.empty()) {
-    auto [oid, str] = readOIDAndString(data);
+  asn1_view set{std::span<const uint8_t>()};
+  while (!data.empty() || !set.empty()) {
+    if (set.empty()) { // next relative distinguished name; it can have several attributes
+      auto [id, s] = data.read();
+      if (id != asn1_id::set) FAIL();
+      set = asn1_view(s);
+    }
+    auto [oid, str] = readOIDAndString(set);
     if (oid == object_id::X509NameParts::Country) {
       rv.country = str;
     } else if (oid == object_id::X509NameParts::Organization) {
-- 
2.43.0


From 9c324090ee5a35c903a730d3e3d06c19563a89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 29/32] fix: email addresses in certificate names are IA5
 strings

---
 include/caligo/Asn1.h   | 1 +
 src/X509Certificate.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 1af780a..72feae2 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -17,6 +17,7 @@ enum class asn1_id {
   object = 6,
   utf8string = 12,
   printablestring = 19,
+  ia5string = 22,
   utctime = 23,
   generalizedtime = 24,
   sequence = 48,
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index a6f8752..85c74ed 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -139,7 +139,7 @@ x509date parseDer<x509date>(asn1_view& data) {
 template <>
 std::string parseDer<std::string>(asn1_view& data) {
   auto [id, bytes] = data.read();
-  if (id != asn1_id::printablestring && id != asn1_id::utf8string) return "";
+  if (id != asn1_id::printablestring && id != asn1_id::utf8string && id != asn1_id::ia5string) return "";
   return std::string((const char*)bytes.data(), (const char*)bytes.data() + bytes.size());
 }
 
-- 
2.43.0


From 1d67e04f3963b4a64fe97ce5a4b531a88f6427e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 30/32] fix: certificates with unique identifiers are parsed

---
 include/caligo/Asn1.h   | 2 ++
 src/X509Certificate.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 72feae2..a65cf93 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -22,6 +22,8 @@ enum class asn1_id {
   generalizedtime = 24,
   sequence = 48,
   set = 49,
+  context1 = 129,
+  context2 = 130,
   array0 = 160,
   array1 = 161,
   array2 = 162,
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 85c74ed..90b34cb 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -325,9 +325,11 @@ x509certificate parseCertificate(std::span<const uint8_t> in, DataFormat format)
     auto [id8, d8] = cdata.read();
     switch(id8) {
       case asn1_id::array1:
+      case asn1_id::context1:
         // issuerUID
         break;
       case asn1_id::array2:
+      case asn1_id::context2:
         // subjectUID
         break;
       case asn1_id::array3:
-- 
2.43.0


From 4bf291ed58e3e5336315aee811d6c32428834931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:11 +0000
Subject: [PATCH 31/32] fix: CBC decryption undoes the chaining, and the legacy
 modes compile

---
 include/caligo/legacy/cbc.h | 22 +++++++++++++++++++---
 include/caligo/legacy/ecb.h |  3 +++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/caligo/legacy/cbc.h b/include/caligo/legacy/cbc.h
index 3c6234e..823db31 100644
--- a/include/caligo/legacy/cbc.h
+++ b/include/caligo/legacy/cbc.h
@@ -1,8 +1,13 @@
 #pragma once
 
 #include <x86intrin.h>
+#include <algorithm>
+#include <array>
+#include <cassert>
+#include <cstdint>
 #include <span>
 #include <cstring>
+#include <stdexcept>
 #include "caligo/key_iv_pair.h"
 
 namespace Caligo {
@@ -11,13 +16,19 @@ template <typename Cipher>
 struct CBC {
   CBC(key_iv_pair<Cipher> key_iv)
   : sched(key_iv.key)
-  , iv(key_iv.iv)
   {
+    if (key_iv.iv.size() != Cipher::size) {
+      throw std::runtime_error("Invalid IV");
+    }
+    std::copy(key_iv.iv.begin(), key_iv.iv.end(), iv.begin());
   }
   void Decrypt(std::span<uint8_t> ciphertext) {
     assert((ciphertext.size() % Cipher::size) == 0);
-    for (size_t n = 0; n < ciphertext.size(); n += Cipher::size) {
-      Cipher::Decrypt(sched, ciphertext.data() + n);
+    // Back to front; decrypting a block needs the ciphertext of the block before it.
+    for (size_t n = ciphertext.size(); n >= Cipher::size; n -= Cipher::size) {
+      uint8_t* block = ciphertext.data() + n - Cipher::size;
+      Cipher::Decrypt(sched, block);
+      xorOnto(block, n == Cipher::size ? iv.data() : block - Cipher::size, Cipher::size);
     }
   }
   void Encrypt(std::span<uint8_t> plaintext) {
@@ -31,6 +42,11 @@ struct CBC {
       Cipher::Encrypt(sched, plaintext.data() + n);
     }
   }
+  static void xorOnto(uint8_t* target, const uint8_t* source, size_t size) {
+    for (size_t n = 0; n < size; n++) {
+      target[n] ^= source[n];
+    }
+  }
   typename Cipher::KeySchedule sched;
   std::array<uint8_t, Cipher::size> iv;
 };
diff --git a/include/caligo/legacy/ecb.h b/include/caligo/legacy/ecb.h
index a1da7a9..0f81713 100644
--- a/include/caligo/legacy/ecb.h
+++ b/include/caligo/legacy/ecb.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <x86intrin.h>
+#include <array>
+#include <cassert>
+#include <cstdint>
 #include <span>
 #include <cstring>
 #include "caligo/key_iv_pair.h"
-- 
2.43.0


From 64b2d02fff7d54e43ca182874d38b0b2c53fa595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 32/32] fix: encode the length of messages of 4 GiB and more

---
 include/caligo/pkcs1.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index 0602a3a..3965333 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -32,12 +32,19 @@ std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize)
       prefix.push_back((data.size() >> 16) & 0xFF);
       prefix.push_back((data.size() >> 8) & 0xFF);
       prefix.push_back(data.size() & 0xFF);
-    } else {
+    } else if (data.size() < 0x100000000) {
       prefix.push_back(0x84);
       prefix.push_back((data.size() >> 24) & 0xFF);
       prefix.push_back((data.size() >> 16) & 0xFF);
       prefix.push_back((data.size() >> 8) & 0xFF);
       prefix.push_back(data.size() & 0xFF);
+    } else {
+      size_t bytes = 5;
+      while (data.size() >> (8 * bytes - 1) >> 1) bytes++;
+      prefix.push_back(0x80 + bytes);
+      while (bytes --> 0) {
+        prefix.push_back((data.size() >> (8 * bytes)) & 0xFF);
+      }
     }
     Hash hash;
     hash.add(prefix);
-- 
2.43.0

