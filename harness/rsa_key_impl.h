#include "rsa_keys.h"
#include <unistd.h>
#include "caligo/rsa.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
using namespace Caligo;
template <size_t N, bool more>
struct KeyT : KeyBase {
  rsa_public_key<N> pub; rsa_private_key<N> priv;
  static bignum<N> be(const std::vector<uint8_t>& b) { std::vector<uint8_t> r(b.rbegin(), b.rend()); return bignum<N>(std::span<const uint8_t>(r)); }
  KeyT(const std::vector<uint8_t>& n, const std::vector<uint8_t>& e, const std::vector<uint8_t>& d) : pub(be(n), be(e)), priv(be(n), be(d)) {}
  template <typename F> static auto by(const std::string& a, F f) {
    if (a == "sha256") return f.template operator()<SHA2<256>>();
    if (a == "sha384") return f.template operator()<SHA2<384>>();
    if (a == "sha512") return f.template operator()<SHA2<512>>();
    _exit(99);
  }
  template <typename F> static auto by15(const std::string& a, F f) {
    if constexpr (more) {
      if (a == "md5") return f.template operator()<MD5>();
      if (a == "sha1") return f.template operator()<SHA1>();
      if (a == "sha224") return f.template operator()<SHA2<224>>();
      if (a == "sha3-256") return f.template operator()<SHA3<256>>();
      if (a == "sha3-512") return f.template operator()<SHA3<512>>();
    }
    return by(a, f);
  }
  std::vector<uint8_t> sign(const std::string& a, In m) override { return by15(a, [&]<typename H>() { return priv.template signPkcs1_5Signature<H>(m); }); }
  bool verify(const std::string& a, In m, In s) override { return by15(a, [&]<typename H>() { return pub.template validatePkcs1_5Signature<H>(m, s); }); }
  // "sha256+sha1": the second one says how long the salt is
  template <typename H, typename F> static auto salted(const std::string& g, F f) {
    if (g == "sha1") return f.template operator()<H, SHA1>();
    if (g == "sha224") return f.template operator()<H, SHA2<224>>();
    if (g == "sha512") return f.template operator()<H, SHA2<512>>();
    _exit(99);
  }
  template <typename F> static auto byPss(const std::string& a, F f) {
    if constexpr (more) {
      size_t p = a.find('+');
      std::string h = a.substr(0, p), g = p == a.npos ? "" : a.substr(p + 1);
      if (g != "" && h == "sha256") return salted<SHA2<256>>(g, f);
      if (g != "" && h == "sha1") return salted<SHA1>(g, f);
      if (h == "sha1") return f.template operator()<SHA1, SHA1>();
      if (h == "sha224") return f.template operator()<SHA2<224>, SHA2<224>>();
      if (h == "sha3-256") return f.template operator()<SHA3<256>, SHA3<256>>();
      if (h == "md5") return f.template operator()<MD5, MD5>();
    }
    return by(a, [&]<typename H>() { return f.template operator()<H, H>(); });
  }
  std::vector<uint8_t> signPss(const std::string& a, In m, In salt) override { return byPss(a, [&]<typename H, typename G>() { return priv.template signPssSignature<H, MGF1<G>>(m, salt); }); }
  bool verifyPss(const std::string& a, In m, In s) override { return byPss(a, [&]<typename H, typename G>() { return pub.template validatePssSignature<H, MGF1<G>>(m, s); }); }
};
