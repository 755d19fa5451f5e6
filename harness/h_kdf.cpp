// HMAC, HKDF and the TLS 1.3 key schedule.
#include "vh.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/aes.h"
#include "caligo/hkdf.h"
using namespace vh;
using namespace Caligo;
namespace {

template <typename F>
static void with_alg(const std::string& alg, F f) {
  if (alg == "md5") return f.template operator()<MD5>();
  if (alg == "sha1") return f.template operator()<SHA1>();
  if (alg == "sha224") return f.template operator()<SHA2<224>>();
  if (alg == "sha256") return f.template operator()<SHA2<256>>();
  if (alg == "sha384") return f.template operator()<SHA2<384>>();
  if (alg == "sha512") return f.template operator()<SHA2<512>>();
  if (alg == "sha3-224") return f.template operator()<SHA3<224>>();
  if (alg == "sha3-256") return f.template operator()<SHA3<256>>();
  if (alg == "sha3-384") return f.template operator()<SHA3<384>>();
  if (alg == "sha3-512") return f.template operator()<SHA3<512>>();
  _exit(99);
}

struct Sec { virtual ~Sec() {} std::string alg; };
template <typename H> struct SecT : Sec { secret<H> s; };
static thread_local std::map<int, std::shared_ptr<Sec>> secs;
template <typename H> static secret<H>& S(int i) { return dynamic_cast<SecT<H>&>(*secs.at(i)).s; }
template <typename H> static void put(int i, const std::string& alg, const secret<H>& s) {
  auto p = std::make_shared<SecT<H>>(); p->alg = alg; p->s = s; secs[i] = p;
}

void install(Ops& ops) {
  ops["Hmac"] = [](Args& a, Ev& e) {
    std::string alg = a.next(); Bytes k = a.bytes(), t = a.bytes();
    e.str("alg", alg).bytes("key", k).bytes("in", t);
    Exact xk(k), xt(t);
    with_alg(alg, [&]<typename H>() { e.bytes("out", HMAC<H>(xt.span(), xk.span())); });
  };
  // HmacLong <alg> <zero bytes>: with the key "key"
  ops["HmacLong"] = [](Args& a, Ev& e) {
    std::string alg = a.next(), len = a.next();
    e.str("alg", alg).str("n", len);
    static const uint8_t key[3] = {'k', 'e', 'y'};
    size_t n = std::stoull(len);
    std::unique_ptr<uint8_t, void (*)(void*)> z((uint8_t*)calloc(n, 1), free);
    if (!z) _exit(98);
    with_alg(alg, [&]<typename H>() { e.bytes("out", HMAC<H>(std::span<const uint8_t>(z.get(), n), key)); });
  };
  ops["Extract"] = [](Args& a, Ev& e) {
    std::string alg = a.next(); Bytes s = a.bytes(), k = a.bytes();
    e.str("alg", alg).bytes("salt", s).bytes("ikm", k);
    Exact xs(s), xk(k);
    with_alg(alg, [&]<typename H>() { e.bytes("out", HKDF_Extract<H>(xs.span(), xk.span())); });
  };
  ops["Expand"] = [](Args& a, Ev& e) {
    std::string alg = a.next(); Bytes p = a.bytes(), i = a.bytes(); size_t n = a.num();
    e.str("alg", alg).bytes("prk", p).bytes("info", i).num("len", n);
    Exact xp(p), xi(i);
    with_alg(alg, [&]<typename H>() { e.bytes("out", HKDF_Expand<H>(xp.span(), xi.span(), n)); });
  };
  ops["ExpandLabel"] = [](Args& a, Ev& e) {
    std::string alg = a.next(); Bytes p = a.bytes(); Bytes lb = a.bytes(); Bytes c = a.bytes(); size_t n = a.num();
    e.str("alg", alg).bytes("prk", p).bytes("label", lb).bytes("ctx", c).num("len", n);
    Exact xp(p), xc(c);
    with_alg(alg, [&]<typename H>() { e.bytes("out", HKDF_Expand_Label<H>(xp.span(), std::string(lb.begin(), lb.end()), xc.span(), n)); });
  };
  ops["Handshake"] = [](Args& a, Ev& e) {
    int i = a.num(); std::string alg = a.next(); Bytes s = a.bytes();
    e.num("i", i).str("alg", alg).bytes("shared", s);
    Exact xs(s);
    with_alg(alg, [&]<typename H>() { put<H>(i, alg, HKDF_HandshakeSecret<H>(xs.span())); e.bytes("out", S<H>(i).data); });
  };
  ops["FromBytes"] = [](Args& a, Ev& e) {
    int i = a.num(); std::string alg = a.next(); Bytes s = a.bytes();
    e.num("i", i).str("alg", alg).bytes("in", s);
    with_alg(alg, [&]<typename H>() { secret<H> x; std::copy_n(s.begin(), H::hashsize, x.data.begin()); put<H>(i, alg, x); e.bytes("out", S<H>(i).data); });
  };
  ops["Master"] = [](Args& a, Ev& e) {
    int i = a.num(), j = a.num(); std::string alg = secs.at(i)->alg;
    e.num("i", i).num("j", j);
    with_alg(alg, [&]<typename H>() { put<H>(j, alg, HKDF_MasterSecret<H>(S<H>(i))); e.bytes("out", S<H>(j).data); });
  };
  ops["Update"] = [](Args& a, Ev& e) {
    int i = a.num(), j = a.num(); std::string alg = secs.at(i)->alg;
    e.num("i", i).num("j", j);
    with_alg(alg, [&]<typename H>() { put<H>(j, alg, HKDF_UpdateSecret<H>(S<H>(i))); e.bytes("out", S<H>(j).data); });
  };
  ops["Traffic"] = [](Args& a, Ev& e) {
    int i = a.num(); Bytes th = a.bytes(); bool c = a.num(), hs = a.num();
    e.num("i", i).bytes("th", th).flag("client", c).flag("hs", hs);
    Exact x(th);
    with_alg(secs.at(i)->alg, [&]<typename H>() { e.bytes("out", S<H>(i).get_traffic_secret(x.span(), c, hs)); });
  };
  ops["KeyIv"] = [](Args& a, Ev& e) {
    int i = a.num(); Bytes th = a.bytes(); bool c = a.num(), hs = a.num(); int bits = a.num(); bool dflt = a.more() && a.num();
    e.num("i", i).bytes("th", th).flag("client", c).flag("hs", hs).num("keylen", bits / 8);
    Exact x(th);
    with_alg(secs.at(i)->alg, [&]<typename H>() {
      if (bits == 128) {
        auto k = (dflt && !hs) ? S<H>(i).template get_key_iv<AES<128>>(x.span(), c) : S<H>(i).template get_key_iv<AES<128>>(x.span(), c, hs);
        e.bytes("key", k.key).bytes("iv", k.iv);
      } else {
        auto k = (dflt && !hs) ? S<H>(i).template get_key_iv<AES<256>>(x.span(), c) : S<H>(i).template get_key_iv<AES<256>>(x.span(), c, hs);
        e.bytes("key", k.key).bytes("iv", k.iv);
      }
    });
  };
  ops["Finished"] = [](Args& a, Ev& e) {
    int i = a.num(); Bytes th = a.bytes(); bool c = a.num();
    e.num("i", i).bytes("th", th).flag("client", c);
    Exact x(th);
    with_alg(secs.at(i)->alg, [&]<typename H>() { e.bytes("out", S<H>(i).get_finished_key(x.span(), c)); });
  };
  ops["Exporter"] = [](Args& a, Ev& e) {
    int i = a.num(); Bytes th = a.bytes(); e.num("i", i).bytes("th", th); Exact x(th);
    with_alg(secs.at(i)->alg, [&]<typename H>() { e.bytes("out", exporter_master<H>(S<H>(i), x.span())); });
  };
  ops["Resumption"] = [](Args& a, Ev& e) {
    int i = a.num(); Bytes th = a.bytes(); e.num("i", i).bytes("th", th); Exact x(th);
    with_alg(secs.at(i)->alg, [&]<typename H>() { e.bytes("out", resumption_master<H>(S<H>(i), x.span())); });
  };
  ops["Secret"] = [](Args& a, Ev& e) {
    int i = a.num(); e.num("i", i);
    with_alg(secs.at(i)->alg, [&]<typename H>() { e.bytes("out", S<H>(i).data); });
  };
}
}
VH_MAIN(kdf, 300)
