// RSA keys: the templates of rsa.h at several widths and the key objects of X509Certificate.h.
#include "vh.h"
#include "rsa_keys.h"
#include "caligo/X509Certificate.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
using namespace vh;
using namespace Caligo;

std::unique_ptr<KeyBase> makeKey512(const Bytes&, const Bytes&, const Bytes&);
std::unique_ptr<KeyBase> makeKey1024(const Bytes&, const Bytes&, const Bytes&);
std::unique_ptr<KeyBase> makeKey2048(const Bytes&, const Bytes&, const Bytes&);
std::unique_ptr<KeyBase> makeKey4096(const Bytes&, const Bytes&, const Bytes&);

namespace {
struct Slot { std::unique_ptr<KeyBase> k; std::unique_ptr<PrivateKey> priv; std::unique_ptr<PublicKey> pub; };

static thread_local std::vector<Slot> keys(1);
template <typename F> static void zeros(Ev& e, uint8_t* m, size_t n, const Bytes& s, F verify) {
  e.bytes("sig", s).flag("ok", verify(std::span<const uint8_t>(m, n)));
  if (n < (1u << 30)) {
    std::string o;
    for (size_t at : { n - 1, n / 2, size_t(0) }) { m[at] = 1; o += verify(std::span<const uint8_t>(m, n)) ? "true," : "false,"; m[at] = 0; }
    o += verify(std::span<const uint8_t>(m, n - 1)) ? "true" : "false";
    e.raw("others", "[" + o + "]");
  } else e.raw("others", "[]");
  free(m);
}
void install(Ops& ops) {
  // Key <width> <n> <e> <d>   (big-endian)
  ops["Key"] = [&](Args& a, Ev& e) {
    int w = a.num(); Bytes n = a.bytes(), x = a.bytes(), d = a.bytes();
    Slot s;
    switch (w) { case 512: s.k = makeKey512(n, x, d); break; case 1024: s.k = makeKey1024(n, x, d); break; case 2048: s.k = makeKey2048(n, x, d); break; case 4096: s.k = makeKey4096(n, x, d); break; default: _exit(99); }
    keys.push_back(std::move(s)); e.num("key", keys.size() - 1).bytes("n", n).bytes("e", x).bytes("d", d); };
  // Object <pem> <private key DER/PEM> <n> <e> <d>: key objects, the private one parsed
  ops["Object"] = [&](Args& a, Ev& e) {
    bool pem = a.num(); Bytes der = a.bytes(), n = a.bytes(), x = a.bytes(), d = a.bytes();
    Slot s; Exact t(der);
    s.priv = parsePrivateKey(t.span(), pem ? DataFormat::Pem : DataFormat::Der);
    Bytes nr(n.rbegin(), n.rend()), xr(x.rbegin(), x.rend());
    s.pub = std::make_unique<RsaPubkey>(rsa_public_key<4096>(bignum<4096>(std::span<const uint8_t>(nr)), bignum<4096>(std::span<const uint8_t>(xr))));
    keys.push_back(std::move(s)); e.s.replace(e.s.find("\"Object\""), 8, "\"Key\"");
    e.num("key", keys.size() - 1).bytes("n", n).bytes("e", x).bytes("d", d); };
  ops["Sign"] = [&](Args& a, Ev& e) { int k = a.num(); std::string g = a.next(); Bytes m = a.bytes(); e.num("key", k).str("alg", g).bytes("msg", m); Exact x(m); e.bytes("sig", keys.at(k).k->sign(g, x.span())); };
  ops["Verify"] = [&](Args& a, Ev& e) { int k = a.num(); std::string g = a.next(); Bytes m = a.bytes(), s = a.bytes(); e.num("key", k).str("alg", g).bytes("msg", m).bytes("sig", s); Exact x(m), y(s); e.flag("out", keys.at(k).k->verify(g, x.span(), y.span())); };
  ops["SignPss"] = [&](Args& a, Ev& e) { int k = a.num(); std::string g = a.next(); Bytes m = a.bytes(), s = a.bytes(); e.num("key", k).str("alg", g.substr(0, g.find('+'))).str("saltalg", g.substr(g.find('+') + 1)).bytes("msg", m).bytes("salt", s); Exact x(m), y(s); e.bytes("sig", keys.at(k).k->signPss(g, x.span(), y.span())); };
  ops["VerifyPss"] = [&](Args& a, Ev& e) { int k = a.num(); std::string g = a.next(); Bytes m = a.bytes(), s = a.bytes(); e.num("key", k).str("alg", g.substr(0, g.find('+'))).str("saltalg", g.substr(g.find('+') + 1)).bytes("msg", m).bytes("sig", s); Exact x(m), y(s); e.flag("out", keys.at(k).k->verifyPss(g, x.span(), y.span())); };
  ops["SchemeSign"] = [&](Args& a, Ev& e) { int k = a.num(), t = a.num(); Bytes m = a.bytes(); e.num("key", k).num("scheme", t).bytes("msg", m); Exact x(m); e.bytes("sig", keys.at(k).priv->sign((Tls13SignatureScheme)t, x.span())); };
  ops["SchemeVerify"] = [&](Args& a, Ev& e) { int k = a.num(), t = a.num(); Bytes m = a.bytes(), s = a.bytes(); e.num("key", k).num("scheme", t).bytes("msg", m).bytes("sig", s); Exact x(m), y(s); e.flag("out", keys.at(k).pub->validateSignature((Tls13SignatureScheme)t, x.span(), y.span())); };
  // Mgf <hash> <seed> <length> <offset> <count>
  ops["Mgf"] = [&](Args& a, Ev& e) { std::string g = a.next(); Bytes seed = a.bytes(); size_t n = a.num(), o = a.num(), c = a.num(); Exact x(seed);
    std::vector<uint8_t> m;
    if (g == "sha1") m = MGF1<>::MGF(x.span(), n); else if (g == "sha224") m = MGF1<SHA2<224>>::MGF(x.span(), n); else if (g == "sha256") m = MGF1<SHA2<256>>::MGF(x.span(), n);
    else if (g == "sha384") m = MGF1<SHA2<384>>::MGF(x.span(), n); else if (g == "sha512") m = MGF1<SHA2<512>>::MGF(x.span(), n); else _exit(99);
    e.str("alg", g).bytes("seed", seed).num("len", n).num("size", m.size()).num("off", o).num("cnt", c).bytes("out", o + c <= m.size() ? Bytes(m.begin() + o, m.begin() + o + c) : Bytes()); };
  // messages of zero bytes; and whether the signature is accepted for messages that differ in one bit or in length
  ops["SignZeros"] = [&](Args& a, Ev& e) {
    int k = a.num(); std::string g = a.next(); size_t n = a.u64(); e.num("key", k).str("alg", g).str("len", std::to_string(n));
    auto& key = *keys.at(k).k;
    uint8_t* m = (uint8_t*)calloc(n, 1); if (!m) _exit(98);
    Bytes s = key.sign(g, { m, n });
    zeros(e, m, n, s, [&](auto x) { return key.verify(g, x, s); }); };
  ops["PssZeros"] = [&](Args& a, Ev& e) {
    int k = a.num(); std::string g = a.next(); size_t n = a.u64(); Bytes h = a.bytes(), salt = a.bytes();
    e.num("key", k).str("alg", g).str("len", std::to_string(n)).bytes("salt", salt);
    auto& key = *keys.at(k).k;
    uint8_t* m = (uint8_t*)calloc(n, 1); if (!m) _exit(98);
    Exact x(h), y(salt);
    Bytes s = key.signPss(g, x.span(), y.span());
    zeros(e, m, n, s, [&](auto x) { return key.verifyPss(g, x, s); }); };
}
}
VH_MAIN(rsa, 300)
