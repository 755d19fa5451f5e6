// AES, GCM, CTR, ChaCha20.
#include "vh.h"
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/chacha20.h"
using namespace vh;
using namespace Caligo;
namespace {

static thread_local std::map<int, std::shared_ptr<AesKeySchedule<128>>> k128;
static thread_local std::map<int, std::shared_ptr<AesKeySchedule<256>>> k256;
static thread_local std::map<int, std::shared_ptr<GCM<AES<128>>>> g128;
static thread_local std::map<int, std::shared_ptr<GCM<AES<256>>>> g256;
static thread_local std::map<int, std::shared_ptr<CTR<AES<128>>>> c128;
static thread_local std::map<int, std::shared_ptr<CTR<AES<256>>>> c256;
static thread_local std::map<int, std::shared_ptr<ChaCha20>> cha;

static uint64_t be64(const Bytes& b) { uint64_t n = 0; for (auto x : b) n = n << 8 | x; return n; }
template <typename F> static void gcm(int c, F f) { if (g128.count(c)) f(*g128[c]); else f(*g256.at(c)); }
template <typename F> static void ctr(int c, F f) { if (c128.count(c)) f(*c128[c]); else f(*c256.at(c)); }

static std::string pair24(uint64_t n) { return "[" + std::to_string(n >> 24) + "," + std::to_string(n & 0xffffff) + "]"; }
// t followed by n zero bytes that occupy memory only when written to
struct Tailed {
  size_t n; uint8_t* p;
  Tailed(const Bytes& t, size_t zeros) : n(t.size() + zeros), p((uint8_t*)calloc(n + 1, 1)) { if (!p) _exit(98); std::copy(t.begin(), t.end(), p); }
  ~Tailed() { free(p); }
  std::span<uint8_t> span() { return { p, n }; }
};
// windows of a long output: the remaining arguments are positions
static void windows(Args& a, Ev& e, std::span<const uint8_t> out) {
  std::string s = "[";
  while (a.more()) {
    size_t at = (size_t)a.num(), n = at < out.size() ? std::min<size_t>(40, out.size() - at) : 0;
    if (s.size() > 1) s += ',';
    s += "{\"at\":" + pair24(at) + ",\"b\":" + Ev::arr(out.subspan(at < out.size() ? at : 0, n)) + "}";
  }
  e.raw("w", s + "]");
}

void install(Ops& ops) {
  ops["AesKey"] = [](Args& a, Ev& e) {
    int c = a.num(), bits = a.num(); Bytes k = a.bytes();
    e.num("c", c).num("bits", bits).bytes("key", k);
    Exact x(k);
    k128.erase(c); k256.erase(c);
    if (bits == 128) k128[c] = std::make_shared<AesKeySchedule<128>>(x.span());
    else k256[c] = std::make_shared<AesKeySchedule<256>>(x.span());
  };
  ops["AesEnc"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes b = a.bytes();
    e.num("c", c).bytes("in", b);
    __m128i v; memcpy(&v, b.data(), 16);
    if (k128.count(c)) v = AES<128>::Encrypt(*k128[c], v); else v = AesEncrypt<256>(*k256.at(c), v);
    Bytes o(16); memcpy(o.data(), &v, 16);
    e.bytes("out", o);
  };
  ops["GcmNew"] = [](Args& a, Ev& e) {
    int c = a.num(), bits = a.num(); Bytes k = a.bytes(), iv = a.bytes();
    e.num("c", c).num("bits", bits).bytes("key", k).bytes("iv", iv);
    Exact xk(k), xi(iv);
    g128.erase(c); g256.erase(c);
    if (bits == 128) g128[c] = std::make_shared<GCM<AES<128>>>(key_iv_pair<AES<128>>(xk.span(), xi.span()));
    else g256[c] = std::make_shared<GCM<AES<256>>>(key_iv_pair<AES<256>>(xk.span(), xi.span()));
  };
  ops["GcmEnc"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes p = a.bytes(), ad = a.bytes();
    e.num("c", c).bytes("in", p).bytes("aad", ad);
    Exact xp(p), xa(ad);
    gcm(c, [&](auto& g) { auto r = g.Encrypt(xp.span(), xa.span()); e.bytes("out", r.first).bytes("tag", r.second); });
  };
  ops["GcmDec"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes p = a.bytes(), ad = a.bytes(), t = a.bytes();
    e.num("c", c).bytes("in", p).bytes("aad", ad).bytes("tag", t);
    Exact xp(p), xa(ad);
    std::array<uint8_t, 16> tag; std::copy_n(t.begin(), 16, tag.begin());
    gcm(c, [&](auto& g) { auto r = g.Decrypt(xp.span(), xa.span(), tag); e.bytes("out", r.first).flag("ok", r.second); });
  };
  ops["GcmLong"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes t = a.bytes(); long long nt = a.num(); Bytes ad = a.bytes(); long long na = a.num(); Bytes tg = a.bytes();
    bool both = nt < (1ll << 30);
    e.num("c", c).bytes("t", t).raw("nt", pair24(nt)).bytes("a", ad).raw("na", pair24(na)).bytes("tag", tg).flag("both", both);
    Tailed ct(t, nt), xa(ad, na);
    std::array<uint8_t, 16> tag; std::copy_n(tg.begin(), 16, tag.begin());
    gcm(c, [&](auto& g) {
      auto g2 = g;
      auto r = g.Decrypt(ct.span(), xa.span(), tag);
      e.flag("ok", r.second).raw("len", pair24(r.first.size()));
      windows(a, e, r.first);
      if (!both) return;
      auto b = g2.Encrypt(r.first, xa.span());
      e.flag("same", b.first.size() == ct.n && !memcmp(b.first.data(), ct.p, ct.n)).bytes("outtag", b.second);
    });
  };
  ops["GcmNum"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes n = a.bytes();
    e.num("c", c).bytes("n", n);
    bool set = false;
    gcm(c, [&](auto& g) { if constexpr (requires { g.message_counter = uint64_t(0); }) { g.message_counter = be64(n); set = true; } });
    e.flag("set", set);
  };
  ops["GcmCopy"] = [](Args& a, Ev& e) {
    int c = a.num(), p = a.num(); e.num("c", c).num("to", p);
    g128.erase(p); g256.erase(p);
    if (g128.count(c)) g128[p] = std::make_shared<GCM<AES<128>>>(*g128[c]); else g256[p] = std::make_shared<GCM<AES<256>>>(*g256.at(c));
  };
  ops["CtrNew"] = [](Args& a, Ev& e) {
    int c = a.num(), bits = a.num(); Bytes k = a.bytes(), iv = a.bytes();
    e.num("c", c).num("bits", bits).bytes("key", k).bytes("iv", iv);
    Exact xk(k), xi(iv);
    c128.erase(c); c256.erase(c);
    if (bits == 128) c128[c] = std::make_shared<CTR<AES<128>>>(key_iv_pair<AES<128>>(xk.span(), xi.span()));
    else c256[c] = std::make_shared<CTR<AES<256>>>(key_iv_pair<AES<256>>(xk.span(), xi.span()));
  };
  ops["Ctr"] = [](Args& a, Ev& e) {
    int c = a.num(); int dec = a.num(); Bytes p = a.bytes();
    e.num("c", c).bytes("in", p);
    std::unique_ptr<uint8_t[]> b(new uint8_t[p.size()]); if (p.size()) memcpy(b.get(), p.data(), p.size());
    std::span<uint8_t> s(b.get(), p.size());
    ctr(c, [&](auto& g) { if (dec) g.Decrypt(s); else g.Encrypt(s); });
    e.bytes("out", s);
  };
  ops["CtrLong"] = [](Args& a, Ev& e) {
    int c = a.num(), dec = a.num(); long long n = a.num();
    e.num("c", c);
    Tailed z({}, n);
    ctr(c, [&](auto& g) { if (dec) g.Decrypt(z.span()); else g.Encrypt(z.span()); });
    windows(a, e, z.span());
  };
  ops["CtrStream"] = [](Args& a, Ev& e) {
    int c = a.num(), n = a.num(); e.num("c", c).num("n", n);
    ctr(c, [&](auto& g) { if constexpr (requires { g.GenerateKeystream(size_t(0)); }) e.flag("set", true).bytes("out", g.GenerateKeystream(n)); else e.flag("set", false); });
  };
  ops["CtrNum"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes n = a.bytes();
    e.num("c", c).bytes("n", n);
    bool set = false;
    ctr(c, [&](auto& g) { if constexpr (requires { g.message_counter = uint64_t(0); }) { g.message_counter = be64(n); set = true; } });
    e.flag("set", set);
  };
  ops["ChaNew"] = [](Args& a, Ev& e) {
    int c = a.num(); Bytes k = a.bytes(), n = a.bytes();
    e.num("c", c).bytes("key", k).bytes("nonce", n);
    Exact xk(k), xn(n);
    cha[c] = std::make_shared<ChaCha20>(xk.span(), xn.span());
  };
  ops["Cha"] = [](Args& a, Ev& e) {
    int c = a.num(); int dec = a.num(); Bytes p = a.bytes();
    e.num("c", c).bytes("in", p);
    std::unique_ptr<uint8_t[]> b(new uint8_t[p.size()]); if (p.size()) memcpy(b.get(), p.data(), p.size());
    std::span<uint8_t> s(b.get(), p.size());
    if (dec) cha.at(c)->Decrypt(s); else cha.at(c)->Encrypt(s);
    e.bytes("out", s);
  };
  ops["ChaSkip"] = [](Args& a, Ev& e) {
    int c = a.num(); long long n = a.num(); long long piece = a.num();
    e.num("c", c).raw("len", pair24(n));
    Tailed z({}, n);
    for (long long o = 0; o < n; o += piece) cha.at(c)->Encrypt(z.span().subspan(o, std::min(n - o, piece)));
    windows(a, e, z.span());
  };
  ops["ChaCopy"] = [](Args& a, Ev& e) {
    int c = a.num(), p = a.num(); e.num("c", c).num("to", p);
    cha[p] = std::make_shared<ChaCha20>(*cha.at(c));
  };
}
}
VH_MAIN(cipher, 300)
