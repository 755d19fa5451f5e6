#include "vh.h"
#include "caligo/base64.h"
using namespace vh;
using namespace Caligo;
namespace {
static std::string enc(const Exact& x, bool nl, bool omit, int cs) {
  if (nl && !omit && cs == 0) return base64(x.span());
  if (!omit && cs == 0) return base64(x.span(), nl);
  if (cs == 0) return base64(x.span(), nl, omit);
  return base64(x.span(), nl, omit, (Base64CharSet)cs);
}
void install(Ops& ops) {
  ops["Encode"] = [](Args& a, Ev& e) {
    bool nl = a.num(), om = a.num(); int cs = a.num(); Bytes d = a.bytes();
    e.flag("nl", nl).flag("omit", om).num("cs", cs).bytes("in", d);
    Exact x(d);
    e.bytes("out", enc(x, nl, om, cs));
  };
  // EncodeLong <nl> <omit> <cs> <bytes> <position>...
  ops["EncodeLong"] = [](Args& a, Ev& e) {
    bool nl = a.num(), om = a.num(); int cs = a.num(); size_t n = a.num();
    e.flag("nl", nl).flag("omit", om).num("cs", cs).num("n", n);
    Bytes d(n);
    for (size_t i = 0; i < n; i++) d[i] = uint8_t(7 * i + (i >> 8));
    Exact x(d);
    std::string t = enc(x, nl, om, cs);
    std::string s = "[";
    while (a.more()) {
      size_t at = a.num(), k = at < t.size() ? std::min<size_t>(100, t.size() - at) : 0;
      if (s.size() > 1) s += ',';
      s += "{\"at\":" + std::to_string(at) + ",\"b\":" + Ev::arr(t.substr(std::min(at, t.size()), k)) + "}";
    }
    auto b = base64d(t);
    e.num("len", t.size()).raw("w", s + "]").flag("back", std::equal(b.begin(), b.end(), d.begin(), d.end()));
  };
  ops["Decode"] = [](Args& a, Ev& e) {
    Bytes d = a.bytes(); e.bytes("in", d);
    Exact x(d);
    e.bytes("out", base64d(x.sv()));
  };
  // Round <nl> <omit> <cs> <seed> <data>: noise from outside the alphabets, chosen by seed
  ops["Round"] = [](Args& a, Ev& e) {
    bool nl = a.num(), om = a.num(); int cs = a.num(); uint64_t s = a.u64(); Bytes d = a.bytes();
    e.bytes("in", d);
    Exact x(d);
    std::string t = enc(x, nl, om, cs), n;
    auto rnd = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 40); };
    auto noise = [&] {
      for (;;) { unsigned char c = rnd() & 255; if (!isalnum(c) && !strchr("+/,-_", c ? c : 1)) return (char)c; }
    };
    for (char c : t) { while (rnd() % 4 == 0) n += noise(); n += c; }
    while (rnd() % 3 == 0) n += noise();
    Exact y(Bytes(n.begin(), n.end()));
    e.bytes("out", base64d(y.sv()));
  };
}
}
VH_MAIN(base64, 60)
