// Montgomery arithmetic and primality over bignum<K>.
#include "vh.h"
#include "caligo/bignum.h"
#include "caligo/random_prime.h"
using namespace vh;
using namespace Caligo;
namespace {

template <size_t K> static Bytes by(const bignum<K>& b) {
  Bytes o; for (size_t i = 0; i < bignum<K>::N; i++) for (int s = 0; s < 32; s += 8) o.push_back(uint8_t(b[i] >> s)); return o;
}
template <size_t K> static bignum<K> num(Args& a) { Bytes b = a.bytes(); Exact x(b); return bignum<K>(x.span()); }

// the constants of the state, those there are
template <typename S> static void constants(const S& s, Ev& e) {
  if constexpr (requires { s.N; }) e.bytes("n", by(s.N));
  if constexpr (requires { s.Ninv; }) e.bytes("ninv", by(s.Ninv));
  if constexpr (requires { s.R1MN; }) e.bytes("r1", by(s.R1MN));
  if constexpr (requires { s.R2MN; }) e.bytes("r2", by(s.R2MN));
  if constexpr (requires { s.R3MN; }) e.bytes("r3", by(s.R3MN));
}

struct Base { virtual ~Base() {} virtual void run(const std::string& op, Args& a, Ev& e) = 0; };

template <size_t K>
struct M : Base {
  std::unique_ptr<MontgomeryState<K>> st;
  std::unique_ptr<MontgomeryValue<K>> r[5];
  void put(int i, const MontgomeryValue<K>& v, Ev& e) { r[i] = std::make_unique<MontgomeryValue<K>>(v); e.bytes("a", by(bignum<K>(*r[i]))); }
  void run(const std::string& op, Args& a, Ev& e) override {
    if (op == "State") {
      auto n = num<K>(a); e.num("bits", K).bytes("mod", by(n));
      for (auto& p : r) p.reset();
      st = std::make_unique<MontgomeryState<K>>(n);
      constants(*st, e);
    }
    else if (op == "In") { int i = a.num(); auto n = num<K>(a); e.num("r", i).bytes("in", by(n)); put(i, MontgomeryValue<K>(*st, n), e); }
    else if (op == "Copy") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); put(i, *r[s], e); }
    else if (op == "Add") { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); put(i, *r[s] + *r[t], e); }
    else if (op == "Mul") { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); put(i, *r[s] * *r[t], e); }
    else if (op == "Square") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); put(i, r[s]->square(), e); }
    else if (op == "ExpW") { int i = a.num(), s = a.num(); uint32_t x = (uint32_t)a.u64(); e.num("r", i).num("s", s).bytes("x", Bytes{uint8_t(x), uint8_t(x >> 8), uint8_t(x >> 16), uint8_t(x >> 24)}); put(i, r[s]->exp(x), e); }
    else if (op == "ExpB") { int i = a.num(), s = a.num(); auto x = num<K>(a); e.num("r", i).num("s", s).bytes("x", by(x)); put(i, r[s]->exp(x), e); }
    else if (op == "Out") { int s = a.num(); e.num("s", s); e.bytes("a", by(bignum<K>(*r[s]))); }
    else if (op == "Redc") { auto v = num<2 * K>(a); e.bytes("in", by(v)); e.bytes("a", by(st->REDC(v))); }
    else _exit(99);
  }
};

template <size_t K> static void isprime(Args& a, Ev& e) { auto n = num<K>(a); e.num("bits", K).bytes("in", by(n)); e.flag("out", miller_rabin_is_probably_prime(n)); }
template <size_t K> static void range(Args& a, Ev& e) {
  uint32_t lo = (uint32_t)a.u64(), n = (uint32_t)a.u64(); e.num("bits", K).num("lo", lo).num("n", n);
  std::string o = "["; for (uint32_t i = 0; i < n; i++) { if (i) o += ','; o += miller_rabin_is_probably_prime(bignum<K>(lo + i)) ? "true" : "false"; }
  e.raw("out", o + "]");
}
template <size_t K> static void genprime(Args& a, Ev& e) {
  bool strict = a.num(); e.num("bits", K).flag("strict", strict);
  testValues.clear();
  while (a.more()) testValues.push_back(a.u64());
  std::reverse(testValues.begin(), testValues.end());
  auto p = strict ? random_prime<K, true>() : random_prime<K, false>();
  e.bytes("out", by(p));
  e.flag("accepted", miller_rabin_is_probably_prime(p));
}

#define W(F) switch (w) { F(32) F(64) F(96) F(128) F(160) F(256) F(512) F(1024) F(192) F(384) F(2048) default: _exit(99); }
static thread_local std::unique_ptr<Base> m, alt; static thread_local int w = 0, altw = 0;
void install(Ops& ops) {
  ops["State"] = [&](Args& a, Ev& e) { w = (int)a.num();
#define F(K) case K: m = std::make_unique<M<K>>(); break;
    W(F)
#undef F
    m->run("State", a, e); };
  for (auto n : {"In", "Copy", "Add", "Mul", "Square", "ExpW", "ExpB", "Out", "Redc"}) { std::string op = n; ops[op] = [&, op](Args& a, Ev& e) { m->run(op, a, e); }; }
  ops["Swap"] = [&](Args&, Ev&) { std::swap(m, alt); std::swap(w, altw); };      // two moduli in use at a time
  ops["IsPrime"] = [&](Args& a, Ev& e) { int w = (int)a.num();
if (w == 1536) return isprime<1536>(a, e);
#define F(K) case K: return isprime<K>(a, e);
    W(F)
#undef F
  };
  ops["Range"] = [&](Args& a, Ev& e) { int w = (int)a.num();
#define F(K) case K: return range<K>(a, e);
    W(F)
#undef F
  };
  ops["Generate"] = [&](Args& a, Ev& e) { int w = (int)a.num();
    switch (w) { case 32: return genprime<32>(a, e); case 64: return genprime<64>(a, e); case 128: return genprime<128>(a, e); case 256: return genprime<256>(a, e); case 512: return genprime<512>(a, e); default: _exit(99); }
  };
}
}
VH_MAIN(mont, 60)
