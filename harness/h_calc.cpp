// bignum<Bits> as a register machine.
#include "vh.h"
#include "caligo/bignum.h"
using namespace vh;
using namespace Caligo;
namespace {

static int32_t s32(uint32_t x) { return (int32_t)x; }
static std::string warr(const std::vector<uint32_t>& v) {
  std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; o += std::to_string(s32(v[i])); } return o + "]";
}
template <size_t K> static Bytes by(const bignum<K>& b) {
  Bytes o; for (size_t i = 0; i < bignum<K>::N; i++) for (int s = 0; s < 32; s += 8) o.push_back(uint8_t(b[i] >> s)); return o;
}
static uint32_t u32(Args& a) { return (uint32_t)a.u64(); }

struct Base { virtual ~Base() {} virtual void run(const std::string& op, Args& a, Ev& e) = 0; };

template <size_t W>
struct M : Base {
  using B = bignum<W>;
  B r[5];
  template <size_t K> void reduce(int s, const Bytes& m, Ev& e) {
    bignum<K> p{std::span<const uint8_t>(m)};
    e.bytes("mod", by(p));
    auto o = r[s].naive_reduce(p);
    e.bytes("out", by(o));
  }
  template <size_t K> void slice(int s, size_t k, Ev& e) {
    if constexpr (K <= W) e.bytes("out", by(r[s].template slice<K>(k)));
  }
  template <size_t K> void convert(int s, Ev& e) { bignum<K> o(r[s]); e.bytes("out", by(o)); }
  template <typename F> void width(int bits, F f) {
    switch (bits) {
      case 32: return f.template operator()<32>();
      case 64: return f.template operator()<64>();
      case 96: return f.template operator()<96>();
      case 128: return f.template operator()<128>();
      case 160: return f.template operator()<160>();
      case 256: return f.template operator()<256>();
      case 512: return f.template operator()<512>();
      case 2048: return f.template operator()<2048>();
      default: _exit(99);
    }
  }
  template <size_t... I> static B list(const std::vector<uint32_t>& v, std::index_sequence<I...>) { return B{v[I]...}; }
  B fromlist(const std::vector<uint32_t>& v) {
    switch (v.size()) {
      case 1: return B(std::initializer_list<uint32_t>{v[0]});
      case 2: if constexpr (B::N >= 2) return B{v[0], v[1]};
      case 3: if constexpr (B::N >= 3) return B{v[0], v[1], v[2]};
      case 4: if constexpr (B::N >= 4) return B{v[0], v[1], v[2], v[3]};
      case 8: if constexpr (B::N >= 8) return B{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]};
    }
    _exit(99);
  }
  void run(const std::string& op, Args& a, Ev& e) override {
    auto shown = [&](int i) { e.bytes("a", by(r[i])); };
    if (op == "Load") { int i = a.num(); Bytes d = a.bytes(); e.num("r", i).bytes("in", d); Exact x(d); r[i] = B(x.span()); shown(i); }
    else if (op == "Words" || op == "List") {
      int i = a.num(); std::vector<uint32_t> v; while (a.more()) v.push_back(u32(a));
      e.num("r", i).raw("in", warr(v));
      if (op == "Words") r[i] = B(std::span<const uint32_t>(v)); else r[i] = fromlist(v);
      shown(i);
    }
    else if (op == "Word") { int i = a.num(); uint32_t v = u32(a); e.num("r", i).num("in", s32(v)); r[i] = B(v); shown(i); }
    else if (op == "AssignWord") { int i = a.num(); uint32_t v = u32(a); e.num("r", i).num("in", s32(v)); r[i] = v; shown(i); }
    else if (op == "Copy") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); r[i] = r[s]; shown(i); }
    else if (op == "SetBit") { int i = a.num(), k = a.num(); e.num("r", i).num("k", k); r[i].set_bit(k); shown(i); }
    else if (op == "ClearBit") { int i = a.num(), k = a.num(); e.num("r", i).num("k", k); r[i].clear_bit(k); shown(i); }
    else if (op == "SetWord") { int i = a.num(), k = a.num(); uint32_t v = u32(a); e.num("r", i).num("k", k).num("in", s32(v)); r[i][k] = v; shown(i); }
    else if (op == "Shl") { int i = a.num(), k = a.num(); e.num("r", i).num("k", k); r[i].shl_word(k); shown(i); }
    else if (op == "Shr1") { int i = a.num(); e.num("r", i); r[i].shr1(); shown(i); }
    else if (op == "Neg") { int i = a.num(); e.num("r", i); r[i].neg(); shown(i); }
    else if (op == "Xor") { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); r[i] = r[s] ^ r[t]; shown(i); }
    else if (op == "XorEq") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); r[i] ^= r[s]; shown(i); }
    else if (op == "AndEq") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); r[i] &= r[s]; shown(i); }
    else if (op == "AddEq") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); bool f = r[i].add(r[s].v); e.flag("flag", f); shown(i); }
    else if (op == "SubEq") { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); bool f = r[i].sub(r[s].v); e.flag("flag", f); shown(i); }
    else if (op == "Plus") { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); auto p = r[s] + r[t]; r[i] = p.second; e.flag("flag", p.first); shown(i); }
    else if (op == "Minus") { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); auto p = r[s] - r[t]; r[i] = p.second; e.flag("flag", p.first); shown(i); }
    else if (op == "Swap") { bool f = a.num(); int i = a.num(), s = a.num(); e.flag("flag", f).num("r", i).num("s", s); ctime_swap(f, r[i], r[s]); shown(i); e.bytes("b", by(r[s])); }
    else if (op == "MulWord") { int s = a.num(); uint32_t v = u32(a); e.num("s", s).num("in", s32(v)); e.bytes("out", by(r[s] * v)); }
    else if (op == "Mul") { int s = a.num(), t = a.num(); e.num("s", s).num("t", t); e.bytes("out", by(r[s] * r[t])); }
    else if (op == "Square") { int s = a.num(); e.num("s", s); e.bytes("out", by(r[s].square())); }
    else if (op == "Eq") { int s = a.num(), t = a.num(); e.num("s", s).num("t", t); e.flag("out", r[s] == r[t]); }
    else if (op == "Lt") { int s = a.num(), t = a.num(); e.num("s", s).num("t", t); e.flag("out", r[s] < r[t]); }
    else if (op == "Bit") { int s = a.num(), k = a.num(); e.num("s", s).num("k", k); const B& c = r[s]; e.num("out", c.bit(k)); }
    else if (op == "GetWord") { int s = a.num(), k = a.num(); e.num("s", s).num("k", k); const B& c = r[s]; e.num("out", s32(c[k])); }
    else if (op == "Bytes") { int s = a.num(); e.num("s", s); e.bytes("out", r[s].as_bytes()); }
    else if (op == "Text") { int s = a.num(); e.num("s", s); std::ostringstream os; os << r[s]; std::string t = to_string(r[s]); e.bytes("out", t == os.str() ? t : std::string("stream differs")); }
    else if (op == "Reduce") {
      int s = a.num(), bits = a.num(); Bytes m = a.bytes(); e.num("s", s).num("bits", bits);
      width(bits, [&]<size_t K>() { reduce<K>(s, m, e); });
    }
    else if (op == "Slice") { int s = a.num(), bits = a.num(), k = a.num(); e.num("s", s).num("bits", bits).num("k", k); width(bits, [&]<size_t K>() { slice<K>(s, k, e); }); }
    else if (op == "Convert") { int s = a.num(), bits = a.num(); e.num("s", s).num("bits", bits); width(bits, [&]<size_t K>() { convert<K>(s, e); }); }
    else _exit(99);
  }
};

static thread_local std::unique_ptr<Base> m;

void install(Ops& ops) {
  ops["Width"] = [](Args& a, Ev& e) {
    int bits = a.num(); e.num("bits", bits);
    switch (bits) {
      case 32: m = std::make_unique<M<32>>(); break;
      case 64: m = std::make_unique<M<64>>(); break;
      case 96: m = std::make_unique<M<96>>(); break;
      case 128: m = std::make_unique<M<128>>(); break;
      case 160: m = std::make_unique<M<160>>(); break;
      case 256: m = std::make_unique<M<256>>(); break;
      case 512: m = std::make_unique<M<512>>(); break;
      case 1024: m = std::make_unique<M<1024>>(); break;
      case 192: m = std::make_unique<M<192>>(); break;
      case 224: m = std::make_unique<M<224>>(); break;
      case 384: m = std::make_unique<M<384>>(); break;
      case 768: m = std::make_unique<M<768>>(); break;
      case 2048: m = std::make_unique<M<2048>>(); break;
      case 4096: m = std::make_unique<M<4096>>(); break;
      case 8192: m = std::make_unique<M<8192>>(); break;
      default: _exit(99);
    }
  };
  for (const char* n : {"Load", "Words", "List", "Word", "AssignWord", "Copy", "SetBit", "ClearBit", "SetWord", "Shl", "Shr1", "Neg", "Xor", "XorEq", "AndEq",
                        "AddEq", "SubEq", "Plus", "Minus", "Swap", "MulWord", "Mul", "Square", "Eq", "Lt", "Bit", "GetWord", "Bytes", "Text", "Reduce", "Slice", "Convert"})
    ops[n] = [n](Args& a, Ev& e) { m->run(n, a, e); };
}
}
VH_MAIN(calc, 60)
