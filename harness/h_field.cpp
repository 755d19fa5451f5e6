// ec_value (field arithmetic modulo 2^255-19) and X25519.
#include "vh.h"
#include "caligo/x25519.h"
using namespace vh;
using namespace Caligo;
namespace {

static Bytes by(const ec_value& x) { Bytes o; for (size_t i = 0; i < 8; i++) for (int s = 0; s < 32; s += 8) o.push_back(uint8_t(x.v[i] >> s)); return o; }
static ec_value val(Args& a) { Bytes b = a.bytes(); Exact x(b); return ec_value(bignum<256>(x.span())); }

static thread_local std::vector<ec_value> r(6, ec_value{0});
void install(Ops& ops) {
  static const auto put = [&](int i, const ec_value& x, Ev& e) { r[i] = x; e.bytes("a", by(r[i])); };
  ops["Load"] = [&](Args& a, Ev& e) { int i = a.num(); ec_value x = val(a); e.num("r", i).bytes("in", by(x)); put(i, x, e); };
  ops["Assign"] = [&](Args& a, Ev& e) { int i = a.num(); uint32_t v = a.u64(); e.num("r", i).bytes("in", Bytes{uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16), uint8_t(v >> 24)}); r[i] = v; e.bytes("a", by(r[i])); };
  ops["Add"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); put(i, r[s] + r[t], e); };
  ops["Sub"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); put(i, r[s] - r[t], e); };
  ops["Mul"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(), t = a.num(); e.num("r", i).num("s", s).num("t", t); put(i, r[s] * r[t], e); };
  ops["Small"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(); uint32_t v = (uint32_t)a.u64(); e.num("r", i).num("s", s).bytes("in", Bytes{uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16), uint8_t(v >> 24)}); put(i, r[s] * v, e); };
  ops["Square"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); put(i, r[s].square(), e); };
  ops["Inv"] = [&](Args& a, Ev& e) { int i = a.num(), s = a.num(); e.num("r", i).num("s", s); put(i, inverse(r[s]), e); };
  ops["Reduce"] = [&](Args& a, Ev& e) { int i = a.num(); e.num("r", i); ec_value x = r[i]; x.applyModulus(); put(i, x, e); };
  ops["Swap"] = [&](Args& a, Ev& e) { bool f = a.num(); int i = a.num(), s = a.num(); e.flag("flag", f).num("r", i).num("s", s); ctime_swap(f, r[i], r[s]); e.bytes("a", by(r[i])).bytes("b", by(r[s])); };
  ops["Cmp"] = [&](Args& a, Ev& e) { int s = a.num(), t = a.num(); e.num("s", s).num("t", t); e.flag("eq", r[s] == r[t]).flag("ne", r[s] != r[t]).flag("lt", r[s] < r[t]); };
  ops["Text"] = [&](Args& a, Ev& e) { int s = a.num(); e.num("s", s); std::ostringstream os; os << r[s]; std::string t = to_string(r[s]); e.bytes("out", t == os.str() ? t : std::string("stream differs")); };
  ops["Wipe"] = [&](Args& a, Ev& e) { int i = a.num(); e.num("r", i); ec_value x = r[i]; x.wipe(); put(i, x, e); };
  // key agreement
  ops["X"] = [&](Args& a, Ev& e) { ec_value k = val(a), u = val(a); e.bytes("k", by(k)).bytes("u", by(u)); ec_value o = X25519(k, u); e.bytes("out", by(o)); e.flag("same", by(o) == o.as_bytes()); };
  ops["Agree"] = [&](Args& a, Ev& e) { ec_value k = val(a), j = val(a), g = val(a); e.bytes("k", by(k)).bytes("j", by(j)).bytes("u", by(g));
    ec_value A = X25519(k, g), B = X25519(j, g); e.bytes("pa", by(A)).bytes("pb", by(B)); e.bytes("sa", by(X25519(k, B))).bytes("sb", by(X25519(j, A))); };
  ops["NewKey"] = [&](Args& a, Ev& e) {
    testValues.clear(); std::vector<uint64_t> v; while (a.more()) v.push_back(a.u64());
    for (size_t i = v.size(); i-- > 0;) testValues.push_back(v[i]);
    e.bytes("out", by(ec_value::random_private_key())); };
  ops["Normalize"] = [&](Args& a, Ev& e) { ec_value k = val(a); e.bytes("in", by(k)); k.normalize(); e.bytes("out", by(k)); };
}
}
VH_MAIN(field, 60)
