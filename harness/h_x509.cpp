// Certificates, keys, ASN.1 and the trust store.
#include "vh.h"
#include "caligo/X509Certificate.h"
#include "caligo/Truststore.h"
#include "caligo/Asn1.h"
#include "caligo/base64.h"
using namespace vh;
using namespace Caligo;
namespace {

static Bytes u64b(uint64_t v) { Bytes o; for (int i = 0; i < 8; i++) o.push_back(uint8_t(v >> (8 * i))); return o; }
template <size_t K> static Bytes by(const bignum<K>& b) { Bytes o; for (size_t i = 0; i < bignum<K>::N; i++) for (int s = 0; s < 32; s += 8) o.push_back(uint8_t(b[i] >> s)); return o; }
static Bytes trim(Bytes b) { while (!b.empty() && b.back() == 0) b.pop_back(); return b; }
static std::string fields(const x509certificate& c) {
  Ev e; e.s = "{\"k\":0";
  auto* rsa = dynamic_cast<RsaPubkey*>(c.pubkey.get());
  e.bytes("der", c.derCert).bytes("serial", by(c.serialNumber)).bytes("subject", c.subject).bytes("issuer", c.issuer);
  e.bytes("from", u64b(c.validity_start)).bytes("until", u64b(c.validity_end)).flag("haskey", !!c.pubkey);
  e.bytes("n", rsa ? trim(by(rsa->pubkey.n)) : Bytes{}).bytes("e", rsa ? trim(by(rsa->pubkey.e)) : Bytes{});
  return e.s + "}";
}
struct Src { Bytes in; bool pem = false; };

static thread_local std::map<int, x509certificate> slot;
static thread_local std::map<int, Src> src;
static thread_local std::map<int, std::pair<std::shared_ptr<Exact>, asn1_view>> view;
void install(Ops& ops) {
  vh::prepare = [](const std::string& w) { if (w == "store") Truststore::Instance(); };
  static const auto parse = [](const Src& s) { Exact x(s.in); return parseCertificate(x.span(), s.pem ? DataFormat::Pem : DataFormat::Der); };
  // Parse <slot> <good> <der>            the certificate in DER
  // ParsePem <slot> <good> <der> <text>  the same certificate as PEM text
  static const auto doparse = [&](Args& a, Ev& e, bool pem) {
    int k = a.num(); bool good = a.num(); Bytes der = a.bytes();
    Src s{pem ? a.bytes() : der, pem};
    if (pem) e.s.replace(e.s.find("\"ParsePem\""), 10, "\"Parse\"");
    e.num("slot", k).flag("good", good).bytes("in", der);
    src[k] = s; slot.erase(k);
    slot.emplace(k, parse(s));
    e.raw("x", fields(slot.at(k)));
  };
  ops["Parse"] = [&](Args& a, Ev& e) { doparse(a, e, false); };
  ops["ParsePem"] = [&](Args& a, Ev& e) { doparse(a, e, true); };
  ops["Bundle"] = [&](Args& a, Ev& e) {
    Bytes text = a.bytes(); std::string in = "["; bool f = true;
    while (a.more()) { if (!f) in += ','; f = false; in += Ev::arr(a.bytes()); }
    e.raw("in", in + "]");
    Exact x(text); std::vector<x509certificate> v; { v = parseCertificatesPem(x.span()); }
    std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; o += fields(v[i]); }
    e.raw("out", o + "]");
  };
  ops["Applies"] = [&](Args& a, Ev& e) { int k = a.num(); Bytes n = a.bytes(); e.num("slot", k).bytes("name", n).flag("out", slot.at(k).appliesTo(std::string(n.begin(), n.end()))); };
  ops["Verify"] = [&](Args& a, Ev& e) { int x = a.num(), y = a.num(); e.num("a", x).num("b", y);
    if (!slot.count(x) || !slot.count(y)) { e.flag("out", false); return; }
    bool r; { r = slot.at(x).verify(slot.at(y)); } e.flag("out", r); };
  ops["Add"] = [&](Args& a, Ev& e) { int k = a.num(); e.num("slot", k); Truststore::Instance().addCertificate(parse(src.at(k))); };
  ops["Trust"] = [&](Args& a, Ev& e) { uint64_t t = a.u64(); std::vector<x509certificate> v; std::string ls = "[";
    while (a.more()) { int k = a.num(); if (ls.size() > 1) ls += ','; ls += std::to_string(k); try { v.push_back(parse(src.at(k))); } catch (const std::exception&) { v.push_back({}); } }
    e.bytes("time", u64b(t)).raw("list", ls + "]");
    bool r; { r = Truststore::Instance().trust(v, t); } e.flag("out", r); };
  ops["Get"] = [&](Args& a, Ev& e) { Bytes n = a.bytes(); e.bytes("name", n); auto r = Truststore::Instance().get(std::string(n.begin(), n.end())); e.flag("found", !!r).bytes("der", r ? (*r)->derCert : Bytes{}); };
  // Builtin <slot> <der>: a certificate the store must have taken from the system's bundle;  GetOf <slot>: look its name up
  ops["Builtin"] = [&](Args& a, Ev& e) { int k = a.num(); Bytes der = a.bytes(); Truststore::Instance(); src[k] = Src{der, false}; e.num("slot", k).bytes("in", der); slot.erase(k); slot.emplace(k, parse(src[k])); e.raw("x", fields(slot.at(k))); };
  ops["GetOf"] = [&](Args& a, Ev& e) { int k = a.num(); e.s.replace(e.s.find("\"GetOf\""), 7, "\"Get\""); Bytes n(slot.at(k).subject.begin(), slot.at(k).subject.end()); e.bytes("name", n);
    auto r = Truststore::Instance().get(std::string(n.begin(), n.end())); e.flag("found", !!r).bytes("der", r ? (*r)->derCert : Bytes{}); };
  // ASN.1 views
  ops["Open"] = [&](Args& a, Ev& e) { int k = a.num(); Bytes d = a.bytes(); e.num("view", k).bytes("in", d); view.erase(k); auto x = std::make_shared<Exact>(d); view.emplace(k, std::make_pair(x, asn1_view(x->span()))); };
  ops["Read"] = [&](Args& a, Ev& e) { int k = a.num(); e.num("view", k); auto& p = view.at(k); auto [id, c] = p.second.read(); e.num("tag", (int)id).bytes("out", c).num("at", c.data() - p.first->span().data()); };
  ops["Peek"] = [&](Args& a, Ev& e) { int k = a.num(); e.num("view", k); e.num("tag", (int)view.at(k).second.peek()); };
  ops["Empty"] = [&](Args& a, Ev& e) { int k = a.num(); e.num("view", k); e.flag("out", view.at(k).second.empty()); };
  ops["CopyView"] = [&](Args& a, Ev& e) { int k = a.num(), s = a.num(); e.num("view", k).num("from", s); auto copy = view.at(s); view.erase(k); view.emplace(k, copy); };
  ops["Tags"] = [&](Args&, Ev& e) { using enum asn1_id; std::string o = "[";
    for (asn1_id t : {boolean, integer, bit_string, octet_string, null, object, utf8string, printablestring, ia5string, utctime, generalizedtime, sequence, set}) { if (o.size() > 1) o += ','; o += std::to_string((int)t); }
    e.raw("out", o + "]"); };
  // WalkBig <head> <zeros>: one element whose content is that many zero bytes
  ops["WalkBig"] = [&](Args& a, Ev& e) { Bytes d = a.bytes(); size_t z = a.u64(); e.bytes("in", d).num("zeros", z); Bytes all(d.size() + z); memcpy(all.data(), d.data(), d.size()); Exact x(all); asn1_view v(x.span());
    auto [id, c] = v.read(); e.num("tag", (int)id).num("at", c.data() - x.span().data()).num("size", c.size()).flag("empty", v.empty()); };
  // WalkHuge <head> <high> <low>: the same with high * 2^24 + low zero bytes, which nobody touches
  ops["WalkHuge"] = [&](Args& a, Ev& e) {
    Bytes d = a.bytes(); uint64_t hi = a.u64(), lo = a.u64(); size_t n = d.size() + (hi << 24) + lo;
    e.bytes("in", d).num("zhi", hi).num("zlo", lo);
    std::unique_ptr<uint8_t, void (*)(void*)> z((uint8_t*)calloc(n, 1), free);
    if (!z) _exit(98);
    memcpy(z.get(), d.data(), d.size());
    asn1_view v(std::span<const uint8_t>(z.get(), n));
    auto [id, c] = v.read();
    e.num("tag", (int)id).num("at", c.data() - z.get()).num("hi", c.size() >> 24).num("lo", c.size() & 0xffffff).flag("empty", v.empty()); };
  // Walk: read to the end or to the first refusal
  ops["Walk"] = [&](Args& a, Ev& e) { Bytes d = a.bytes(); e.bytes("in", d); Exact x(d); asn1_view v(x.span()); std::string o = "["; bool refused = false;
    while (!v.empty()) {
      try { int pk = (int)v.peek(); auto [id, c] = v.read(); if (o.size() > 1) o += ','; o += "[" + std::to_string((int)id) + "," + std::to_string(pk) + "," + std::to_string(c.data() - x.span().data()) + "," + std::to_string(c.size()) + "]"; }
      catch (const std::runtime_error&) { refused = true; break; }
    }
    e.raw("out", o + "]").flag("refused", refused); };
  // Any <kind> <bytes>: only how it ends matters
  ops["Any"] = [&](Args& a, Ev& e) {
    std::string kind = a.next(); Bytes d = a.bytes(); e.str("kind", kind).num("len", d.size()); Exact x(d);
    auto use = [&](x509certificate& c) { (void)c.appliesTo("a"); c.verify(c); for (auto& [k, s] : slot) { c.verify(s); s.verify(c); } };
    if (kind == "der") { auto c = parseCertificate(x.span(), DataFormat::Der); use(c); }
    else if (kind == "pem") { auto c = parseCertificate(x.span(), DataFormat::Pem); use(c); }
    else if (kind == "bundle") { auto v = parseCertificatesPem(x.span()); for (auto& c : v) use(c); }
    else if (kind == "key" || kind == "keypem") { auto k = parsePrivateKey(x.span(), kind == "key" ? DataFormat::Der : DataFormat::Pem); e.flag("key", !!k); }
    else if (kind == "trust") { std::vector<x509certificate> v; v.push_back(parseCertificate(x.span())); uint64_t t = v[0].validity_start; for (auto& [k, s] : src) v.push_back(parse(s)); Truststore::Instance().trust(v, t); }
    else if (kind == "base64") { base64d(x.sv()); }
    else if (kind == "asn1") {
      // every element, recursively into constructed ones
      std::vector<std::span<const uint8_t>> todo{x.span()}; size_t sum = 0;
      while (!todo.empty() && sum < 10000000) { asn1_view v(todo.back()); todo.pop_back();
        try { while (!v.empty()) { (void)v.peek(); auto [id, c] = v.read(); for (auto b : c) sum += b + 1; if ((int)id & 0x20) todo.push_back(c); else if (c.size() > 1) todo.push_back(c.subspan(1)); } } catch (const std::runtime_error&) {} }
    }
    else _exit(99);
  };
}
}
VH_MAIN(x509, 120)
