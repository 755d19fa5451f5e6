// Hash objects: MD5, SHA1, SHA2, SHA3, CRC32 and the facade by name.
#include "vh.h"
#include <sys/mman.h>
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/crc.h"
#include "caligo/hash.h"
using namespace vh;
namespace {

struct Obj {
  virtual ~Obj() {}
  virtual void add(std::span<const uint8_t> d) = 0;
  virtual void addText(std::string_view d) = 0;
  virtual Bytes data() = 0;
  virtual Bytes conv() = 0;
  virtual std::string text() = 0;
  virtual std::unique_ptr<Obj> copy() = 0;
  virtual void assign(Obj& o) = 0;
  virtual size_t hashsize() = 0;
  virtual uint64_t maxlen() = 0;
  virtual Bytes asn1() = 0;
};

template <typename H>
struct ObjT : Obj {
  H h;
  ObjT() {}
  ObjT(const H& o) : h(o) {}
  ObjT(std::span<const uint8_t> d) : h(d) {}
  void add(std::span<const uint8_t> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes data() override { const H& c = h; auto a = c.data(); return Bytes(a.begin(), a.end()); }
  Bytes conv() override { const H& c = h; std::array<uint8_t, H::hashsize> a = c; return Bytes(a.begin(), a.end()); }
  std::string text() override { const H& c = h; return std::string(c); }
  std::unique_ptr<Obj> copy() override { const H& c = h; return std::make_unique<ObjT<H>>(c); }
  void assign(Obj& o) override { const H& c = dynamic_cast<ObjT<H>&>(o).h; h = c; }
  size_t hashsize() override { return H::hashsize; }
  uint64_t maxlen() override { return H::MaxLength(); }
  Bytes asn1() override { if constexpr (requires { H::getAsn1Id(); }) return H::getAsn1Id(); else return {}; }
};

struct ObjN : Obj {
  std::unique_ptr<Caligo::Hash> h;
  ObjN(std::string_view name) : h(std::make_unique<Caligo::Hash>(name)) {}
  ObjN(std::string_view name, std::span<const uint8_t> d) : h(std::make_unique<Caligo::Hash>(name, d)) {}
  void add(std::span<const uint8_t> d) override { h->add(d); }
  void addText(std::string_view d) override { h->add(d); }
  Bytes data() override { const Caligo::Hash& c = *h; return c.data(); }
  Bytes conv() override { const Caligo::Hash& c = *h; std::vector<uint8_t> v = c; return v; }
  std::string text() override { const Caligo::Hash& c = *h; return std::string(c); }
  std::unique_ptr<Obj> copy() override { fprintf(stderr, "no copy\n"); _exit(99); }
  void assign(Obj&) override { _exit(99); }
  size_t hashsize() override { return h->hashsize(); }
  uint64_t maxlen() override { return h->MaxLength(); }
  Bytes asn1() override { return h->getAsn1Id(); }
};

template <typename F>
static auto with_alg(const std::string& alg, F f) {
  using namespace Caligo;
  if (alg == "md5") return f.template operator()<MD5>();
  if (alg == "sha1") return f.template operator()<SHA1>();
  if (alg == "sha224") return f.template operator()<SHA2<224>>();
  if (alg == "sha256") return f.template operator()<SHA2<256>>();
  if (alg == "sha384") return f.template operator()<SHA2<384>>();
  if (alg == "sha512") return f.template operator()<SHA2<512>>();
  if (alg == "sha3-224") return f.template operator()<SHA3<224>>();
  if (alg == "sha3-256") return f.template operator()<SHA3<256>>();
  if (alg == "sha3-384") return f.template operator()<SHA3<384>>();
  if (alg == "sha3-512") return f.template operator()<SHA3<512>>();
  if (alg == "crc32") return f.template operator()<CRC32>();
  fprintf(stderr, "alg %s\n", alg.c_str());
  _exit(99);
}

static thread_local std::map<int, std::unique_ptr<Obj>> objs;

void install(Ops& ops) {
  // New <obj> <alg> <data>...: constructed with up to three pieces of data
  ops["New"] = [](Args& a, Ev& e) {
    int o = a.num(); std::string alg = a.next(); bool init = a.more();
    Bytes d = init ? a.bytes() : Bytes(), d2, d3;
    bool two = a.more(); if (two) d2 = a.bytes();
    bool three = a.more(); if (three) d3 = a.bytes();
    Exact x(d), y(d2), z(d3);
    d.insert(d.end(), d2.begin(), d2.end()); d.insert(d.end(), d3.begin(), d3.end());
    e.num("obj", o).str("alg", alg).bytes("in", d);
    objs[o] = with_alg(alg, [&]<typename H>() -> std::unique_ptr<Obj> {
      if (three) return std::make_unique<ObjT<H>>(H(x.span(), y.sv(), z.span()));
      if (two) return std::make_unique<ObjT<H>>(H(x.sv(), y.span()));
      if (init) return std::make_unique<ObjT<H>>(x.span());
      return std::make_unique<ObjT<H>>();
    });
  };
  // Named <obj> <name-hex> [<data>]
  ops["Named"] = [](Args& a, Ev& e) {
    int o = a.num(); std::string name = a.text(); bool init = a.more();
    Bytes d = init ? a.bytes() : Bytes();
    e.num("obj", o).str("name", name).bytes("in", d);
    Exact x(d), nm(Bytes(name.begin(), name.end()));
    if (init) objs[o] = std::make_unique<ObjN>(nm.sv(), x.span());
    else objs[o] = std::make_unique<ObjN>(nm.sv());
  };
  ops["Add"] = [](Args& a, Ev& e) {
    int o = a.num(); Bytes d = a.bytes(); bool text = a.more() && a.num();
    e.num("obj", o).bytes("in", d);
    Exact x(d);
    if (text) objs.at(o)->addText(x.sv()); else objs.at(o)->add(x.span());
  };
  // AddRep <obj> <count>: count bytes, byte i (from 0) is i*i*7+i mod 251 ... a fixed stream, in pieces of <chunk>
  ops["AddLong"] = [](Args& a, Ev& e) {
    int o = a.num(); uint64_t n = a.u64(); uint64_t chunk = a.u64();
    e.num("obj", o).str("len", std::to_string(n));
    Bytes pat(1 << 20);
    for (size_t i = 0; i < pat.size(); i++) pat[i] = uint8_t((i * 131 + (i >> 8) * 29 + (i >> 16) * 7) & 255);
    uint64_t done = 0;
    if (chunk >= n) {      // in one piece: the pattern over and over in the address space, once in memory
      int fd = memfd_create("pattern", 0);
      if (fd < 0 || write(fd, pat.data(), pat.size()) != (ssize_t)pat.size()) _exit(94);
      size_t all = (n + pat.size() - 1) / pat.size() * pat.size();
      uint8_t* p = (uint8_t*)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) _exit(94);
      for (size_t at = 0; at < all; at += pat.size()) if (mmap(p + at, pat.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(94);
      objs.at(o)->add(std::span<const uint8_t>(p, n));
      munmap(p, all); close(fd);
      done = n;
    }
    while (done < n) {
      uint64_t k = std::min({chunk, n - done, (uint64_t)pat.size() - done % pat.size()});
      objs.at(o)->add(std::span<const uint8_t>(pat.data() + done % pat.size(), k));
      done += k;
    }
  };
  ops["Read"] = [](Args& a, Ev& e) {
    int o = a.num();
    e.num("obj", o);
    Obj& h = *objs.at(o);
    e.bytes("out", h.data()).bytes("conv", h.conv()).bytes("text", h.text());
  };
  ops["Copy"] = [](Args& a, Ev& e) {
    int o = a.num(), p = a.num();
    e.num("obj", o).num("to", p);
    objs[p] = objs.at(o)->copy();
  };
  ops["Assign"] = [](Args& a, Ev& e) {
    int o = a.num(), p = a.num();
    e.num("obj", o).num("to", p);
    objs.at(p)->assign(*objs.at(o));
  };
  ops["Info"] = [](Args& a, Ev& e) {
    int o = a.num();
    e.num("obj", o);
    Obj& h = *objs.at(o);
    e.num("size", h.hashsize()).num("maxhi", h.maxlen() >> 31).num("maxlo", h.maxlen() & 0x7fffffff).bytes("asn1", h.asn1());
  };
}
}
VH_MAIN(hash, 600)
