// The legacy ECB and CBC modes, over a small cipher plugged in here and over the library's AES-128.
#include "vh.h"
#include "caligo/aes.h"
#include "caligo/legacy/cbc.h"
#include "caligo/legacy/ecb.h"
using namespace vh;
using namespace Caligo;
namespace {
template <size_t B>
struct Toy {
  static constexpr size_t size = B, ivsize = B, keysize = B;
  struct KeySchedule {
    explicit KeySchedule(std::span<const uint8_t> k) : k(k.begin(), k.end()) {}
    Bytes k;
  };
  static uint8_t f(const KeySchedule& s, const uint8_t* x, size_t i, size_t r) {
    return uint8_t(x[i] * 5 + x[(i + 1) % (B / 2)] + s.k[(i + 3 * r) % B] + r);
  }
  static void Encrypt(const KeySchedule& s, uint8_t* p) {
    for (size_t r = 1; r <= 4; r++) {
      uint8_t n[B];
      for (size_t i = 0; i < B / 2; i++) { n[i] = p[B / 2 + i]; n[B / 2 + i] = p[i] ^ f(s, p + B / 2, i, r); }
      memcpy(p, n, B);
    }
  }
  static void Decrypt(const KeySchedule& s, uint8_t* p) {
    for (size_t r = 4; r >= 1; r--) {
      uint8_t n[B];
      for (size_t i = 0; i < B / 2; i++) { n[B / 2 + i] = p[i]; n[i] = p[B / 2 + i] ^ f(s, p, i, r); }
      memcpy(p, n, B);
    }
  }
};
struct Aes {
  static constexpr size_t size = 16, ivsize = 16, keysize = 16;
  using KeySchedule = AesKeySchedule<128>;
  static void Encrypt(const KeySchedule& s, uint8_t* p) {
    __m128i b = AES<128>::Encrypt(s, _mm_loadu_si128((__m128i*)p)); _mm_storeu_si128((__m128i*)p, b);
  }
  static void Decrypt(const KeySchedule&, uint8_t*) { _exit(99); }
};
struct Base { virtual ~Base() {} virtual void run(bool dec, std::span<uint8_t> d) = 0; };
template <typename M>
struct Obj : Base {
  template <typename K> explicit Obj(K k) : m(k) {}
  M m;
  void run(bool dec, std::span<uint8_t> d) override { if (dec) m.Decrypt(d); else m.Encrypt(d); }
};
thread_local std::map<int, std::unique_ptr<Base>> objs;
template <typename C> std::unique_ptr<Base> ecb(const Bytes& k) {
  std::array<uint8_t, C::size> a; std::copy_n(k.begin(), C::size, a.begin());
  return std::make_unique<Obj<ECB<C>>>(a);
}
template <typename C> std::unique_ptr<Base> cbc(const Bytes& k, const Bytes& iv) {
  Exact xk(k), xi(iv);
  return std::make_unique<Obj<CBC<C>>>(key_iv_pair<C>(xk.span(), xi.span()));
}

void install(Ops& ops) {
  // Ecb <c> <aes> <block> <key>       Cbc <c> <aes> <block> <key> <iv>       Enc/Dec <c> <data>
  ops["Ecb"] = [](Args& a, Ev& e) {
    int c = a.num(), aes = a.num(), b = a.num(); Bytes k = a.bytes();
    e.num("c", c).flag("aes", aes).num("b", b).bytes("key", k);
    objs[c] = aes ? ecb<Aes>(k) : b == 8 ? ecb<Toy<8>>(k) : b == 16 ? ecb<Toy<16>>(k) : ecb<Toy<32>>(k);
  };
  ops["Cbc"] = [](Args& a, Ev& e) {
    int c = a.num(), aes = a.num(), b = a.num(); Bytes k = a.bytes(), iv = a.bytes();
    e.num("c", c).flag("aes", aes).num("b", b).bytes("key", k).bytes("iv", iv);
    objs[c] = aes ? cbc<Aes>(k, iv) : b == 8 ? cbc<Toy<8>>(k, iv) : b == 16 ? cbc<Toy<16>>(k, iv) : cbc<Toy<32>>(k, iv);
  };
  for (int dec = 0; dec < 2; dec++)
    ops[dec ? "Dec" : "Enc"] = [dec](Args& a, Ev& e) {
      int c = a.num(); Bytes d = a.bytes();
      e.num("c", c).bytes("in", d);
      std::unique_ptr<uint8_t[]> p(new uint8_t[d.size()]);
      std::copy(d.begin(), d.end(), p.get());
      objs.at(c)->run(dec, {p.get(), d.size()});
      e.bytes("out", Bytes(p.get(), p.get() + d.size()));
    };
}
}
VH_MAIN(modes, 60)
