// The random source.
#include "vh.h"
#include <atomic>
#include <thread>
#include "caligo/random.h"
using namespace vh;
using namespace Caligo;
namespace {
Bytes le(uint64_t v) { Bytes o; for (int i = 0; i < 8; i++) o.push_back(uint8_t(v >> (8 * i))); return o; }
std::string list(const std::vector<uint64_t>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += Ev::arr(le(v[i])); } return s + "]"; }
// a buffer of n elements between guards
template <typename T> void fill(size_t n, Ev& e) {
  static size_t turn = 0; const size_t G = 16 + (turn++ * 3) % 8;      // at ever other alignments
  std::vector<T> buf(n + 2 * G);
  for (size_t i = 0; i < buf.size(); i++) buf[i] = (T)(0xC3A5964BF01E2D78ull + i * 0x9E3779B97F4A7C15ull);
  std::vector<T> was = buf;
  generate_random(std::span<T>(buf.data() + G, n));
  bool ok = true;
  for (size_t i = 0; i < G; i++) ok &= buf[i] == was[i] && buf[n + G + i] == was[n + G + i];
  Bytes o;
  for (size_t i = 0; i < n; i++) for (size_t b = 0; b < sizeof(T); b++) o.push_back(uint8_t((uint64_t)buf[G + i] >> (8 * b)));
  e.bytes("out", o).flag("intact", ok);
}
template <typename T> std::vector<uint64_t> block(size_t words) {      // words draws, through a fill
  const size_t k = 8 / sizeof(T);
  std::vector<T> b(words * k);
  generate_random(std::span<T>(b));
  std::vector<uint64_t> o(words);
  for (size_t i = 0; i < words; i++) for (size_t j = 0; j < k; j++) o[i] |= (uint64_t)b[i * k + j] << (8 * sizeof(T) * j);
  return o;
}
// n draws, at once: the buffer after a guard word, and its draws at the given positions
template <typename T> void longfill(size_t n, Args& a, Ev& e) {
  const size_t k = 8 / sizeof(T);
  std::vector<T> b(n * k + 2, (T)0x5A5A5A5A5A5A5A5Aull);
  generate_random(std::span<T>(b.data() + 1, n * k));
  std::string s = "[";
  while (a.more()) {
    size_t at = (size_t)a.num();
    uint64_t v = 0;
    for (size_t j = 0; j < k; j++) v |= (uint64_t)b[1 + at * k + j] << (8 * sizeof(T) * j);
    if (s.size() > 1) s += ',';
    s += "{\"at\":" + std::to_string(at) + ",\"b\":" + Ev::arr(le(v)) + "}";
  }
  e.raw("w", s + "]").flag("intact", b[0] == (T)0x5A5A5A5A5A5A5A5Aull && b.back() == b[0]);
}
void install(Ops& ops) {
  ops["Long"] = [](Args& a, Ev& e) {
    int bits = a.num(); size_t n = a.num(); e.num("bits", bits).num("n", n);
    switch (bits) {
      case 8: longfill<uint8_t>(n, a, e); break; case 16: longfill<uint16_t>(n, a, e); break;
      case 32: longfill<uint32_t>(n, a, e); break; case 64: longfill<uint64_t>(n, a, e); break;
      default: {
        std::string s = "[";
        size_t done = 0;
        while (a.more()) {      // positions ascend
          size_t at = (size_t)a.num();
          while (done < at) { generate_random_value(); done++; }
          if (s.size() > 1) s += ',';
          s += "{\"at\":" + std::to_string(at) + ",\"b\":" + Ev::arr(le(generate_random_value())) + "}";
          done++;
        }
        while (done < n) { generate_random_value(); done++; }
        e.raw("w", s + "]").flag("intact", true);
      }
    }
  };
  ops["Inject"] = [](Args& a, Ev& e) { std::vector<uint64_t> v; while (a.more()) v.push_back(a.u64()); e.raw("in", list(v)); testValues = v; };
  ops["Draw"] = [](Args& a, Ev& e) { int n = a.num(); std::vector<uint64_t> v; for (int i = 0; i < n; i++) v.push_back(generate_random_value()); e.num("n", n).raw("out", list(v)); };
  ops["Fill"] = [](Args& a, Ev& e) { int bits = a.num(); size_t n = a.num(); e.num("bits", bits).num("n", n);
    switch (bits) { case 8: fill<uint8_t>(n, e); break; case 16: fill<uint16_t>(n, e); break; case 32: fill<uint32_t>(n, e); break; default: fill<uint64_t>(n, e); } };
  // Threads <threads> <draws each> <bits>: bits 0 draws one by one, else fills of that element size
  ops["Threads"] = [](Args& a, Ev& e) {
    int t = a.num(); size_t n = a.num(); int bits = a.num();
    std::vector<std::vector<uint64_t>> got(t);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int i = 0; i < t; i++) th.emplace_back([&, i] {
      std::vector<uint64_t> v; v.reserve(n);
      ready++; while (ready < t) std::this_thread::yield();
      if (bits == 0) for (size_t k = 0; k < n; k++) v.push_back(generate_random_value());
      else while (v.size() < n) {
        size_t w = std::min<size_t>(3, n - v.size());
        auto o = bits == 8 ? block<uint8_t>(w) : bits == 16 ? block<uint16_t>(w) : bits == 32 ? block<uint32_t>(w) : block<uint64_t>(w);
        v.insert(v.end(), o.begin(), o.end());
      }
      got[i] = v;
    });
    for (auto& x : th) x.join();
    std::string s = "["; for (int i = 0; i < t; i++) { if (i) s += ','; s += list(got[i]); }
    e.num("threads", t).num("n", n).raw("out", s + "]");
  };
}
}
VH_MAIN(random, 60)
