// Scenario interpreter shared by the harnesses.  A scenario file holds traces:
//   T <tid>
//   <op> <arg> ...
// Every trace runs in a forked child; every op appends one JSON event line to stdout.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

using Bytes = std::vector<uint8_t>;

struct Ev {
  std::string s;
  void key(const char* k) { s += ",\""; s += k; s += "\":"; }
  template <typename R>
  static std::string arr(const R& r) {
    std::string o = "[";
    bool first = true;
    for (auto v : r) { if (!first) o += ','; first = false; o += std::to_string((unsigned)(uint8_t)v); }
    return o + "]";
  }
  template <typename R>
  Ev& bytes(const char* k, const R& r) { key(k); s += arr(r); return *this; }
  Ev& num(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  Ev& flag(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  Ev& str(const char* k, const std::string& v) {
    key(k); s += '"';
    for (unsigned char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c < 32 || c > 126) s += '?'; else s += c; }
    s += '"'; return *this;
  }
  Ev& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
};

struct Args {
  std::vector<std::string> v;
  size_t n = 0;
  const std::string& next() {
    if (n >= v.size()) { fprintf(stderr, "missing argument for %s\n", v.empty() ? "?" : v[0].c_str()); _exit(99); }
    return v[n++];
  }
  bool more() const { return n < v.size(); }
  long long num() { return strtoll(next().c_str(), nullptr, 10); }
  uint64_t u64() { return strtoull(next().c_str(), nullptr, 10); }
  Bytes bytes() {
    const std::string& h = next();
    Bytes r;
    if (h == "-") return r;
    auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    r.reserve(h.size() / 2);
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(uint8_t(d(h[i]) * 16 + d(h[i + 1])));
    return r;
  }
  std::string text() { Bytes b = bytes(); return std::string(b.begin(), b.end()); }
};

// A copy of the bytes that ends where its heap block ends, so that sanitizers see every overrun,
// and starts at ever other alignments.
// Traces with an odd number reuse the memory of earlier inputs of the same length, so that consecutive inputs often share
// an address; the others get fresh memory at every alignment.
inline thread_local int trace_id = 0;
struct Exact {
  size_t n, off;
  bool reuse;
  std::unique_ptr<uint8_t[]> p;
  static size_t shift() { static thread_local unsigned k = 0; return (k++ * 7) % 16; }
  static auto& pool() { static thread_local std::map<size_t, std::vector<std::unique_ptr<uint8_t[]>>> m; return m; }
  explicit Exact(const Bytes& b) : n(b.size()), off(trace_id % 2 ? trace_id / 2 % 16 : shift()), reuse(trace_id % 2 && n < 5000) {
    auto& free = pool()[reuse ? n + off : 0];
    if (reuse && !free.empty()) { p = std::move(free.back()); free.pop_back(); }
    else p.reset(new uint8_t[n + off]);
    if (n) memcpy(p.get() + off, b.data(), n);
  }
  Exact(const Exact&) = delete;
  ~Exact() { if (reuse) pool()[n + off].push_back(std::move(p)); }
  std::span<const uint8_t> span() const { return {p.get() + off, n}; }
  std::string_view sv() const { return {(const char*)p.get() + off, n}; }
};

using Op = std::function<void(Args&, Ev&)>;
using Ops = std::map<std::string, Op>;

// Events go to a copy of stdout; stdout itself becomes stderr, so that what the library prints does not mix with them.
inline int out_fd = 1;
inline std::function<void(const std::string&)> prepare;

inline void emit(const std::string& line) {
  size_t o = 0;
  while (o < line.size()) {
    ssize_t w = write(out_fd, line.data() + o, line.size() - o);
    if (w <= 0) _exit(98);
    o += (size_t)w;
  }
}

inline void run_trace(int tid, const std::vector<std::string>& cmds, Ops& ops, std::string* log = nullptr) {
  trace_id = tid;
  for (auto& c : cmds) {
    Args a;
    std::istringstream is(c);
    std::string w;
    while (is >> w) a.v.push_back(w);
    a.n = 1;
    auto it = ops.find(a.v[0]);
    if (it == ops.end()) { fprintf(stderr, "unknown op %s\n", a.v[0].c_str()); _exit(99); }
    Ev e;
    e.s = "{\"tid\":" + std::to_string(tid) + ",\"ev\":\"" + a.v[0] + "\"";
    int exc = 0;
    std::string what;
    try { it->second(a, e); }
    catch (const std::exception& x) { exc = 1; what = x.what(); }
    catch (...) { exc = 2; }
    e.num("exc", exc);
    e.s += "}\n";
    if (log) *log += e.s; else emit(e.s);
  }
}

inline int main(int argc, char** argv, Ops& ops, unsigned limit_s = 60) {
  if (argc < 2) return 97;
  if (const char* l = getenv("VH_LIMIT")) limit_s = std::min(limit_s, (unsigned)atoi(l));
  out_fd = dup(1); dup2(2, 1);
  if (argc > 2 && prepare) prepare(argv[2]);
  std::ifstream in(argv[1]);
  if (!in) return 97;
  std::vector<std::pair<int, std::vector<std::string>>> traces;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'T' && line[1] == ' ') traces.push_back({atoi(line.c_str() + 2), {}});
    else traces.back().second.push_back(line);
  }
  for (auto& [tid, cmds] : traces) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 96;
    if (pid == 0) {
      alarm(limit_s);
      run_trace(tid, cmds, ops);
      _exit(0);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) return 95;
    if (WIFSIGNALED(st)) {
      emit("{\"tid\":" + std::to_string(tid) + ",\"ev\":\"" + (WTERMSIG(st) == SIGALRM ? "TIMEOUT" : "CRASH") +
           "\",\"sig\":" + std::to_string(WTERMSIG(st)) + ",\"exc\":0}\n");
      if (WTERMSIG(st) == SIGALRM) return 0;      // one hang is enough: the rest is left out
    } else if (WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) < 100) {
      return WEXITSTATUS(st);
    } else if (WEXITSTATUS(st) != 0) {
      emit("{\"tid\":" + std::to_string(tid) + ",\"ev\":\"CRASH\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + ",\"exc\":0}\n");
    }
  }
  return 0;
}

}

// Every harness defines install(Ops&); alone it is a program, with VH_LIB a part of one.
#ifdef VH_LIB
#define VH_MAIN(name, limit) void install_##name(vh::Ops& ops) { install(ops); }
#else
#define VH_MAIN(name, limit) int main(int argc, char** argv) { vh::Ops ops; install(ops); return vh::main(argc, argv, ops, limit); }
#endif
