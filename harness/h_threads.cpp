// Independent objects used by independent threads.  A command is
//   <thread> <module> <op> <args>
// All threads of a trace start together; each runs its own commands on its own objects.
// Every event carries its thread and module.
#include "vh.h"
#include <atomic>
#include <thread>
using namespace vh;
#define MODULES(F) F(base64) F(calc) F(cipher) F(field) F(hash) F(kdf) F(mont) F(rsa) F(x509)
#define D(n) void install_##n(vh::Ops&);
MODULES(D)
#undef D

int main(int argc, char** argv) {
  std::map<std::string, Ops> all;
#define D(n) install_##n(all[#n]);
  MODULES(D)
#undef D
  all["prime"] = all["mont"];
  vh::prepare = nullptr;
  out_fd = dup(1); dup2(2, 1);
  std::ifstream in(argv[1]);
  std::vector<std::pair<int, std::vector<std::string>>> traces;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'T' && line[1] == ' ') traces.push_back({atoi(line.c_str() + 2), {}});
    else traces.back().second.push_back(line);
  }
  for (auto& [tid, cmds] : traces) {
    pid_t pid = fork();
    if (pid < 0) return 96;
    if (pid == 0) {
      alarm(getenv("VH_LIMIT") ? atoi(getenv("VH_LIMIT")) : 300);
      std::map<int, std::vector<std::pair<std::string, std::string>>> work;      // thread -> (module, command)
      for (auto& c : cmds) {
        std::istringstream is(c); int t; std::string m, rest; is >> t >> m; std::getline(is, rest);
        if (!all.count(m)) _exit(99);
        work[t].push_back({m, rest});
      }
      std::map<int, std::string> log;
      for (auto& w : work) log[w.first];
      std::atomic<size_t> ready{0};
      std::vector<std::thread> th;
      for (auto& w : work) th.emplace_back([&, t = w.first] {
        std::string& l = log.find(t)->second;
        ready++; while (ready < work.size()) std::this_thread::yield();
        for (auto& [m, c] : work.find(t)->second) {
          std::string o;
          run_trace(tid, {c}, all.find(m)->second, &o);
          o.insert(o.size() - 2, ",\"_th\":" + std::to_string(t) + ",\"_mod\":\"" + m + "\"");
          l += o;
        }
      });
      for (auto& x : th) x.join();
      for (auto& [t, l] : log) emit(l);
      _exit(0);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) return 95;
    int s = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 1000 + WEXITSTATUS(st) : 0;
    if (s >= 1090 && s < 1100) return s - 1000;
    if (s) emit("{\"tid\":" + std::to_string(tid) + ",\"ev\":\"" + (s == SIGALRM ? "TIMEOUT" : s == 1066 ? "RACE" : "CRASH") + "\",\"sig\":" + std::to_string(s) + ",\"exc\":0,\"_th\":0,\"_mod\":\"any\"}\n");
    if (s == SIGALRM) return 0;
  }
  return 0;
}
