// Runs the same operations alone and in several threads; records entries into the Fortran routines and results
// (see spec/ThreadsTrace.tla).  Link with --wrap for each routine.
// usage: threads IN OUT THREADS ROUNDS DELAY SEED
// IN: "<kind> ; <op> [; key val ...] # <point>"
// environment MONITORED: nothing is recorded (no synchronisation is added by the recorder)
#include "ops.hpp"
#include <atomic>
#include <random>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace h;
namespace {
struct Event { long n; int t; const char* r; bool in; };
std::atomic<long> counter{0};
std::atomic<bool> go{false};
bool monitored = false, alone = false;
long delay_us = 0;
thread_local std::vector<Event>* log_ = nullptr;
thread_local int me = 0;
thread_local std::minstd_rand* rnd = nullptr;
struct Section {
   const char* r;
   explicit Section(const char* n) : r(n)
   {
      if (monitored || !log_) return;
      log_->push_back({counter++, me, r, true});
      if (delay_us > 0 && rnd) { const auto x = (*rnd)() % 4; if (x == 0) ::usleep(delay_us); else if (x == 1) std::this_thread::yield(); }
   }
   ~Section() { if (!monitored && log_) log_->push_back({counter++, me, r, false}); }
};
}
#define P void*
#define ARGS P a1, P a2, P a3, P a4, P a5, P a6, P a7, P a8, P a9, P a10, P a11, P a12, P a13, P a14, P a15, P a16, P a17, P a18, P a19, P a20, P a21, P a22
#define PASS a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22
#define WRAP(F) extern "C" __attribute__((weak)) int __real_##F(ARGS); extern "C" __attribute__((no_sanitize("thread"))) int __wrap_##F(ARGS) { Section s(#F); return __real_##F(PASS); }
WRAP(dszhiggs_) WRAP(dszodd_) WRAP(ddshiggs_) WRAP(ddsodd_) WRAP(tausqhiggs_) WRAP(tausqodd_) WRAP(taubot_) WRAP(taubotodd_)
namespace {
struct Job { std::string kind, op, point; std::vector<std::pair<std::string, std::string>> sets; };
std::string trim(std::string s) { while (!s.empty() && s.front() == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
std::string perform(const Job& j)
{
   try {
      if (j.kind == "verbose") { HierarchyCalculator c(parse(j.point), true); return "constructed"; }
      Any a(j.kind, parse(j.point));
      for (auto& s : j.sets) a.set(s.first, s.second);
      return a.run(j.op);
   } catch (const std::exception& e) { return std::string("error ") + e.what(); }
}
}
int main(int, char** argv)
{
   monitored = std::getenv("MONITORED");
   const int n = std::atoi(argv[3]), rounds = std::atoi(argv[4]);
   delay_us = std::atol(argv[5]);
   const unsigned seed = std::atol(argv[6]);
   std::vector<Job> jobs;
   {
      std::ifstream in(argv[1]);
      std::string line;
      while (std::getline(in, line)) {
         Job j;
         const auto h = line.find('#');
         j.point = line.substr(h + 1);
         std::istringstream is(line.substr(0, h));
         std::string f;
         for (int k = 0; std::getline(is, f, ';'); k++) {
            f = trim(f);
            if (k == 0) j.kind = f;
            else if (k == 1) j.op = f;
            else { const auto s = f.rfind(' '); j.sets.emplace_back(f.substr(0, s), f.substr(s + 1)); }
         }
         jobs.push_back(j);
      }
   }
   std::ofstream out(argv[2]);
   if (!std::freopen("/dev/null", "w", stderr)) return 77;
   // alone: a process with a single thread
   std::vector<std::string> ref(jobs.size());
   if (!monitored) {
      int fd[2];
      if (pipe(fd)) return 77;
      const pid_t pid = fork();
      if (pid < 0) return 77;
      if (pid == 0) {
         close(fd[0]);
         std::string all;
         for (auto& j : jobs) { std::string r = perform(j); for (auto& c : r) if (c == '\n') c = ' '; all += r + "\n"; }
         for (std::size_t k = 0; k < all.size();) { const auto w = write(fd[1], all.data() + k, all.size() - k); if (w <= 0) _exit(1); k += w; }
         _exit(0);
      }
      close(fd[1]);
      std::string all;
      char b[4096];
      for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) all.append(b, k);
      int st = 0;
      waitpid(pid, &st, 0);
      if (st != 0) return 3;
      std::istringstream is(all);
      for (auto& r : ref) std::getline(is, r);
   }
   std::vector<std::vector<Event>> logs(n);
   std::vector<std::vector<std::pair<int, std::string>>> got(n);
   std::vector<std::thread> ts;
   for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
      me = t + 1;
      std::minstd_rand r(seed * 1000 + t);
      rnd = &r;
      log_ = &logs[t];
      while (!go.load(std::memory_order_relaxed)) {}
      for (int k = 0; k < rounds; k++) for (std::size_t i = 0; i < jobs.size(); i++) {
         const std::size_t q = monitored ? (i + t * 3) % jobs.size() : (i * (2 * t + 1) + t * 7 + k) % jobs.size();
         std::string d = perform(jobs[q]);
         for (auto& c : d) if (c == '\n') c = ' ';
         if (!monitored) got[t].emplace_back(q, d);
      }
      rnd = nullptr;
      log_ = nullptr;
   });
   go.store(true, std::memory_order_relaxed);
   for (auto& t : ts) t.join();
   std::vector<Event> ev;
   for (auto& l : logs) ev.insert(ev.end(), l.begin(), l.end());
   std::sort(ev.begin(), ev.end(), [](const Event& a, const Event& b) { return a.n < b.n; });
   for (auto& e : ev) { Obj j; j.t("event", e.in ? "Enter" : "Leave").i("t", e.t).t("r", e.r); out << j.done() << "\n"; }
   for (int t = 0; t < n; t++) for (auto& g : got[t]) {
      Obj j;
      j.t("event", "Done").i("t", t + 1).t("op", jobs[g.first].kind + " " + jobs[g.first].op).t("got", g.second).t("alone", ref[g.first]);
      out << j.done() << "\n";
   }
}
