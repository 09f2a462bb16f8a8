// Records a session of many operations in one process together with the result
// of each operation in a process of its own (see spec/HistoryTrace.tla).
// usage: history IN OUT    IN: "P|id|point...", "N|o|kind|id", "C|o|from|a or c", "S|o|val|key", "O|o|op" ('*' before op: reuse the result object)
#include "ops.hpp"
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using namespace h;
using Cfg = std::map<std::string, std::string>;
namespace {
Words parts(const std::string& s) { Words w; std::istringstream is(s); std::string x; while (std::getline(is, x, '|')) w.push_back(x); return w; }
std::map<std::string, Parameters> pts;
std::string cfgs(const Cfg& c) { std::vector<std::string> v; for (auto& x : c) v.push_back("[" + str(x.first) + "," + str(x.second) + "]"); return arr(v); }
std::string construct(const std::string& kind, const std::string& pt, Any* out)
{
   try { Any a(kind, pts.at(pt)); if (out) *out = a; return "ok"; }
   catch (const std::exception& e) { return std::string("exception ") + e.what(); }
}
std::string fresh(const std::string& kind, const std::string& op, const std::string& pt, const Cfg& cfg)
{
   int fd[2];
   if (pipe(fd)) std::_Exit(77);
   const pid_t pid = fork();
   if (pid < 0) std::_Exit(77);
   if (!pid) {
      close(fd[0]);
      std::string r;
      if (op == "new") r = construct(kind, pt, nullptr);
      else { Any a; construct(kind, pt, &a); for (auto& c : cfg) a.set(c.first, c.second); r = a.run(op); }
      if (write(fd[1], r.data(), r.size()) < 0) std::_Exit(77);
      std::_Exit(0);
   }
   close(fd[1]);
   std::string r;
   char b[4096];
   ssize_t n;
   while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
   close(fd[0]);
   int st;
   waitpid(pid, &st, 0);
   if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 77) std::_Exit(77); return "died " + std::to_string(st); }
   return r;
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::vector<std::string> lines;
   std::string line;
   while (std::getline(in, line)) lines.push_back(line);
   struct O { std::string kind, pt; Cfg cfg; bool live; };
   std::set<std::string> seen;
   // the baselines, before this process has done anything
   {
      std::map<int, O> o;
      std::map<std::string, std::string> made;
      auto base = [&](const std::string& kind, const std::string& op, const std::string& pt, const Cfg& cfg) {
         const std::string key = kind + "|" + op + "|" + pt + "|" + cfgs(cfg);
         if (!seen.insert(key).second) return std::string(made[key]);
         const auto d = made[key] = fresh(kind, op, pt, cfg);
         out << Obj().t("event", "Base").t("kind", kind).t("op", op).t("pt", pt).raw("cfg", cfgs(cfg)).t("dig", d).done() << "\n";
         return d;
      };
      for (auto& l : lines) {
         const Words w = parts(l);
         if (w[0] == "P") pts[w[1]] = parse(w[2]);
         else if (w[0] == "N") o[I(w, 1)] = {w[2], w[3], {}, base(w[2], "new", w[3], {}) == "ok"};
         else if (w[0] == "C") { if (o[I(w, 2)].live) o[I(w, 1)] = o[I(w, 2)]; }
         else if (w[0] == "S") o[I(w, 1)].cfg[w[3]] = w[2];
         else if (w[0] == "O") {
            const O& x = o[I(w, 1)];
            std::string op = w[2];
            if (op[0] == '*') op = op.substr(1);
            if (x.live) base(x.kind, op, x.pt, x.cfg);
         }
      }
      out.flush();
   }
   std::map<int, Any> o;
   std::map<int, std::string> pt;
   HierarchyObject dirty(false);
   const auto orig = pts;
   for (auto& l : lines) {
      const Words w = parts(l);
      if (w[0] == "N") {
         Any a;
         const auto d = construct(w[2], w[3], &a);
         const bool ok = d == "ok";
         if (ok) { o[I(w, 1)] = a; pt[I(w, 1)] = w[3]; } else o.erase(I(w, 1));
         out << Obj().t("event", "New").i("o", I(w, 1)).t("kind", w[2]).t("pt", w[3]).b("ok", ok).t("dig", d).b("keep", same(pts[w[3]], orig.at(w[3]))).done() << "\n";
      } else if (w[0] == "C") {
         if (!o.count(I(w, 2))) continue;
         o[I(w, 1)] = o[I(w, 2)].clone(w[3] == "a", o.count(I(w, 1)) ? o[I(w, 1)] : Any());
         pt[I(w, 1)] = pt[I(w, 2)];
         out << Obj().t("event", "Copy").i("o", I(w, 1)).i("from", I(w, 2)).done() << "\n";
      } else if (w[0] == "S") {
         if (!o.count(I(w, 1))) continue;
         const auto key = w[3];
         o[I(w, 1)].set(key, w[2]);
         out << Obj().t("event", "Set").i("o", I(w, 1)).t("key", key).t("val", w[2]).done() << "\n";
      } else if (w[0] == "O") {
         if (!o.count(I(w, 1))) continue;
         std::string op = w[2];
         const bool reuse = op[0] == '*';
         if (reuse) op = op.substr(1);
         const auto d = o[I(w, 1)].run(op, reuse ? &dirty : nullptr);
         const auto& p = pt[I(w, 1)];
         out << Obj().t("event", "Op").i("o", I(w, 1)).t("op", op).t("dig", d).b("keep", same(pts[p], orig.at(p))).done() << "\n";
      }
   }
}
