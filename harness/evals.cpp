// Evaluates named quantities of the library at groups of related parameter points.
// usage: evals IN OUT
// IN: "kind|name|about (json)|OBJECT!set KEY VAL!...!OP@point|..."   (objects, settings and operations: see ops.hpp)
#include "ops.hpp"
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
// the fixed-order class expects a completed parameter point
std::shared_ptr<Any> object(const std::string& kind, const std::string& point)
{
   Parameters p = parse(point);
   if (kind.compare(0, 2, "fo") == 0 || kind == "eft") p.validate(false);
   return std::make_shared<Any>(kind, p);
}
}
int main(int argc, char** argv)
{
   if (argc < 3) return 77;
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line, last;
   std::map<std::string, std::shared_ptr<Any>> cache; // objects of the current point: calculations do not change them (C01)
   while (std::getline(in, line)) {
      if (line.empty()) continue;
      const auto p = parts(line, '|');
      std::vector<std::string> calls;
      for (std::size_t i = 3; i < p.size(); i++) {
         const auto a = parts(p[i], '@');
         const auto c = parts(a.at(0), '!');
         if (a.at(1) != last) { cache.clear(); last = a.at(1); }
         std::string ex;
         std::vector<double> v;
         try {
            std::shared_ptr<Any> o;
            if (c.size() > 2) o = object(c[0], a[1]);
            else { auto& x = cache[c[0]]; if (!x) x = object(c[0], a[1]); o = x; }
            for (std::size_t k = 1; k + 1 < c.size(); k++) {
               const auto w = words(c[k]);
               o->set(w.at(0) == "flag" ? w.at(1) : w.at(0), w.back());
            }
            v = o->eval(c.back());
         } catch (const std::logic_error& e) {
            if (std::string(e.what()).compare(0, 8, "harness:") == 0) { std::fprintf(stderr, "%s\n", e.what()); return 77; }
            ex = e.what();
         } catch (const std::exception& e) {
            ex = e.what();
         }
         Obj q;
         const auto w = words(a[1]);
         for (std::size_t k = 0; k + 1 < w.size(); k += 2) q.raw(w[k], num(std::strtod(w[k + 1].c_str(), nullptr)));
         calls.push_back(Obj().t("o", a[0]).t("x", ex).raw("p", q.done()).v("v", v).done());
      }
      out << Obj().t("event", "Group").t("kind", p[0]).t("name", p[1]).raw("about", p[2]).raw("calls", arr(calls)).done() << "\n";
   }
}
