// Evaluates the two-loop fixed-order corrections in groups of related arguments (see spec/DispatchTrace.tla).
// usage: twoloop IN OUT
// IN: "kind|name|json|f arg arg ...|f arg arg ...|..."     f: as, abs (bottom data), at, tau, bt;  json: what the group is about
#include "ops.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
Eigen::Matrix2d call(const std::string& f, const std::vector<double>& a)
{
   using namespace himalaya::mh2l;
   const auto n = a.size();
   auto I = [&](int i) { return static_cast<int>(a[i]); };
   if (f == "as" && n == 12) return delta_mh2_2loop_at_as(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], I(11));
   if (f == "abs" && n == 12) return delta_mh2_2loop_ab_as(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], I(11));
   if (f == "at" && n == 17) return delta_mh2_2loop_at_at(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], I(15), I(16));
   if (f == "tau" && n == 12) return delta_mh2_2loop_atau_atau(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], I(11));
   if (f == "bt" && n == 15) return delta_mh2_2loop_ab_atau(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], I(14));
   std::exit(77);
}
}
int main(int argc, char** argv)
{
   if (argc < 3) return 77;
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      if (line.empty()) continue;
      const auto p = parts(line, '|');
      std::vector<std::string> calls;
      for (std::size_t i = 3; i < p.size(); i++) {
         auto w = words(p[i]);
         std::vector<double> a;
         for (std::size_t k = 1; k < w.size(); k++) a.push_back(std::strtod(w[k].c_str(), nullptr));
         const Eigen::Matrix2d m = call(w[0], a);
         calls.push_back(Obj().t("f", w[0]).v("a", a).m("m", m).done());
      }
      out << Obj().t("event", "Group").t("kind", p[0]).t("name", p[1]).raw("about", p[2]).raw("calls", arr(calls)).done() << "\n";
   }
}
