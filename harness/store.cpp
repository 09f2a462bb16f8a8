// Records sessions with result objects (see spec/StoreTrace.tla).
// usage: store IN OUT   IN: "new o t|b", "w o q n v...", "c from to a|c", "p o q n"
#include "ops.hpp"
#include <cstring>
using namespace h;
using HO = HierarchyObject;
namespace {
Eigen::Matrix2d M(const std::vector<double>& v) { Eigen::Matrix2d m; m << v[0], v[1], v[2], v[3]; return m; }
using Setter = std::function<void(HO&, int, const std::vector<double>&)>;
using Getter = std::function<std::vector<double>(const HO&, int)>;
std::vector<double> L(const Eigen::Matrix2d& m) { return {m(0, 0), m(0, 1), m(1, 0), m(1, 1)}; }
struct Qy { const char* name; int lo, hi; bool perloop; Setter set; Getter get; };
#define PL(N, LO, SET, GET) {N, LO, 3, true, [](HO& o, int n, const std::vector<double>& v) { o.SET(n, v[0]); }, [](const HO& o, int n) { return std::vector<double>{o.GET(n)}; }}
#define SG(N, SET, GET) {N, 0, 0, false, [](HO& o, int, const std::vector<double>& v) { o.SET(v[0]); }, [](const HO& o, int) { return std::vector<double>{double(o.GET())}; }}
const std::vector<Qy> Q = {
   {"DMh", 0, 3, true, [](HO& o, int n, const std::vector<double>& v) { o.setDMh(n, M(v)); }, [](const HO& o, int n) { return L(o.getDMh(n)); }},
   PL("DMh2", 0, setDMh2, getDMh2), PL("ExpUnc", 1, setDMhExpUncertainty, getDMhExpUncertainty), PL("DLambda", 0, setDLambda, getDLambda),
   PL("DLambdaShift", 0, setDLambdaDRbarPrimeToMSbarShift, getDLambdaDRbarPrimeToMSbarShift), PL("EFT", 0, setDMh2EFT, getDMh2EFTAt),
   PL("FO", 0, setDMh2FO, getDMh2FO), PL("FOAt", 0, setDMh2FOAt, getDMh2FOAt),
   SG("Hierarchy", setSuitableHierarchy, getSuitableHierarchy), SG("AbsDiff", setAbsDiff2L, getAbsDiff2L), SG("RelDiff", setRelDiff2L, getRelDiff2L),
   {"MDRShift", 0, 0, false, [](HO& o, int, const std::vector<double>& v) { o.setDMhDRbarPrimeToMDRbarPrimeShift(M(v)); }, [](const HO& o, int) { return L(o.getDMhDRbarPrimeToMDRbarPrimeShift()); }},
   {"H3mShift", 0, 0, false, [](HO& o, int, const std::vector<double>& v) { o.setDMhDRbarPrimeToH3mShift(M(v)); }, [](const HO& o, int) { return L(o.getDMhDRbarPrimeToH3mShift()); }},
   {"MDRMasses", 0, 0, false, [](HO& o, int, const std::vector<double>& v) { o.setMDRMasses(Eigen::Vector2d(v[0], v[1])); }, [](const HO& o, int) { auto m = o.getMDRMasses(); return std::vector<double>{m(0), m(1)}; }},
   SG("LambdaH3m", setDLambdaH3m, getDLambdaH3m), SG("LambdaEFT", setDLambdaEFT, getDLambdaEFT), SG("LambdaNonLog", setDLambdaNonLog, getDLambdaNonLog),
   {"XtUnc", 0, 0, false, [](HO& o, int, const std::vector<double>& v) { o.setDLambdaXtUncertainty(v[0]); }, nullptr},
   SG("MDRFlag", setMDRFlag, getMDRFlag), SG("Scheme", setRenormalizationScheme, getRenormalizationScheme)};
const Qy& q(const std::string& n) { for (auto& x : Q) if (n == x.name) return x; std::_Exit(77); }
std::string now(const HO& o)
{
   std::vector<std::string> v;
   for (auto& x : Q) if (x.get) for (int n = x.lo; n <= x.hi; n++)
      v.push_back("[" + str(x.name) + "," + std::to_string(n) + "," + Obj::vec(x.get(o, n)) + "]");
   return arr(v);
}
// the printed report: per line the numbers after '=' and after '+/-'
void report(Obj& j, const HO& o)
{
   std::ostringstream os;
   os << o;
   std::istringstream is(os.str());
   std::string l, scheme, hname;
   long hier = -99;
   bool bot = false;
   std::vector<std::string> lines;
   auto nums = [](std::string s) {
      std::vector<double> v;
      for (;;) {
         while (!s.empty() && std::strchr(" {},", s[0])) s.erase(0, 1);
         if (s.compare(0, 3, "+/-") == 0) { s.erase(0, 3); continue; }
         char* e;
         const double d = std::strtod(s.c_str(), &e);
         if (e == s.c_str()) return v;
         v.push_back(d);
         s = e;
      }
   };
   while (std::getline(is, l)) {
      const auto p = l.find('=');
      if (p == std::string::npos || p == 0) continue;
      std::string r = l.substr(p + 1);
      while (!r.empty() && r[0] == ' ') r.erase(0, 1);
      if (lines.empty()) { scheme = r; lines.push_back("[]"); continue; }
      if (lines.size() == 1) {
         hier = std::atol(r.c_str());
         const auto a = r.find('('), b = r.rfind(')');
         if (a != std::string::npos && b != std::string::npos) hname = r.substr(a + 1, b - a - 1);
         lines.push_back("[]");
         continue;
      }
      if (l.compare(0, 9, "Msbottom_") == 0) bot = true;
      lines.push_back(Obj::vec(nums(r)));
   }
   j.t("scheme", scheme).i("hier", hier).t("hname", hname).b("sbottoms", bot).raw("report", arr(lines));
}
void state(Obj& j, const HO& o)
{
   std::vector<double> u;
   std::vector<std::string> names;
   for (int i = 0; i <= 3; i++) u.push_back(o.getDLambdaUncertainty(i));
   for (int i = 0; i < 14; i++) names.push_back(str(o.getH3mHierarchyNotation(i)));
   j.raw("now", now(o)).b("ab", o.getIsAlphab()).v("unc", u).raw("notation", arr(names));
   report(j, o);
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   std::map<int, std::shared_ptr<HO>> o;
   while (std::getline(in, line)) {
      const Words w = words(line);
      Obj j;
      int me;
      if (w[0] == "new") {
         me = I(w, 1);
         o[me] = std::make_shared<HO>(w[2] == "b");
         j.t("event", "New").i("o", me).b("b", w[2] == "b");
      } else if (w[0] == "w") {
         me = I(w, 1);
         std::vector<double> v;
         for (std::size_t i = 4; i < w.size(); i++) v.push_back(w[i] == "nan" ? NAN : w[i] == "inf" ? INFINITY : w[i] == "-inf" ? -INFINITY : std::strtod((w[i]).c_str(), nullptr));
         bool ok = true;
         const bool flag = w[2] == "MDRFlag" || w[2] == "Scheme";
         try { q(w[2]).set(*o[me], I(w, 3), v); } catch (const std::exception&) { ok = false; }
         j.t("event", "Write").i("o", me).t("q", w[2]).i("n", I(w, 3)).v("val", v).i("int", flag ? long(v[0]) : 0).b("ok", ok);
      } else if (w[0] == "c") {
         me = I(w, 2);
         if (w[3] == "a" && o.count(me)) *o[me] = *o[I(w, 1)];
         else o[me] = std::make_shared<HO>(*o[I(w, 1)]);
         j.t("event", "Copy").i("o", me).i("from", I(w, 1));
      } else {
         me = I(w, 1);
         bool ok = true;
         try { if (w[2] == "Unc") o[me]->getDLambdaUncertainty(I(w, 3)); else q(w[2]).get(*o[me], I(w, 3)); } catch (const std::exception&) { ok = false; }
         j.t("event", "Probe").i("o", me).t("q", w[2]).i("n", I(w, 3)).b("ok", ok);
      }
      state(j, *o[me]);
      std::vector<std::string> others;
      for (auto& x : o) if (x.first != me) others.push_back("[" + std::to_string(x.first) + "," + now(*x.second) + "]");
      j.raw("others", arr(others));
      out << j.done() << "\n";
   }
}
