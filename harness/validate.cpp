// Records validations of parameter points (see spec/ValidationTrace.tla).
// usage: validate IN OUT    IN: "V|ok,rejected or any|point" "Q|seed|point" "E||point" "W||point"
#include "ops.hpp"
#include <random>
using namespace h;
namespace {
Words parts(const std::string& s) { Words w; std::istringstream is(s); std::string x; while (std::getline(is, x, '|')) w.push_back(x); return w; }
std::string dump(const Parameters& p)
{
   Obj o;
   std::string last, acc;
   for (auto& s : slots(const_cast<Parameters&>(p))) {
      const auto dot = s.first.find('.');
      const std::string n = s.first.substr(0, dot);
      if (n != last && !last.empty() && !acc.empty()) { o.raw(last, acc + "]"); acc.clear(); }
      if (dot == std::string::npos) o.f(n, *s.second);
      else acc += (acc.empty() ? "[" : ",") + num(*s.second);
      last = n;
   }
   if (!acc.empty()) o.raw(last, acc + "]");
   return o.done();
}
bool val(Parameters& p) { try { p.validate(false); return true; } catch (const std::exception&) { return false; } }
template <class F> bool makes(F f) { try { f(); return true; } catch (const std::exception&) { return false; } }
const double Pi_ = 3.14159265358979323846;
void values(const Parameters& p, std::vector<double>& v, std::vector<double>& size, std::vector<std::string>& names)
{
   auto put = [&](const std::string& n, double x, double s) { v.push_back(x); size.push_back(std::abs(s)); names.push_back(str(n)); };
   HierarchyCalculator hc(p, false);
   try {
      auto ho = hc.calculateDMh3L(false);
      put("hierarchy", ho.getSuitableHierarchy(), 1);
      for (int i = 0; i <= 3; i++) {
         auto m = ho.getDMh(i);
         for (int j = 0; j < 4; j++) put("DMh" + std::to_string(i), m(j / 2, j % 2), m.norm());
         put("DMh2_" + std::to_string(i), ho.getDMh2(i), m.norm());
         put("DMh2FO" + std::to_string(i), ho.getDMh2FO(i), m.norm());
         put("DMh2EFT" + std::to_string(i), ho.getDMh2EFTAt(i), m.norm());
      }
      put("MDRMass", ho.getMDRMasses()(0), 1);
   } catch (const std::exception& e) { put("calculateDMh3L fails", -1, 1); }
   mh2_eft::Mh2EFTCalculator eft(p, false);
   put("eft0", eft.getDeltaMh2EFT0Loop(), 1);
   put("eft1", eft.getDeltaMh2EFT1Loop(1, 1), 100);
   put("eft2", eft.getDeltaMh2EFT2Loop(1, 1), 100);
   put("eft3", eft.getDeltaMh2EFT3Loop(1, 1, 0), 100);
   mh2_eft::ThresholdCalculator thr(p, false, true);
   using T = mh2_eft::ThresholdCouplingOrders;
   const std::pair<const char*, T> orders[] = {{"G3_AS", T::G3_AS}, {"YT_AS", T::YT_AS}, {"YT_AS2", T::YT_AS2}, {"LAMBDA_AT", T::LAMBDA_AT},
      {"LAMBDA_AT_AS", T::LAMBDA_AT_AS}, {"LAMBDA_AT_AS2", T::LAMBDA_AT_AS2}, {"LAMBDA_YT6", T::LAMBDA_YT6}};
   for (auto& o : orders) { const double x = thr.getThresholdCorrection(o.second, mh2_eft::RenSchemes::DRBARPRIME, 1); put(o.first, x, 1); }
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      const Words w = parts(line);
      const Parameters p = parse(w[2]);
      Parameters y = p;
      const bool ok = val(y);
      if (w[0] == "V") {
         Parameters z = y;
         const bool ok2 = ok && val(z);
         out << Obj().t("event", "Validate").t("expect", w[1]).raw("in", dump(p)).b("ok", ok).raw("out", ok ? dump(y) : "\"\"").b("okAgain", ok2).raw("again", ok2 ? dump(z) : "\"\"").done() << "\n";
      } else if (w[0] == "Q") {
         if (!ok) continue;
         std::mt19937 r(std::stoul(w[1]));
         Parameters q = p;
         auto put = [&](double& x, double v) { if (r() % 2) x = v; };
         put(q.MW, y.MW); put(q.MZ, y.MZ); put(q.Mt, y.Mt); put(q.Mb, y.Mb); put(q.Mtau, y.Mtau);
         if (r() % 2) { q.Yu = y.Yu; q.Yd = y.Yd; q.Ye = y.Ye; }
         auto sector = [&](V2& M, double& th, double& s2, const V2& m, double t, double s) {
            switch (r() % 6) {
            case 0: break; // as it was
            case 1: M = m; th = t; s2 = s; break;
            case 2: M = m; th = t; s2 = NAN; break;
            case 3: if (std::abs(std::remainder(t, Pi_)) < Pi_ / 4 * .999) { M = m; th = NAN; s2 = s; } break;
            case 4: if (!(m(0) < m(1))) break;
                    M << m(1), m(0); th = t - Pi_ / 2; s2 = r() % 2 ? -s : NAN; break;
            case 5: M = m; th = t + Pi_; s2 = s; break;
            }
         };
         sector(q.MSt, q.theta_t, q.s2t, y.MSt, y.theta_t, y.s2t);
         sector(q.MSb, q.theta_b, q.s2b, y.MSb, y.theta_b, y.s2b);
         sector(q.MStau, q.theta_tau, q.s2tau, y.MStau, y.theta_tau, y.s2tau);
         const bool ok2 = val(q);
         out << Obj().t("event", "Equiv").raw("out", dump(y)).b("ok", ok2).raw("out2", ok2 ? dump(q) : "\"\"").done() << "\n";
      } else if (w[0] == "E") {
         Parameters c = p;
         std::vector<std::string> l;
         auto add = [&](const char* n, bool k) { l.push_back(std::string("[\"") + n + "\"," + (k ? "true]" : "false]")); };
         add("HierarchyCalculator", makes([&] { HierarchyCalculator x(c, false); }));
         add("Mh2EFTCalculator", makes([&] { mh2_eft::Mh2EFTCalculator x(c, false); }));
         add("ThresholdCalculator", makes([&] { mh2_eft::ThresholdCalculator x(c, false, false); }));
         add("ThresholdCalculator(check)", makes([&] { mh2_eft::ThresholdCalculator x(c, false, true); }));
         out << Obj().t("event", "Entry").raw("in", dump(p)).b("ok", ok).raw("out", ok ? dump(y) : "\"\"").raw("ctors", arr(l)).b("keep", same(c, p)).done() << "\n";
      } else if (w[0] == "W") {
         if (!ok) continue;
         std::vector<double> a, b, s, s2;
         std::vector<std::string> n, n2;
         values(p, a, s2, n2);
         values(y, b, s, n);
         if (a.size() != b.size()) { a.assign(1, 0); b.assign(1, 1); s.assign(1, 0); n.assign(1, str("different outcome")); }
         out << Obj().t("event", "Value").raw("names", arr(n)).v("raw", a).v("full", b).v("size", s).done() << "\n";
      }
   }
}
