// Evaluates threshold corrections along lines in parameter space (see spec/LimitsTrace.tla).
// usage: limits IN OUT
// IN: "line|name|scheme|order ...|t t ...|point@point@..."     (order: permutation in which the corrections are asked for again)
//     "swap|name|scheme|point@point"
//     "fn|name|tol|t t ...|x y..@x y.."
#include "ops.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
using T = mh2_eft::ThresholdCouplingOrders;
using R = mh2_eft::RenSchemes;
const int N = 45;
std::string dig(const std::vector<double>& v)
{
   Digest d;
   for (auto x : v) d.add(x);
   return d.hex();
}
std::vector<double> thresholds(const Parameters& p, R s, std::vector<int> order)
{
   std::vector<double> v(N);
   mh2_eft::ThresholdCalculator t(p, false);
   if (order.empty()) for (int i = 0; i < N; i++) v[i] = t.getThresholdCorrection(static_cast<T>(i), s, 1);
   for (int i : order) t.getThresholdCorrection(static_cast<T>(i), s, 1);
   for (int i : order) v.at(i) = t.getThresholdCorrection(static_cast<T>(i), s, 1);
   return v;
}
std::vector<double> masses(const Parameters& q)
{
   auto p = q;
   p.validate(false);
   return {std::sqrt(p.mq2(2, 2)), std::sqrt(p.mu2(2, 2)), std::sqrt(p.md2(2, 2)), std::sqrt(p.ml2(2, 2)), std::sqrt(p.me2(2, 2)), p.MG, std::sqrt(p.calculateMsq2())};
}
std::vector<double> reals(const std::string& s) { std::vector<double> r; for (auto& x : words(s)) r.push_back(std::strtod(x.c_str(), nullptr)); return r; }
double fn(const std::string& n, const std::vector<double>& x)
{
   using namespace mh2_eft::threshold_loop_functions;
   if (n == "F1") return F1(x[0]);
   if (n == "F2") return F2(x[0]);
   if (n == "F3") return F3(x[0]);
   if (n == "F4") return F4(x[0]);
   if (n == "F5") return F5(x[0]);
   if (n == "F6") return F6(x[0]);
   if (n == "F7") return F7(x[0]);
   if (n == "F8") return F8(x[0], x[1]);
   if (n == "F9") return F9(x[0], x[1]);
   if (n == "f") return f(x[0]);
   if (n == "g") return g(x[0]);
   if (n == "f1") return f1(x[0]);
   if (n == "f2") return f2(x[0]);
   if (n == "f3") return f3(x[0]);
   if (n == "f4") return f4(x[0]);
   if (n == "f5") return f5(x[0], x[1]);
   if (n == "f6") return f6(x[0], x[1]);
   if (n == "f7") return f7(x[0], x[1]);
   if (n == "f8") return f8(x[0], x[1]);
   if (n == "phi_xyz") return phi_xyz(x[0], x[1], x[2]);
   if (n == "delta_xyz") return delta_xyz(x[0], x[1], x[2]);
   throw std::logic_error("harness: function " + n);
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      const auto f = parts(line, '|');
      Obj j;
      if (f[0] == "line") {
         const auto t = reals(f[4]);
         const auto s = static_cast<R>(std::stoi(f[2]));
         std::vector<int> order;
         for (auto& x : words(f[3])) order.push_back(std::stoi(x));
         std::vector<std::string> v, d, a, m;
         double spread = 0;
         std::size_t i = 0;
         for (auto& x : parts(f[5], '@')) {
            const auto p = parse(x);
            const auto y = thresholds(p, s, {});
            v.push_back(Obj::vec(y));
            d.push_back(str(dig(y)));
            a.push_back(str(dig(thresholds(p, s, order))));
            const auto ms = masses(p);
            m.push_back(Obj::vec(ms));
            if (i < t.size() && t[i] == 0)
               for (auto b : ms) for (auto c : ms) { const double r = std::abs(b - c) / b; if (r < .021) spread = std::max(spread, r); }
            i++;
         }
         j.t("event", "Line").t("name", f[1]).v("t", t).f("spread", spread).raw("mass", arr(m)).raw("val", arr(v)).raw("dig", arr(d)).raw("again", arr(a));
      } else if (f[0] == "swap") {
         const auto s = static_cast<R>(std::stoi(f[2]));
         std::vector<std::string> v, m;
         for (auto& x : parts(f[3], '@')) { v.push_back(Obj::vec(thresholds(parse(x), s, {}))); m.push_back(Obj::vec(masses(parse(x)))); }
         j.t("event", "Swap").t("name", f[1]).raw("mass", arr(m)).raw("val", arr(v));
      } else {
         std::vector<std::string> v;
         for (auto& x : parts(f[4], '@')) v.push_back(Obj::vec(std::vector<double>{fn(f[1], reals(x))}));
         j.t("event", "Fn").t("name", f[1]).v("t", reals(f[3])).f("spread", 0).raw("val", arr(v)).t("tol", f[2]);
      }
      out << j.done() << "\n";
   }
}
