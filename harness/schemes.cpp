// Evaluates threshold corrections in all schemes, truncation orders and log settings (see spec/SchemesTrace.tla).
// usage: schemes IN OUT
// IN: "schemes|name|limit|order ...|point"        limit: -1 = as chosen by the calculator; order: order of the queries
//     "trunc|name|limit|scale/mst1 or 0|x ...|point@point@..."   points that differ in Xt = x * sqrt(mQ3 mU3) only
#include "ops.hpp"
#include <cstdio>
#include <unistd.h>
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
using C = mh2_eft::ThresholdCalculator;
using T = mh2_eft::ThresholdCouplingOrders;
using R = mh2_eft::RenSchemes;
const int N = 45;
// collects what is printed on both streams
struct Capture {
   std::FILE* f = std::tmpfile();
   int o, e;
   Capture()
   {
      if (!f) std::exit(77);
      flush();
      o = dup(1); e = dup(2);
      if (o < 0 || e < 0 || dup2(fileno(f), 1) < 0 || dup2(fileno(f), 2) < 0) std::exit(77);
   }
   static void flush() { std::cout.flush(); std::cerr.flush(); std::fflush(stdout); std::fflush(stderr); }
   bool any() const { flush(); return lseek(1, 0, SEEK_CUR) > 0; }
   ~Capture() { flush(); dup2(o, 1); dup2(e, 2); close(o); close(e); std::fclose(f); }
};
void force(C& c, int limit) { if (limit >= 0) c.setLimit(static_cast<mh2_eft::Limits>(limit)); }
double get(const C& c, int i, R r, int logs = 1) { return c.getThresholdCorrection(static_cast<T>(i), r, logs); }
std::vector<double> masses(const Parameters& q)
{
   auto p = q;
   p.validate(false);
   return {std::sqrt(p.mq2(2, 2)), std::sqrt(p.mu2(2, 2)), p.MG, std::sqrt(p.calculateMsq2())};
}
// the conversion of lambda_at_as2 between the schemes and truncated variants
std::vector<double> truncated(const Parameters& p, mh2_eft::Limits l)
{
   C c(p, false);
   c.setLimit(l);
   const auto L = T::LAMBDA_AT_AS2;
   std::vector<double> y;
   for (int o = 0; o <= 1; o++) y.push_back(c.getThresholdCorrection(L, R::TEST, o) - c.getThresholdCorrection(L, R::DRBARPRIME, o));
   for (int k = 3; k <= 4; k++) for (int o = 0; o <= 1; o++) for (int x = 0; x <= 1; x++) y.push_back(c.getDRbarPrimeToMSbarShift(k, o, x));
   for (int k = 4; k <= 6; k++) for (int o = 0; o <= 1; o++) y.push_back(c.getDRbarPrimeToMSbarXtTerms(l, k, o));
   for (int k = 3; k <= 6; k++) for (int o = 0; o <= 1; o++) { c.setXtOrderOfDeltaLambdaAtAs2(k); y.push_back(c.getThresholdCorrection(L, R::TEST, o)); }
   return y;
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      const auto f = parts(line, '|');
      Obj j;
      const int limit = std::stoi(f[2]);
      if (f[0] == "schemes") {
         const auto p = parse(f[4]);
         C c(p, false);
         force(c, limit);
         std::vector<double> ref(N), dr(N), nolog(N), nologdr(N), at(N);
         for (int i = 0; i < N; i++) ref[i] = get(c, i, R::TEST);
         std::vector<std::string> said, val, thrown;
         for (auto& w : words(f[3])) {           // one query per (scheme, correction) in a given order
            const int k = std::stoi(w), i = k % N, s = k / N;
            Capture cap;
            double v = 0;
            bool t = false;
            try { v = get(c, i, static_cast<R>(s)); } catch (...) { t = true; }
            Obj q;
            q.i("c", i + 1).i("s", s).f("val", v).b("said", cap.any()).b("thrown", t);
            val.push_back(q.done());
            if (s == 1) dr[i] = v;
         }
         for (int i = 0; i < N; i++) { nolog[i] = get(c, i, R::TEST, 0); nologdr[i] = get(c, i, R::DRBARPRIME, 0); }
         auto q = p;
         q.validate(false);
         auto r = p;
         r.scale = q.MSt(0);
         C d(r, false);
         force(d, limit >= 0 ? limit : static_cast<int>(c.getLimit()));
         for (int i = 0; i < N; i++) at[i] = get(d, i, R::TEST);
         j.t("event", "Schemes").t("name", f[1]).v("ref", ref).raw("query", arr(val)).v("nolog", nolog).v("nologdr", nologdr).v("at", at)
            .v("mass", masses(p)).i("limit", static_cast<int>(c.getLimit()));
      } else {
         std::vector<std::string> v, w;
         int first = limit;   // the limit chosen at the first point is used at all points
         for (auto& x : parts(f[5], '@')) {
            auto p = parse(x);
            p.validate(false);
            C c(p, false);
            if (first < 0) first = static_cast<int>(c.getLimit());
            const auto l = static_cast<mh2_eft::Limits>(first);
            v.push_back(Obj::vec(truncated(p, l)));
            if (v.size() == 1) j.v("mass", masses(p)).i("limit", static_cast<int>(l));
            p.scale = p.MSt(0);
            w.push_back(Obj::vec(truncated(p, l)));
         }
         std::vector<double> xs;
         for (auto& x : words(f[4])) xs.push_back(std::strtod(x.c_str(), nullptr));
         j.t("event", "Trunc").t("name", f[1]).v("x", xs).raw("val", arr(v)).raw("at", arr(w));
      }
      out << j.done() << "\n";
   }
}
