// Records complete results together with their building blocks (see spec/ComposeTrace.tla).
// usage: compose IN OUT    IN: "t|b <point>"
#include "ops.hpp"
using namespace h;
using HO = HierarchyObject;
using M = Eigen::Matrix2d;
namespace {
template <class C> auto shiftH(const C& c, const HO& ho, int) -> decltype(M(c.shiftH3mToDRbarPrime(ho)), std::vector<double>()) { M m = c.shiftH3mToDRbarPrime(ho); return {m(0, 0), m(0, 1), m(1, 0), m(1, 1)}; }
template <class C> std::vector<double> shiftH(const C&, const HO&, long) { return {}; }
template <class C> auto shiftHp(const C& c, const HO& ho, int logs, int) -> decltype(double(c.shiftH3mToDRbarPrimeMh2(ho, logs)), std::vector<double>()) { return {c.shiftH3mToDRbarPrimeMh2(ho, logs)}; }
template <class C> std::vector<double> shiftHp(const C&, const HO&, int, long) { return {}; }
HO H(bool ab, int h, int mdr) { HO ho(ab); ho.setSuitableHierarchy(h); ho.setMDRFlag(mdr); return ho; }
const unsigned NL = 8;
const int L[NL][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}};
std::string S(const M& m) { return Obj::mat(m); }
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      const bool ab = line[0] == 'b';
      Parameters p = parse(line.substr(2));
      std::unique_ptr<HierarchyCalculator> c;
      try { p.validate(false); c.reset(new HierarchyCalculator(p, false)); } catch (const std::exception&) { continue; }
      // --- single hierarchies
      for (int h = 0; h < 14; h++) {
         for (int mdr = 0; mdr < 2; mdr++) {
            HO ho = H(ab, h, mdr);
            std::vector<std::string> v;
            for (unsigned i = 0; i < NL; i++) { HO x = ho; v.push_back(S(c->calculateHierarchy(x, L[i][0], L[i][1], L[i][2]))); if (i == 3) ho.setMDRMasses(x.getMDRMasses()); }
            std::vector<std::string> d, m41, m42;
            for (int i = 0; i < 4; i++) d.push_back(S(c->calcDRbarToMDRbarShift(H(ab, h, mdr), i & 1, i & 2)));
            for (int i = 0; i < 2; i++) { m41.push_back(S(c->getMt41L(H(ab, h, mdr), i, i))); m42.push_back(S(c->getMt42L(H(ab, h, mdr), i, i))); }
            Obj j;
            j.t("event", "Hier").b("ab", ab).i("h", h).i("mdr", mdr).raw("val", arr(v)).raw("d", arr(d)).raw("m41", arr(m41)).raw("m42", arr(m42));
            j.v("mdrm", {ho.getMDRMasses()(0), ho.getMDRMasses()(1)});
            j.v("sh", {c->shiftMst1ToMDR(ho, 1, 1), c->shiftMst2ToMDR(ho, 1, 1)}).v("sh0", {c->shiftMst1ToMDR(ho, 0, 0), c->shiftMst2ToMDR(ho, 0, 0)});
            j.v("m", ab ? std::vector<double>{p.MSb(0), p.MSb(1)} : std::vector<double>{p.MSt(0), p.MSt(1)});
            // the same hierarchy for a point whose top sector has the data of the bottom sector
            std::vector<std::string> mir;
            if (ab) {
               Parameters q = p;
               q.Mt = p.Mb; q.MSt = p.MSb; q.s2t = p.s2b; q.theta_t = p.theta_b; q.Au(2, 2) = p.Ad(2, 2);
               HierarchyCalculator cq(q, false);
               for (unsigned i = 0; i < NL; i++) { HO x = H(false, h, mdr); mir.push_back(S(cq.calculateHierarchy(x, L[i][0], L[i][1], L[i][2]))); }
               mir.push_back(S(cq.getMt41L(H(false, h, mdr), mdr, mdr)));
               mir.push_back(S(cq.getMt42L(H(false, h, mdr), mdr, mdr)));
            }
            j.raw("mirror", arr(mir));
            out << j.done() << "\n";
         }
      }
      // --- the complete result
      HO ho(ab);
      try { ho = c->calculateDMh3L(ab); } catch (const std::exception&) { continue; }
      const int hr = ho.getSuitableHierarchy();
      Obj j;
      j.t("event", "Full").b("ab", ab).i("h", hr).i("scheme", ho.getRenormalizationScheme()).i("flag", ho.getMDRFlag()).b("isab", ho.getIsAlphab());
      j.f("Mt", p.Mt).f("vu", p.vu).f("vd", p.vd).f("g3", p.g3).f("MZ", p.MZ).f("MA", p.MA);
      std::vector<std::string> dmh;
      for (int i = 0; i < 4; i++) dmh.push_back(S(ho.getDMh(i)));
      j.raw("dmh", arr(dmh)).raw("shiftMDR", S(ho.getDMhDRbarPrimeToMDRbarPrimeShift())).raw("shiftH3m", S(ho.getDMhDRbarPrimeToH3mShift()));
      auto four = [&](const char* n, auto f) { std::vector<double> v; for (int i = 0; i < 4; i++) v.push_back(f(i)); j.v(n, v); };
      four("mh2", [&](int i) { return ho.getDMh2(i); });
      four("lam", [&](int i) { return ho.getDLambda(i); });
      four("lamShift", [&](int i) { return ho.getDLambdaDRbarPrimeToMSbarShift(i); });
      four("lamUnc", [&](int i) { return ho.getDLambdaUncertainty(i); });
      four("eft", [&](int i) { return ho.getDMh2EFTAt(i); });
      four("fo", [&](int i) { return ho.getDMh2FO(i); });
      four("foat", [&](int i) { return ho.getDMh2FOAt(i); });
      j.f("lamH3m", ho.getDLambdaH3m()).f("lamEFT", ho.getDLambdaEFT()).f("lamNL", ho.getDLambdaNonLog());
      j.v("mdrm", {ho.getMDRMasses()(0), ho.getMDRMasses()(1)}).v("unc", {ho.getDMhExpUncertainty(1), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3)});
      // blocks, each from objects of its own
      HierarchyCalculator c2(p, false);
      j.raw("m41", S(c2.getMt41L(H(ab, hr, 0), 0, 0))).raw("m42", S(c2.getMt42L(H(ab, hr, 0), 0, 0)));
      j.raw("m41m", S(c2.getMt41L(H(ab, hr, 1), 1, 1))).raw("m42m", S(c2.getMt42L(H(ab, hr, 1), 1, 1)));
      HO x = H(ab, hr, 0), y = H(ab, hr, 1);
      j.raw("h3", S(c2.calculateHierarchy(x, 0, 0, 1))).raw("h3m", S(c2.calculateHierarchy(y, 0, 0, 1)));
      j.f("rawH3m", x.getDLambdaH3m()).f("rawNL", x.getDLambdaNonLog());
      j.v("sh", {c2.shiftMst1ToMDR(y, 1, 1), c2.shiftMst2ToMDR(y, 1, 1)});
      j.v("H", shiftH(c2, H(ab, hr, 0), 0)).v("Hm", shiftH(c2, H(ab, hr, 1), 0));
      j.v("Hp0", shiftHp(c2, H(ab, hr, 0), 0, 0)).v("Hp1", shiftHp(c2, H(ab, hr, 0), 1, 0));
      j.f("unc3", c2.getExpansionUncertainty(H(ab, hr, 0), ho.getDMh(0) + ho.getDMh(1) + ho.getDMh(2), 0, 0, 1));
      { HO z(ab); j.i("cmp", c2.compareHierarchies(z)).f("unc2", z.getDMhExpUncertainty(2)); }
      {
         mh2_eft::Mh2EFTCalculator e(p, false);
         j.v("E", {e.getDeltaMh2EFT0Loop(), e.getDeltaMh2EFT1Loop(1, 1), e.getDeltaMh2EFT2Loop(1, 1), e.getDeltaMh2EFT3Loop(1, 1, 0)});
         mh2_fo::MSSM_mass_eigenstates f(p), g(p, true);
         const auto a = f.calculate_Mh2(), b = g.calculate_Mh2();
         j.v("F", {std::get<0>(a), std::get<1>(a), std::get<2>(a)}).v("G", {std::get<1>(b), std::get<2>(b)});
      }
      {
         using namespace mh2_eft;
         using O = ThresholdCouplingOrders;
         Parameters q = p;
         q.mu2(2, 2) = p.MSt(0) * p.MSt(0);
         q.mq2(2, 2) = p.MSt(1) * p.MSt(1);
         Mh2EFTCalculator e(q, false);
         j.f("sub1", e.getDeltaMh2EFT3Loop(0, 1, 0)).f("sub0", e.getDeltaMh2EFT3Loop(0, 0, 0));
         ThresholdCalculator t(q, false);
         auto T = [&](O o, int logs) { return t.getThresholdCorrection(o, RenSchemes::DRBARPRIME, logs); };
         j.f("at", T(O::LAMBDA_AT, 1)).f("atas", T(O::LAMBDA_AT_AS, 1)).f("ytas", T(O::YT_AS, 1)).f("as2L", T(O::LAMBDA_AT_AS2, 1)).f("as2", T(O::LAMBDA_AT_AS2, 0));
         j.v("s3", {t.getDRbarPrimeToMSbarShift(3, 1, 0), t.getDRbarPrimeToMSbarShift(4, 1, 0)});
         j.f("xt4", t.getDRbarPrimeToMSbarXtTerms(t.getLimit(), 4, 1));
      }
      out << j.done() << "\n";
   }
}
