// Records hierarchy selections (see spec/SelectionTrace.tla).
// usage: select POINTS OUT     (POINTS: one point per line, "#ab 1" etc. as extra slots)
#include "common.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include <type_traits>
using namespace himalaya;
namespace {
// the selection uses the expansions at the three-loop depth; lower it if the class still has that switch
template <class C> auto lower(C& c, int v, int) -> decltype(c.expansionDepth.at(0), true)
{
   c.expansionDepth.at(hierarchies::ExpansionDepth::threeLoop) = v;
   c.expansionDepth.at(hierarchies::ExpansionDepth::Mst) = v;
   return true;
}
template <class C> bool lower(C&, int, long) { return false; }
std::string sel(const HierarchyObject& ho)
{
   return h::Obj().f("abs", ho.getAbsDiff2L()).f("rel", ho.getRelDiff2L()).f("u2", ho.getDMhExpUncertainty(2)).f("u3", ho.getDMhExpUncertainty(3)).done();
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   int n = 0;
   while (std::getline(in, line)) {
      const bool ab = line.compare(0, 2, "b ") == 0;
      const bool mdr = line.find("mdr ") == 2, eq2 = line.find("eq2 ") == 2;
      Parameters p0 = h::parse(line.substr(mdr || eq2 ? 6 : 2));
      if (eq2) { // the heavier sfermion exactly as heavy as the average light squark
         Parameters q = p0;
         try { q.validate(false); } catch (...) { continue; }
         (ab ? p0.MSb : p0.MSt)(1) = std::sqrt(std::abs(q.calculateMsq2()));
      }
      n++;
      Parameters p = p0;
      try { p.validate(false); } catch (...) { continue; }
      std::unique_ptr<HierarchyCalculator> hc;
      try { hc.reset(new HierarchyCalculator(p0, false)); } catch (...) { continue; }
      const auto& ms = ab ? p.MSb : p.MSt;
      HierarchyObject ho(ab);
      ho.setMDRFlag(mdr);
      HierarchyObject hs(ab);
      hs.setMDRFlag(mdr);
      const int cmp = hc->compareHierarchies(hs);
      Eigen::Matrix2d tree = hs.getDMh(0);
      h::Obj pp;
      pp.f("vu", p.vu).f("vd", p.vd).f("MW", p.MW).f("MZ", p.MZ).f("MA", p.MA).f("Mb", p.Mb)
        .f("mq1", p.mq2(0, 0)).f("mq2", p.mq2(1, 1)).f("mq3", p.mq2(2, 2)).f("mu1", p.mu2(0, 0)).f("mu2", p.mu2(1, 1))
        .f("md1", p.md2(0, 0)).f("md2", p.md2(1, 1)).f("md3", p.md2(2, 2));
      out << h::Obj().t("event", "Begin").i("pt", n).b("ab", ab).b("mdr", mdr).f("m1", ms(0)).f("m2", ms(1)).f("mg", p.MG)
                .f("mq", std::sqrt(std::abs(p.calculateMsq2()))).raw("p", pp.done()).m("tree", tree).done() << "\n";
      HierarchyCalculator low(p0, false);
      lower(low, 0, 0);
      for (int k = 0; k < 14; k++) {
         ho.setSuitableHierarchy(k);
         Eigen::Matrix2d M1 = hc->getMt41L(ho, mdr, 0), M2 = hc->getMt42L(ho, mdr, 0);
         HierarchyObject t = ho;
         Eigen::Matrix2d X2 = low.calculateHierarchy(t, 0, 1, 0);
         double u2 = NAN, u3 = NAN;
         try { u2 = hc->getExpansionUncertainty(ho, tree + M1, 0, 1, 0); } catch (...) {}
         try { u3 = hc->getExpansionUncertainty(ho, tree + M1 + M2, 0, 0, 1); } catch (...) {}
         out << h::Obj().t("event", "Cand").i("h", k).m("M1", M1).m("M2", M2).m("X2", X2).f("u2", u2).f("u3", u3).done() << "\n";
      }
      bool ok = true;
      std::string full = sel(hs);
      int hh = cmp;
      if (!mdr) {
         try {
            const auto f = hc->calculateDMh3L(ab);
            full = sel(f);
            hh = f.getSuitableHierarchy();
         } catch (const std::exception&) { ok = false; }
      } else ok = cmp >= 0;
      out << h::Obj().t("event", "End").b("ok", ok).i("h", hh).i("cmp", cmp).m("tree0", tree).raw("full", full).raw("sel", sel(hs)).done() << "\n";
   }
}
