// Records expansion uncertainties (see spec/UncertaintyTrace.tla).
#include "common.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
using namespace himalaya;
namespace {
const char* names[] = {"threeLoop", "Mst", "Dmglst1", "Dmsqst1", "Dmst12", "At", "lmMsusy", "Msq", "Msusy", "Dmglst2", "Dmsqst2", "Mgl"};
using namespace hierarchies;
const int idx[] = {ExpansionDepth::threeLoop, ExpansionDepth::Mst, ExpansionDepth::Dmglst1, ExpansionDepth::Dmsqst1,
   ExpansionDepth::Dmst12, ExpansionDepth::At, ExpansionDepth::lmMsusy, ExpansionDepth::Msq, ExpansionDepth::Msusy,
   ExpansionDepth::Dmglst2, ExpansionDepth::Dmsqst2, ExpansionDepth::Mgl};
template <class C> auto depth(C& c, int i, int v, int) -> decltype(c.expansionDepth.at(0), true) { c.expansionDepth.at(i) = v; return true; }
template <class C> bool depth(C&, int, int, long) { std::cerr << "no access to the expansion switches\n"; std::exit(77); }
template <class C> auto restored(const C& c, int) -> decltype(c.expansionDepth.at(0), true) { for (int x : c.expansionDepth) if (x != 1) return false; return true; }
template <class C> bool restored(const C&, long) { return true; }
Eigen::Matrix2d ch(const HierarchyCalculator& c, HierarchyObject ho, int a, int b, int d) { return c.calculateHierarchy(ho, a, b, d); }
std::string lows(const Parameters& p, const HierarchyObject& ho, int a, int b, int d)
{
   HierarchyCalculator c(p, false);
   h::Obj o;
   for (int i = 2; i < 12; i++) {
      depth(c, idx[i], 0, 0);
      o.m(names[i], ch(c, ho, a, b, d));
      depth(c, idx[i], 1, 0);
   }
   return o.done();
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   unsigned seed = 1;
   auto rnd = [&seed](int n) { seed = seed * 1664525u + 1013904223u; return int((seed >> 16) % n); };
   while (std::getline(in, line)) {
      const bool ab = line.compare(0, 2, "b ") == 0;
      const Parameters p = h::parse(line.substr(2));
      std::unique_ptr<HierarchyCalculator> hc;
      try { hc.reset(new HierarchyCalculator(p, false)); } catch (...) { continue; }
      HierarchyObject ho(ab);
      hc->compareHierarchies(ho);
      const Eigen::Matrix2d m0 = ho.getDMh(0);
      HierarchyObject any(ab);
      any.setSuitableHierarchy(0);
      const Eigen::Matrix2d m1 = hc->getMt41L(any, 0, 0), m2 = hc->getMt42L(any, 0, 0);
      for (int r = 0; r < 3; r++) {
         HierarchyObject x(ab);
         x.setMDRFlag(rnd(4) == 0);
         const int k = rnd(14);
         x.setSuitableHierarchy(k);
         const int L[5][3] = {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}, {1, 1, 0}, {0, 1, 1}};
         const int* f = L[rnd(5)];
         Eigen::Matrix2d mm = m0;
         if (!f[0]) mm += m1;
         if (!f[1] && f[2]) mm += m2;
         std::vector<double> v;
         v.push_back(hc->getExpansionUncertainty(x, mm, f[0], f[1], f[2]));
         v.push_back(hc->getExpansionUncertainty(x, mm, f[0], f[1], f[2]));
         { HierarchyObject y(ab); y.setSuitableHierarchy((k + 5) % 14); hc->getExpansionUncertainty(y, m0, 0, 1, 0); }
         try { HierarchyObject y(ab); y.setSuitableHierarchy(rnd(2) ? -1 : 14); hc->getExpansionUncertainty(y, m0, 0, 1, 0); } catch (...) {}
         try { hc->calculateDMh3L(!ab); } catch (...) {}
         v.push_back(hc->getExpansionUncertainty(x, mm, f[0], f[1], f[2]));
         v.push_back(HierarchyCalculator(p, false).getExpansionUncertainty(x, mm, f[0], f[1], f[2]));
         out << h::Obj().t("event", "Unc").b("ab", ab).i("h", k).m("mm", mm).m("full", ch(HierarchyCalculator(p, false), x, f[0], f[1], f[2]))
                   .raw("low", lows(p, x, f[0], f[1], f[2])).v("vals", v).b("restored", restored(*hc, 0)).done() << "\n";
      }
      try {
         const auto r = hc->calculateDMh3L(ab);
         HierarchyObject x(ab);
         x.setSuitableHierarchy(r.getSuitableHierarchy());
         out << h::Obj().t("event", "Rep").b("ab", ab).i("h", r.getSuitableHierarchy()).m("m0", r.getDMh(0)).m("m1", m1).m("m2", m2)
                   .f("u1", r.getDMhExpUncertainty(1)).f("u2", r.getDMhExpUncertainty(2)).f("u3", r.getDMhExpUncertainty(3))
                   .m("full2", ch(*hc, x, 0, 1, 0)).m("full3", ch(*hc, x, 0, 0, 1))
                   .raw("low2", lows(p, x, 0, 1, 0)).raw("low3", lows(p, x, 0, 0, 1)).b("restored", restored(*hc, 0)).done() << "\n";
      } catch (const std::exception&) {}
   }
}
