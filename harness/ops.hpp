// The operations of the library on objects of several kinds, by name.
#pragma once
#include "common.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <functional>
namespace h {
using namespace himalaya;
using Words = std::vector<std::string>;
inline Words words(const std::string& s) { std::istringstream is(s); Words w; std::string x; while (is >> x) w.push_back(x); return w; }
inline int I(const Words& w, std::size_t i) { return std::stoi(w.at(i)); }
template <class C> auto shift_h3m(const C& c, const HierarchyObject& ho, int) -> decltype(Eigen::Matrix2d(c.shiftH3mToDRbarPrime(ho)), std::vector<double>())
{
   const Eigen::Matrix2d m = c.shiftH3mToDRbarPrime(ho);
   return {m(0, 0), m(0, 1), m(1, 0), m(1, 1)};
}
template <class C> std::vector<double> shift_h3m(const C&, const HierarchyObject&, long) { return {}; }
struct Any { // one object of any kind
   std::string kind;
   std::shared_ptr<HierarchyCalculator> calc;
   std::shared_ptr<mh2_eft::Mh2EFTCalculator> eft;
   std::shared_ptr<mh2_eft::ThresholdCalculator> thr;
   std::shared_ptr<mh2_fo::MSSM_mass_eigenstates> fo;
   std::shared_ptr<Parameters> par;
   Any() = default;
   Any(const std::string& k, const Parameters& p) : kind(k)
   {
      if (k == "calc") calc = std::make_shared<HierarchyCalculator>(p, false);
      else if (k == "eft") eft = std::make_shared<mh2_eft::Mh2EFTCalculator>(p, false);
      else if (k == "thr") thr = std::make_shared<mh2_eft::ThresholdCalculator>(p, false, true);
      else if (k == "lim") thr = std::make_shared<mh2_eft::ThresholdCalculator>(p, false); // with the choice of the limits
      else if (k == "fo") fo = std::make_shared<mh2_fo::MSSM_mass_eigenstates>(p);
      else if (k == "foat") fo = std::make_shared<mh2_fo::MSSM_mass_eigenstates>(p, true);
      else if (k == "par") par = std::make_shared<Parameters>(p);
      else throw std::logic_error("harness: kind " + k);
   }
   Any clone(bool assign, const Any& old) const
   {
      Any r;
      r.kind = kind;
      if (calc) { if (assign && old.calc) { r.calc = std::make_shared<HierarchyCalculator>(*old.calc); *r.calc = *calc; } else r.calc = std::make_shared<HierarchyCalculator>(*calc); }
      if (eft) { if (assign && old.eft) { r.eft = std::make_shared<mh2_eft::Mh2EFTCalculator>(*old.eft); *r.eft = *eft; } else r.eft = std::make_shared<mh2_eft::Mh2EFTCalculator>(*eft); }
      if (thr) { if (assign && old.thr) { r.thr = std::make_shared<mh2_eft::ThresholdCalculator>(*old.thr); *r.thr = *thr; } else r.thr = std::make_shared<mh2_eft::ThresholdCalculator>(*thr); }
      if (fo) { if (assign && old.fo) { r.fo = std::make_shared<mh2_fo::MSSM_mass_eigenstates>(*old.fo); *r.fo = *fo; } else r.fo = std::make_shared<mh2_fo::MSSM_mass_eigenstates>(*fo); }
      if (par) r.par = std::make_shared<Parameters>(*par);
      return r;
   }
   void set(const std::string& key, const std::string& val)
   {
      const Words k = words(key);
      const int v = std::stoi(val);
      if (eft) eft->setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(I(k, 0)), v);
      else if (thr && k[0] == "limit") thr->setLimit(static_cast<mh2_eft::Limits>(v));
      else if (thr) thr->setXtOrderOfDeltaLambdaAtAs2(v);
      else if (fo && k[0] == "diag") fo->set_diagonalization(v ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
      else if (fo && k[0] == "momit") {
         using M = mh2_fo::Momentum_iteration;
         fo->set_mom_it(v == 0 ? M::off : v == 1 ? M::pert : M::num, 1e-5, 30);
      }
      else if (fo) fo->set_correction(static_cast<CouplingOrders::CouplingOrders>(I(k, 0)), v);
      else throw std::logic_error("harness: set " + key);
   }
   static HierarchyObject H(const Words& w, std::size_t i, int hier, HierarchyObject* dirty = nullptr)
   {
      HierarchyObject ho(w.at(i) == "b");
      if (dirty) {
         if (dirty->getIsAlphab() != (w.at(i) == "b")) *dirty = ho;
         ho = *dirty;
      }
      ho.setMDRFlag(w.size() > i + 1 && w[i + 1] == "m");
      if (hier >= -9) ho.setSuitableHierarchy(hier);
      return ho;
   }
   static HierarchyObject* last(const std::string& kind) { static std::map<std::string, HierarchyObject> m; auto it = m.find(kind); if (it == m.end()) it = m.emplace(kind, HierarchyObject(false)).first; return &it->second; }
   /// values of the result
   std::vector<double> eval(const std::string& op, HierarchyObject* dirty = nullptr)
   {
      const Words w = words(op);
      std::vector<double> r;
      auto mat = [&](const Eigen::MatrixXd& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); };
      auto sel = [&](const HierarchyObject& ho) { for (double x : {double(ho.getSuitableHierarchy()), ho.getAbsDiff2L(), ho.getRelDiff2L(), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3)}) r.push_back(x); };
      if (calc) {
         if (w[0] == "dmh3l") {
            const auto ho = calc->calculateDMh3L(w[1] == "b");
            for (auto& q : flat(ho)) r.push_back(q.v);
            if (dirty) *dirty = ho;
         } else if (w[0] == "cmp") {
            HierarchyObject ho = H(w, 1, -99, dirty);
            const int h = calc->compareHierarchies(ho);
            r.push_back(h);
            if (h >= 0) sel(ho); // otherwise nothing was selected and the values are whatever the caller had in there
            mat(ho.getDMh(0));
            if (dirty) *dirty = ho;
         } else if (w[0] == "hier") { // hier h t|b m|- l1 l2 l3
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            mat(calc->calculateHierarchy(ho, I(w, 4), I(w, 5), I(w, 6)));
            mat(ho.getMDRMasses());
         } else if (w[0] == "lam") { // three-loop correction to lambda as determined from a hierarchy: lam h t|b m|-
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            calc->calculateHierarchy(ho, 0, 0, 1);
            r = {ho.getDLambdaH3m(), ho.getDLambdaNonLog()};
         } else if (w[0] == "l3") { // the same relative to the known terms, and as it follows from the effective theory: l3 h t|b m|-
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            calc->calculateHierarchy(ho, 0, 0, 1);
            calc->calcDeltaLambda3L(ho, false);
            r = {ho.getDLambdaH3m(), ho.getDLambdaEFT(), ho.getDLambdaNonLog()};
         } else if (w[0] == "unc") {
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            Eigen::Matrix2d M;
            M << 9000, -500, -500, 12000;
            r.push_back(calc->getExpansionUncertainty(ho, M, I(w, 4), I(w, 5), I(w, 6)));
         } else if (w[0] == "mt41" || w[0] == "mt42") { // mt41 h t|b m|- s1 s2
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            mat(w[0] == "mt41" ? calc->getMt41L(ho, I(w, 4), I(w, 5)) : calc->getMt42L(ho, I(w, 4), I(w, 5)));
         } else if (w[0] == "sh") {
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            r.push_back(calc->shiftMst1ToMDR(ho, I(w, 4), I(w, 5)));
            r.push_back(calc->shiftMst2ToMDR(ho, I(w, 4), I(w, 5)));
         } else if (w[0] == "s3m") { // three-loop shift from the scheme of the expansions to the DR' scheme
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            r = shift_h3m(*calc, ho, 0);
         } else if (w[0] == "d2m") {
            HierarchyObject ho = H(w, 2, I(w, 1), dirty);
            mat(calc->calcDRbarToMDRbarShift(ho, I(w, 4), I(w, 5)));
         } else throw std::logic_error("harness: op " + op);
      } else if (eft) {
         if (w[0] == "0") r.push_back(eft->getDeltaMh2EFT0Loop());
         else if (w[0] == "1") r.push_back(eft->getDeltaMh2EFT1Loop(I(w, 1), I(w, 2)));
         else if (w[0] == "2") r.push_back(eft->getDeltaMh2EFT2Loop(I(w, 1), I(w, 2)));
         else if (w[0] == "3") r.push_back(eft->getDeltaMh2EFT3Loop(I(w, 1), I(w, 2), I(w, 3)));
         else if (w[0] == "deg") r.push_back(eft->getDeltaLambdaDegenerate(1100, 1000, 700, 1));
         else throw std::logic_error("harness: op " + op);
      } else if (thr) {
         using namespace mh2_eft;
         if (w[0] == "t") r.push_back(thr->getThresholdCorrection(static_cast<ThresholdCouplingOrders>(I(w, 1)), static_cast<RenSchemes>(I(w, 2)), I(w, 3)));
         else if (w[0] == "shift") r.push_back(thr->getDRbarPrimeToMSbarShift(I(w, 1), I(w, 2), I(w, 3)));
         else if (w[0] == "xt") r.push_back(thr->getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(I(w, 1)), I(w, 2), I(w, 3)));
         else throw std::logic_error("harness: op " + op);
      } else if (fo) {
         if (w[0] == "mh2") { const auto t = fo->calculate_Mh2(); r = {std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }
         else if (w[0] == "m") { mat(fo->get_mass_matrix_hh()); mat(fo->get_mass_matrix_hh_gaugeless()); }
         else if (w[0] == "d1") mat(fo->delta_mh2_1loop(8000));
         else if (w[0] == "d1g") { mat(fo->delta_mh2_1loop_gaugeless()); mat(fo->delta_mh2_1loop_gaugeless_deriv()); }
         else if (w[0] == "d2") mat(fo->delta_mh2_2loop());
         else if (w[0] == "pert") mat(fo->delta_mh2_2loop_mom_it_pert());
         else if (w[0] == "num") mat(fo->delta_mh2_2loop_mom_it_num(1e-5, 30));
         else throw std::logic_error("harness: op " + op);
      } else if (par) {
         Parameters c = *par;
         if (w[0] == "msq2") r.push_back(c.calculateMsq2());
         else if (w[0] == "validate") { c.validate(false); for (auto& s : slots(c)) r.push_back(*s.second); }
         else throw std::logic_error("harness: op " + op);
      }
      return r;
   }
   std::string print(const std::string& op)
   {
      std::ostringstream os;
      if (eft) os << *eft;
      else if (fo) os << *fo;
      else if (par) os << *par;
      else if (calc) { auto ho = calc->calculateDMh3L(false); os << ho; }
      return os.str();
   }
   std::string run(const std::string& op, HierarchyObject* dirty = nullptr)
   {
      Digest d;
      try {
         if (op == "print") d.add(print(op));
         else for (double x : eval(op, dirty)) d.add(x);
      } catch (const std::logic_error& e) {
         if (std::string(e.what()).compare(0, 8, "harness:") == 0) { std::fprintf(stderr, "%s\n", e.what()); std::_Exit(77); }
         d.add(std::string("logic_error ") + e.what());
      } catch (const std::exception& e) {
         d.add(std::string("exception ") + e.what());
      }
      return d.hex();
   }
};
} // namespace h
