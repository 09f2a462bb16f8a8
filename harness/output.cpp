// Records what a process writes to its standard streams (see spec/OutputTrace.tla).
// usage: output IN OUT    IN: "op kind v ptid # point" | "scheme s # point" | "flag eft|fo o v # point"
#include "ops.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace h;
namespace {
long size(int fd) { std::fflush(stdout); std::fflush(stderr); std::cout.flush(); std::cerr.flush(); return lseek(fd, 0, SEEK_END); }
std::string tail(int fd, long from)
{
   const long n = size(fd) - from;
   std::string s(n, ' ');
   if (n && pread(fd, &s[0], n, from) != n) std::_Exit(77);
   return s;
}
// removes terminal control sequences
std::string plain(const std::string& s)
{
   std::string r;
   for (std::size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\033') { while (i < s.size() && s[i] != 'm') i++; continue; }
      r += s[i];
   }
   return r;
}
std::vector<double> numbers(const std::string& s)
{
   std::vector<double> v;
   for (const char* p = s.c_str(); *p;) {
      // a number follows a blank
      if (p != s.c_str() && p[-1] == ' ' && (std::strchr("+-.0123456789", *p) || !std::strncmp(p, "nan", 3))) {
         char* e;
         const double d = std::strtod(p, &e);
         if (e != p) { v.push_back(d); p = e; continue; }
      }
      p++;
   }
   return v;
}
const char* sector(const std::string& l)
{
   std::string s;
   for (unsigned char c : l) s += char(std::tolower(c));
   if (s.find("sbottom") != std::string::npos) return "b";
   if (s.find("stau") != std::string::npos) return "tau";
   if (s.find("stop") != std::string::npos) return "t";
   return "?";
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   const int fo = open((std::string(argv[2]) + ".stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
   const int fe = open((std::string(argv[2]) + ".stderr").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
   if (fo < 0 || fe < 0 || dup2(fo, 1) < 0 || dup2(fe, 2) < 0) return 77;
   std::string line;
   while (std::getline(in, line)) {
      const Words w = words(line.substr(0, line.find('#')));
      Parameters p = parse(line.substr(line.find('#') + 1));
      const long o0 = size(fo), e0 = size(fe);
      Obj j;
      if (w[0] == "op") {
         const std::string k = w[1];
         const bool v = w[2] == "1";
         Digest d;
         bool failed = false;
         try {
            if (k == "calc") { HierarchyCalculator c(p, v); for (int b = 0; b < 2; b++) for (auto& q : flat(c.calculateDMh3L(b))) d.add(q.v); }
            else if (k == "eft") { mh2_eft::Mh2EFTCalculator e(p, v); d.add(e.getDeltaMh2EFT0Loop()); d.add(e.getDeltaMh2EFT1Loop(1, 1)); d.add(e.getDeltaMh2EFT2Loop(1, 1)); d.add(e.getDeltaMh2EFT3Loop(1, 1, 1)); }
            else if (k == "thr") { mh2_eft::ThresholdCalculator t(p, v); for (int i = 0; i < 45; i++) d.add(t.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(i), mh2_eft::RenSchemes::DRBARPRIME, 1)); }
            else if (k == "validate") { Parameters q = p; q.validate(v); for (auto& s : slots(q)) d.add(*s.second); }
            else { Parameters q = p; q.validate(false); mh2_fo::MSSM_mass_eigenstates f(q, k == "foat"); const auto r = f.calculate_Mh2(); d.add(std::get<0>(r)); d.add(std::get<1>(r)); d.add(std::get<2>(r)); }
         } catch (const std::exception& e) { failed = true; d.add(std::string(e.what())); }
         const long nout = size(fo) - o0;
         const std::string text = plain(tail(fe, e0));
         std::istringstream is(text);
         std::string l, block, sec;
         long banners = 0, other = 0;
         std::vector<std::string> infos, shown;
         auto flush = [&] { if (!sec.empty()) { shown.push_back(Obj().t("sector", sec).v("num", numbers(block)).done()); } block.clear(); sec.clear(); };
         while (std::getline(is, l)) {
            if (l.compare(0, 14, "Himalaya info:") == 0) { flush(); sec = sector(l); infos.push_back(str(sec)); block = l + "\n"; if (sec == "?") sec.clear(); }
            else if (l.compare(0, 9, "Himalaya ") == 0 && l.size() > 9 && std::isdigit((unsigned char)l[9])) { flush(); banners++; }
            else if (!l.empty() && l[0] == '\t') block += l + "\n";
            else { flush(); other++; }
         }
         flush();
         Obj sup, com;
         auto has = [](double x) { return !std::isnan(x); };
         sup.raw("t", Obj().b("m", has(p.MSt(0)) && has(p.MSt(1))).b("th", has(p.theta_t)).b("s2", has(p.s2t)).done());
         sup.raw("b", Obj().b("m", has(p.MSb(0)) && has(p.MSb(1))).b("th", has(p.theta_b)).b("s2", has(p.s2b)).done());
         sup.raw("tau", Obj().b("m", has(p.MStau(0)) && has(p.MStau(1))).b("th", has(p.theta_tau)).b("s2", has(p.s2tau)).done());
         Parameters q = p;
         if (!failed) { try { q.validate(false); } catch (const std::exception&) {} }
         com.v("t", {q.MSt(0), q.MSt(1), q.s2t, q.theta_t}).v("b", {q.MSb(0), q.MSb(1), q.s2b, q.theta_b}).v("tau", {q.MStau(0), q.MStau(1), q.s2tau, q.theta_tau});
         if (failed) shown.clear();
         j.t("event", "Op").t("kind", k).b("v", v).i("pt", I(w, 3)).raw("supplied", sup.done()).b("failed", failed).t("digest", d.hex());
         j.i("out", nout).i("banners", banners).raw("infos", arr(infos)).raw("shown", arr(shown)).raw("completed", com.done()).i("other", other);
      } else if (w[0] == "fomode" || w[0] == "limits") {
         // settings off the beaten track, in which warnings may occur
         try { p.validate(false); } catch (const std::exception&) { continue; }
         auto see = [](double) {};
         if (w[0] == "fomode") {
            using M = mh2_fo::Momentum_iteration;
            mh2_fo::MSSM_mass_eigenstates f(p, I(w, 5) != 0);
            f.set_diagonalization(I(w, 2) ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
            f.set_mom_it(I(w, 1) == 0 ? M::off : I(w, 1) == 1 ? M::pert : M::num, std::strtod(w[4].c_str(), nullptr), I(w, 3));
            const auto r = f.calculate_Mh2();
            see(std::get<0>(r)); see(std::get<1>(r));
         } else {
            mh2_eft::ThresholdCalculator t(p, false);
            for (int l = 0; l < 6; l++) {
               t.setLimit(static_cast<mh2_eft::Limits>(l));
               t.setXtOrderOfDeltaLambdaAtAs2(I(w, 1));
               for (int i = 0; i < 45; i++) see(t.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(i), mh2_eft::RenSchemes::DRBARPRIME, 1));
               for (int x = 0; x < 7; x++) { see(t.getDRbarPrimeToMSbarShift(x, 1, x % 2)); see(t.getDRbarPrimeToMSbarXtTerms(static_cast<mh2_eft::Limits>(l), x, 1)); }
            }
         }
         j.t("event", "Setting").t("kind", line.substr(0, line.find('#'))).i("out", size(fo) - o0);
      } else {
         bool bad;
         try { p.validate(false); } catch (const std::exception&) { continue; }
         long from = 0;
         if (w[0] == "scheme") {
            mh2_eft::ThresholdCalculator t(p, false);
            from = size(fe);
            const int s = I(w, 1);
            bad = s != 1 && s != 4;
            t.getThresholdCorrection(mh2_eft::ThresholdCouplingOrders::LAMBDA_AT, static_cast<mh2_eft::RenSchemes>(s), 1);
         } else if (w[1] == "eft") {
            mh2_eft::Mh2EFTCalculator e(p, false);
            from = size(fe);
            bad = I(w, 3) < 0 || I(w, 3) > 1;
            e.setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(I(w, 2)), I(w, 3));
         } else {
            mh2_fo::MSSM_mass_eigenstates f(p);
            from = size(fe);
            bad = I(w, 3) < 0 || I(w, 3) > 1;
            f.set_correction(static_cast<CouplingOrders::CouplingOrders>(I(w, 2)), I(w, 3));
         }
         j.t("event", "Misuse").t("kind", line.substr(0, line.find('#'))).b("bad", bad).b("text", size(fe) > from).i("out", size(fo) - o0);
      }
      out << j.done() << "\n";
   }
   out.close();
   unlink((std::string(argv[2]) + ".stdout").c_str());
   unlink((std::string(argv[2]) + ".stderr").c_str());
}
