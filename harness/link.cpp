// Records sessions with the Mathematica link, played through a stand-in link (see spec/LinkTrace.tla).
// usage: link IN OUT
// IN: "<kind> <fault> <n> <item>*n # <point>"   kind: list | nohead | args0 | args2 | noinner | nopacket
//     item: a number, "sym" or "str";  <point> is the same request as named parameters (for a direct use of the library)
#include "ops.hpp"
#include "stub/mathlink.h"
#include "stub/WolframLibrary.h"
#include "himalaya/LibraryLink/Himalaya_LibraryLink.cpp"
using namespace h;
using T = StubLink::Tok;
namespace {
std::string tokens(const std::vector<T>& v)
{
   std::vector<std::string> r;
   for (auto& t : v) {
      const std::string k = std::string("\"") + t.kind + "\"";
      switch (t.kind) {
      case 'F': r.push_back("[" + k + "," + str(t.s) + "," + std::to_string(t.n) + "]"); break;
      case 'I': r.push_back("[" + k + "," + std::to_string(t.n) + "]"); break;
      case 'R': r.push_back("[" + k + "," + num(t.r) + "]"); break;
      case 'E': r.push_back("[" + k + "]"); break;
      default: r.push_back("[" + k + "," + str(t.s) + "]");
      }
   }
   return arr(r);
}
std::vector<std::string> lines(const std::string& s)
{
   std::istringstream is(s);
   std::vector<std::string> r;
   for (std::string l; std::getline(is, l);) r.push_back(str(l));
   return r;
}
struct Streams { // captures both streams, tells whether they were given back
   std::stringbuf o, e;
   std::streambuf *so, *se;
   Streams() : so(std::cout.rdbuf(&o)), se(std::cerr.rdbuf(&e)) {}
   bool intact() const { return std::cout.rdbuf() == &o && std::cerr.rdbuf() == &e && std::cout.good() && std::cerr.good(); }
   ~Streams() { std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cout.clear(); std::cerr.clear(); }
};
}
// the parameters as decoded (from the library's own decoding function, if it has one of this form)
namespace himalaya {
template <class V> auto decoded(Obj& j, const V& v, int) -> decltype(make_data(v).pars, void())
{
   Obj q;
   try { auto p = make_data(v).pars; for (auto& s : slots(p)) q.f(s.first, *s.second); } catch (const std::exception&) {}
   j.raw("decoded", q.done());
}
template <class V> void decoded(Obj& j, const V&, long) { j.raw("decoded", "{}"); }
}
namespace {
// what the library itself yields for the named point
void direct(Obj& j, const std::string& point, bool bottom, int loops, bool verbose)
{
   Parameters p = parse(point);
   {
      Obj q;
      Parameters raw = p;
      for (auto& s : slots(raw)) q.f(s.first, *s.second);
      j.raw("named", q.done());
   }
   bool error = false;
   std::string what, completed = "{}";
   std::vector<std::string> msgs;
   HierarchyObject ho(bottom);
   std::vector<double> eft(4, 0.), fo(4, 0.), at(4, 0.);
   {
      // informational output of the direct use: both streams in one
      std::stringbuf b;
      auto so = std::cout.rdbuf(&b), se = std::cerr.rdbuf(&b);
      try {
         p.validate(verbose);
         Obj q;
         for (auto& s : slots(p)) q.f(s.first, *s.second);
         completed = q.done();
         if (loops > 2) {
            HierarchyCalculator c(p, verbose);
            ho = c.calculateDMh3L(bottom);
            for (int i = 0; i < 4; i++) { eft[i] = ho.getDMh2EFTAt(i); fo[i] = ho.getDMh2FO(i); at[i] = ho.getDMh2FOAt(i); }
         } else {
            mh2_eft::Mh2EFTCalculator e(p, verbose);
            eft = {e.getDeltaMh2EFT0Loop(), e.getDeltaMh2EFT1Loop(1, 1), e.getDeltaMh2EFT2Loop(1, 1), 0.};
            mh2_fo::MSSM_mass_eigenstates f(p), g(p, true);
            const auto x = f.calculate_Mh2(), y = g.calculate_Mh2();
            fo = {std::get<0>(x), std::get<1>(x), std::get<2>(x), 0.};
            at = {std::get<0>(y), std::get<1>(y), std::get<2>(y), 0.};
         }
      } catch (const std::exception& e) { error = true; what = e.what(); }
      std::cout.rdbuf(so);
      std::cerr.rdbuf(se);
      msgs = lines(b.str());
   }
   j.raw("completed", completed);
   Obj d;
   d.b("error", error).t("what", what).raw("msgs", arr(msgs));
   const int h = ho.getSuitableHierarchy();
   std::string hn;
   try { hn = ho.getH3mHierarchyNotation(h); } catch (const std::exception& e) { hn = e.what(); }
   d.i("hid", h).t("hname", hn).b("ab", ho.getIsAlphab()).v("mdrm", {ho.getMDRMasses()(0), ho.getMDRMasses()(1)});
   std::vector<std::string> m;
   for (int i = 0; i < 4; i++) m.push_back(Obj::mat(ho.getDMh(i)));
   d.raw("mh", arr(m)).m("mdr", ho.getDMhDRbarPrimeToMDRbarPrimeShift()).m("h3m", ho.getDMhDRbarPrimeToH3mShift());
   d.v("unc", {0., ho.getDMhExpUncertainty(1), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3)});
   std::vector<double> l, s;
   for (int i = 0; i < 4; i++) { l.push_back(ho.getDLambda(i)); s.push_back(ho.getDLambdaDRbarPrimeToMSbarShift(i)); }
   d.v("lam", l).v("lamShift", s).v("lamUnc", {0., 0., 0., ho.getDLambdaUncertainty(3)}).v("eft", eft).v("fo", fo).v("at", at);
   j.raw("direct", d.done());
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   { // the banner, which is printed once per process, is none of this recorder's business
      Streams s;
      Parameters p = parse("scale 2000 mu 2000 g1 .46 g2 .65 g3 1.1 vd 12 vu 245 mq2.0 4e6 mq2.4 4e6 mq2.8 4e6 mu2.0 4e6 mu2.4 4e6 mu2.8 4e6 md2.0 4e6 md2.4 4e6 md2.8 4e6 ml2.0 4e6 ml2.4 4e6 ml2.8 4e6 me2.0 4e6 me2.4 4e6 me2.8 4e6 Yu.8 .86 MA 2000 M1 2000 M2 2000 MG 2000 Yd.8 .1 Ye.8 .1");
      try { HierarchyCalculator c(p, true); } catch (const std::exception&) {}
   }
   std::string line;
   while (std::getline(in, line)) {
      const auto sep = line.find('#');
      const Words w = words(line.substr(0, sep));
      const std::string point = sep == std::string::npos ? "" : line.substr(sep + 1);
      const std::string kind = w[0];
      StubLink link;
      link.fault = std::atol(w[1].c_str());
      const int n = I(w, 2);
      std::vector<double> reals;
      bool allreal = true;
      std::vector<T> items;
      std::vector<std::string> raw;
      for (int i = 0; i < n; i++) {
         const std::string& x = w.at(3 + i);
         if (x == "sym") { items.push_back({'S', "x", 0, 0}); allreal = false; raw.push_back("\"sym\""); }
         else if (x == "str") { items.push_back({'T', "x", 0, 0}); allreal = false; raw.push_back("\"str\""); }
         else { const double d = x == "nan" ? NAN : x == "inf" ? INFINITY : x == "-inf" ? -INFINITY : std::strtod(x.c_str(), nullptr); items.push_back({'R', "", 0, d}); reals.push_back(d); raw.push_back(num(d)); }
      }
      if (kind == "nohead") link.in = {{'S', "x", 0, 0}};
      else if (kind == "args0") link.in = {{'F', "List", 0, 0}};
      else if (kind == "args2") { link.in = {{'F', "List", 2, 0}}; for (int k = 0; k < 2; k++) { link.in.push_back({'F', "List", n, 0}); link.in.insert(link.in.end(), items.begin(), items.end()); } }
      else if (kind == "noinner") link.in = {{'F', "List", 1, 0}, {'R', "", 0, 1.}};
      else { link.in = {{'F', "List", 1, 0}, {'F', "List", n, 0}}; link.in.insert(link.in.end(), items.begin(), items.end()); }
      link.newpacket = kind != "nopacket";
      Obj j;
      j.t("event", "Request").t("kind", kind).i("n", n).b("allreal", allreal).i("fault", link.fault);
      j.raw("list", arr(raw));
      int rc = -99;
      bool thrown = false, intact;
      std::size_t co, ce;
      {
         Streams s;
         try { rc = HimalayaCalculateDMh3L(nullptr, &link); } catch (...) { thrown = true; }
         intact = s.intact();
         co = s.o.str().size();
         ce = s.e.str().size();
      }
      j.b("discarded", link.discarded).i("rc", rc).b("thrown", thrown).b("intact", intact).i("cout", co).i("cerr", ce).i("puts", link.puts).raw("out", tokens(link.out));
      const bool decodable = (kind == "list" || kind == "nopacket") && allreal && n >= 3;
      if (decodable && !point.empty()) { Streams s; himalaya::decoded(j, reals, 0); }
      if (decodable && !point.empty()) direct(j, point, reals[0] != 0, int(reals[1]), reals[2] != 0);
      out << j.done() << "\n";
   }
}
