// Records tree-level spectra, spectra recalculated in parts, and diagonalisations of given matrices (see spec/SpectrumTrace.tla).
// usage: spectrum IN OUT
// IN: "ops|name|op ...|point@point@..."    op: a sector, "all" or "par:k"
//     "spec|name|point"
//     "lin|name|kind|n|entry ..."          kind: herm, sym, symc (complex: real and imaginary parts), svd, svdc
#include "ops.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include <complex>
#include <memory>
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
using S = mh2_fo::MSSM_spectrum;
using E = mh2_fo::MSSM_mass_eigenstates;
struct Sector { const char* name; void (S::*calc)(); std::function<std::vector<double>(const S&)> w; std::function<std::string(const S&)> z, m; std::function<std::vector<double>(const S&)> flat; };
template <class V> std::vector<double> vec(const V& v) { std::vector<double> r; for (int i = 0; i < v.size(); i++) r.push_back(v(i)); return r; }
template <class M> void append(std::vector<double>& r, const M& m) { for (int i = 0; i < m.rows(); i++) for (int k = 0; k < m.cols(); k++) r.push_back(m(i, k)); }
const std::vector<Sector>& sectors()
{
#define ONE(N, F) {#N, &S::calculate_M##N, [](const S& s) { return std::vector<double>{s.F}; }, nullptr, nullptr, [](const S& s) { return std::vector<double>{s.F}; }}
#define TWO(N, F, Z) {#N, &S::calculate_M##N, [](const S& s) { return vec(s.F); }, [](const S& s) { return Obj::mat(s.Z); }, [](const S& s) { return Obj::mat(s.get_mass_matrix_##N()); }, [](const S& s) { auto r = vec(s.F); append(r, s.Z); return r; }}
   static const std::vector<Sector> v{
      ONE(VZ, M2VZ), ONE(VWm, M2VWm), ONE(Ft, MFt), ONE(Fb, MFb), ONE(Ftau, MFtau), ONE(SveL, M2SveL), ONE(SvmL, M2SvmL), ONE(SvtL, M2SvtL),
      TWO(Su, M2Su, ZU), TWO(Sd, M2Sd, ZD), TWO(Sc, M2Sc, ZC), TWO(Ss, M2Ss, ZS), TWO(St, M2St, ZT), TWO(Sb, M2Sb, ZB), TWO(Se, M2Se, ZE), TWO(Sm, M2Sm, ZM), TWO(Stau, M2Stau, ZTau),
      TWO(hh, M2hh, ZH), {"Ah", &S::calculate_MAh, [](const S& s) { return vec(s.M2Ah); }, [](const S& s) { return Obj::mat(s.ZA); }, [](const S& s) { return Obj::mat(s.get_mass_matrix_Ah()); }, [](const S& s) { auto r = vec(s.M2Ah); append(r, s.ZA); return r; }},
      TWO(Hpm, M2Hpm, ZP), TWO(Chi, MChi, ZN),
      {"Cha", &S::calculate_MCha, [](const S& s) { return vec(s.MCha); }, [](const S& s) { return Obj::mat(s.UM); }, [](const S& s) { return Obj::mat(s.get_mass_matrix_Cha()); }, [](const S& s) { auto r = vec(s.MCha); append(r, s.UM); append(r, s.UP); return r; }}};
   return v;
}
bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0; }
std::string pars(const Parameters& p)
{
   auto d = [](const RM33& m) { return std::vector<double>{m(0, 0), m(1, 1), m(2, 2)}; };
   Obj j;
   j.f("g1", p.g1).f("g2", p.g2).f("vu", p.vu).f("vd", p.vd).f("mu", p.mu).f("MA", p.MA).f("M1", p.M1).f("M2", p.M2);
   j.f("Yt", p.Yu(2, 2)).f("Yb", p.Yd(2, 2)).f("Ytau", p.Ye(2, 2)).f("Au", p.Au(2, 2)).f("Ad", p.Ad(2, 2)).f("Ae", p.Ae(2, 2));
   j.v("mq2", d(p.mq2)).v("mu2", d(p.mu2)).v("md2", d(p.md2)).v("ml2", d(p.ml2)).v("me2", d(p.me2));
   return j.done();
}
void record(std::ostream& out, const std::string& name, const char* kind, const S& s, const Parameters& p)
{
   Obj j, x;
   j.t("event", "Spectrum").t("name", name).t("kind", kind).raw("par", pars(p));
   for (auto& c : sectors()) {
      Obj y;
      y.v("w", c.w(s));
      if (c.z) y.raw("z", c.z(s)).raw("m", c.m(s));
      if (std::string(c.name) == "Cha") y.m("u", s.UP);
      x.raw(c.name, y.done());
   }
   out << j.raw("sec", x.done()).done() << "\n";
}
template <int N> void lin(Obj& j, const std::string& kind, const std::vector<double>& e)
{
   using R = Eigen::Matrix<double, N, N>;
   using C = Eigen::Matrix<std::complex<double>, N, N>;
   const bool cplx = kind.back() == 'c';
   R re, im;
   for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) { re(i, k) = e[i * N + k]; im(i, k) = cplx ? e[N * N + i * N + k] : 0; }
   C m;
   m.real() = re; m.imag() = im;
   Eigen::Array<double, N, 1> w, w2;
   C z, u = C::Zero();
   if (kind == "herm") {
      R zr;
      fs_diagonalize_hermitian(re, w, zr);
      z = zr.template cast<std::complex<double>>();
      fs_diagonalize_hermitian(re, w2);
   } else if (kind == "sym") {
      fs_diagonalize_symmetric(re, w, z);
      fs_diagonalize_symmetric(re, w2);
   } else if (kind == "svd") {
      R a, b;
      fs_svd(re, w, a, b);
      z = a.template cast<std::complex<double>>();
      u = b.template cast<std::complex<double>>();
      fs_svd(re, w2);
   } else if (kind == "svdc") {
      fs_svd(m, w, z, u);
      fs_svd(m, w2);
   } else {
      fs_diagonalize_symmetric(m, w, z);
      fs_diagonalize_symmetric(m, w2);
   }
   j.raw("m", Obj::mat(re)).raw("mi", Obj::mat(im)).v("w", vec(w)).v("w2", vec(w2));
   R a = z.real(), b = z.imag(), c = u.real(), d = u.imag();
   j.raw("z", Obj::mat(a)).raw("zi", Obj::mat(b)).raw("u", Obj::mat(c)).raw("ui", Obj::mat(d));
}
}
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      const auto f = parts(line, '|');
      if (f[0] == "ops") {
         std::vector<Parameters> p;
         std::vector<S> fresh;
         for (auto& x : parts(f[3], '@')) { p.push_back(parse(x)); fresh.emplace_back(p.back()); }
         S s(p[0]);
         std::vector<std::string> ev;
         for (auto& o : words(f[2])) {
            int par = 0;
            if (o.compare(0, 4, "par:") == 0) { par = std::stoi(o.substr(4)); s.pars = p[par - 1]; }
            else if (o == "all") s.calculate_spectrum();
            else for (auto& c : sectors()) if (o == c.name) (s.*c.calc)();
            Obj k;
            for (auto& c : sectors()) {
               std::string r;
               for (std::size_t i = 0; i < p.size(); i++) if (same(c.flat(s), c.flat(fresh[i]))) r += (r.empty() ? "" : ",") + std::to_string(i + 1);
               k.raw(c.name, "[" + r + "]");
            }
            Obj q;
            q.t("op", par ? "par" : o).i("p", par).raw("match", k.done());
            ev.push_back(q.done());
         }
         Obj j;
         j.t("event", "Ops").t("name", f[1]).raw("ops", arr(ev));
         out << j.done() << "\n";
      } else if (f[0] == "spec") {
         const auto p = parse(f[2]);
         record(out, f[1], "full", S(p), p);
         E full(p);
         auto gl = p;
         gl.g1 = gl.g2 = 0;
         record(out, f[1], "full", full.masses, p);
         record(out, f[1], "gaugeless", full.gaugeless, gl);
         std::unique_ptr<E> at;
         try { at.reset(new E(p, true)); } catch (const std::exception&) {} // rejected as unphysical (C05)
         if (at) {
            record(out, f[1], "gaugeless", at->gaugeless, gl);
            record(out, f[1], "third", at->masses, gl);
         }
      } else {
         Obj j;
         j.t("event", "Linear").t("name", f[1]).t("kind", f[2]);
         std::vector<double> e;
         for (auto& x : words(f[4])) e.push_back(std::strtod(x.c_str(), nullptr));
         const int n = std::stoi(f[3]);
         if (n == 2) lin<2>(j, f[2], e);
         else if (n == 3) lin<3>(j, f[2], e);
         else lin<4>(j, f[2], e);
         out << j.done() << "\n";
      }
   }
}
