// Records the fixed-order calculation of the Higgs mass in all modes (see spec/MomItTrace.tla).
// usage: momit IN OUT    IN: "P|name|precision|maximum|point" "D|name|m0 m1 m2 m3 (3 numbers each)"
#include "ops.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
using namespace h;
namespace {
std::vector<std::string> parts(const std::string& s) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, '|')) r.push_back(x); return r; }
std::vector<double> flat3(const Eigen::Matrix2d& m) { return {m(0, 0), 0.5 * (m(0, 1) + m(1, 0)), m(1, 1)}; }
bool symmetric(const Eigen::Matrix2d& m) { return std::abs(m(0, 1) - m(1, 0)) <= 1e-12 * m.norm(); }
// eigenvalue of smaller magnitude of {{a, b}, {b, d}}
double small(const std::vector<double>& m)
{
   const double t = 0.5 * (m[0] + m[2]), r = std::hypot(0.5 * (m[0] - m[2]), m[1]);
   const double big = t >= 0 ? t + r : t - r;
   return big == 0 ? 0 : (m[0] * m[2] - m[1] * m[1]) / big;
}
std::string v(const std::vector<double>& x) { return Obj::vec(x); }
double sqr(double x) { return x * x; }
using F = mh2_fo::MSSM_mass_eigenstates;
using M = mh2_fo::Momentum_iteration;
using D = mh2_fo::Diagonalization;
}
int main(int argc, char** argv)
{
   if (argc < 3) return 77;
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      if (line.empty()) continue;
      const auto f = parts(line);
      if (f[0] == "D") {
         const auto w = words(f[2]);
         std::vector<Eigen::Matrix2d> m(4);
         for (int i = 0; i < 4; i++) { const double a = std::stod(w.at(3 * i)), b = std::stod(w.at(3 * i + 1)), d = std::stod(w.at(3 * i + 2)); m[i] << a, b, b, d; }
         const auto t = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2], m[3]);
         std::vector<std::string> ms, ls;
         for (auto& x : m) ms.push_back(v(flat3(x)));
         ls = {v({std::get<0>(t)(0), std::get<0>(t)(1)}), v({std::get<1>(t)(0), std::get<1>(t)(1)}), v({std::get<2>(t)(0), std::get<2>(t)(1)}), v({std::get<3>(t)(0), std::get<3>(t)(1)})};
         Eigen::Matrix<double, 2, 1> val;
         Eigen::Array<double, 2, 1> val2;
         Eigen::Matrix2d z;
         fs_diagonalize_hermitian(m[0], val2, z);
         out << Obj().t("event", "Diag").t("name", f[1]).raw("m", arr(ms)).raw("l", arr(ls)).v("w", {val2(0), val2(1)}).v("z", {z(0, 0), z(0, 1), z(1, 0), z(1, 1)}).done() << "\n";
         continue;
      }
      Parameters p = parse(f.at(4));
      try { p.validate(false); }
      catch (const std::exception&) { out << Obj().t("event", "Tachyonic").t("name", f[1]).done() << "\n"; continue; }
      const double prec = std::stod(f[2]);
      const int max = std::stoi(f[3]);
      F fo(p, false);
      const auto m0 = flat3(fo.get_mass_matrix_hh()), m0gl = flat3(fo.get_mass_matrix_hh_gaugeless());
      // the orbit of the momentum iteration
      std::vector<std::string> ps, ds;
      std::vector<double> pv;
      double p2 = small(m0);
      for (int n = 0; n < max + 1; n++) { // the orbit ends early at a fixed point
         const auto d = flat3(fo.delta_mh2_1loop(p2));
         pv.push_back(p2);
         ds.push_back(v(d));
         const double next = small({m0[0] + d[0], m0[1] + d[1], m0[2] + d[2]});
         if (std::abs(next - p2) <= 1e-15 * std::abs(p2)) break;
         p2 = next;
      }
      std::vector<std::string> modes;
      for (int it = 0; it < 3; it++) for (int dg = 0; dg < 2; dg++) {
         fo.set_mom_it(it == 0 ? M::off : it == 1 ? M::pert : M::num, prec, max);
         fo.set_diagonalization(dg == 0 ? D::pert : D::num);
         const auto t = fo.calculate_Mh2();
         const auto d2 = fo.delta_mh2_2loop();
         modes.push_back(Obj().t("it", it == 0 ? "off" : it == 1 ? "pert" : "num").t("dg", dg == 0 ? "pert" : "num").v("m", {std::get<0>(t), std::get<1>(t), std::get<2>(t)}).v("d2", flat3(d2)).b("sym", symmetric(d2)).done());
      }
      const double h = 4;
      // the two-loop corrections themselves, with the arguments the spec derives from the point
      using namespace mh2l;
      const double mt2 = sqr(p.Yu(2, 2) * p.vu) / 2, mb2 = sqr(p.Yd(2, 2) * p.vd) / 2, ml2 = sqr(p.Ye(2, 2) * p.vd) / 2;
      const double t1 = sqr(p.MSt(0)), t2 = sqr(p.MSt(1)), b1 = sqr(p.MSb(0)), b2 = sqr(p.MSb(1)), l1 = sqr(p.MStau(0)), l2 = sqr(p.MStau(1)), sv = p.ml2(2, 2);
      const double st = std::sin(p.theta_t), ct = std::cos(p.theta_t), sb = std::sin(p.theta_b), cb = std::cos(p.theta_b), sl = std::sin(p.theta_tau), cl = std::cos(p.theta_tau);
      const double q = sqr(p.scale), mu = -p.mu, tb = p.vu / p.vd, vv = sqr(p.vu) + sqr(p.vd), A = sqr(p.MA);
      const std::vector<std::string> two = {
         v(flat3(delta_mh2_2loop_at_as(mt2, p.MG, t1, t2, st, ct, q, mu, tb, vv, p.g3, 1))),
         v(flat3(delta_mh2_2loop_ab_as(mb2, p.MG, b1, b2, sb, cb, q, mu, 1 / tb, vv, p.g3, 1))),
         v(flat3(delta_mh2_2loop_at_at(mt2, mb2, A, t1, t2, b1, b2, st, ct, sb, cb, q, mu, tb, vv, 1, 0))),
         v(flat3(delta_mh2_2loop_atau_atau(ml2, A, sv, l1, l2, sl, cl, q, mu, tb, vv, 1))),
         v(flat3(delta_mh2_2loop_ab_atau(ml2, mb2, l1, l2, b1, b2, sl, cl, sb, cb, q, mu, tb, vv, 1)))};
      Obj o;
      o.t("event", "Modes").t("name", f[1]).t("prec", f[2]).i("max", max).v("m0", m0).v("m0gl", m0gl).v("p", pv).raw("d", arr(ds)).raw("modes", arr(modes));
      o.v("gl", flat3(fo.delta_mh2_1loop_gaugeless())).v("deriv", flat3(fo.delta_mh2_1loop_gaugeless_deriv())).v("pert", flat3(fo.delta_mh2_2loop_mom_it_pert()));
      o.v("num", flat3(fo.delta_mh2_2loop_mom_it_num(prec, max))).v("zero", flat3(fo.delta_mh2_1loop(0))).v("h", {h}).v("one", flat3(fo.delta_mh2_1loop(h))).v("twice", flat3(fo.delta_mh2_1loop(2 * h)));
      o.raw("two", arr(two)).v("g", {p.g1, p.g2, p.Mt, p.Mb, p.Mtau});
      out << o.done() << "\n";
   }
}
