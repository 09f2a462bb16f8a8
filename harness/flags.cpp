// Records sessions with the switches of coupling orders (see spec/FlagsTrace.tla).
// usage: flags IN OUT   IN: "point <json>", "kind eft|fo|foat arg", "new", "s o v", "a v", "e n"
#include "ops.hpp"
using namespace h;
int main(int, char** argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line, kind;
   Parameters p;
   int sm = 1;
   Any x;
   const int N = CouplingOrders::NUMBER_OF_COUPLING_ORDERS;
   const int AtAs = CouplingOrders::ONLY_AT_AS;
   auto loops = [&] { return 4; };
   auto ev = [&](Any& a, int n) {
      const std::string s = std::to_string(sm);
      if (a.eft) return a.eval(n == 0 ? "0" : std::to_string(n) + " " + s + " 1" + (n == 3 ? " 1" : ""));
      if (n == 0) return a.eval("m");
      if (n == 1) return a.eval("d1");
      if (n == 2) { auto v = a.eval("d2"); const auto t = a.eval("mh2"); v.push_back(t[2]); return v; }
      return std::vector<double>{};
   };
   auto off = [&](Any& a, int mode) { for (int i = 0; i < N; i++) a.set(std::to_string(i), i == AtAs ? (mode ? "1" : "0") : "0"); };
   while (std::getline(in, line)) {
      const Words w = words(line);
      Obj j;
      if (w[0] == "point") {
         p = parse(line.substr(6));
         p.validate(false);
         continue;
      }
      if (w[0] == "kind") {
         kind = w[1];
         sm = I(w, 2);
         const int modes = kind == "eft" ? 1 : 2;
         std::vector<std::string> B, O;
         for (int m = 0; m < modes; m++) {
            Any b(kind, p);
            off(b, m);
            std::vector<std::string> v, os;
            for (int n = 0; n < loops(); n++) v.push_back(Obj::vec(ev(b, n)));
            B.push_back(arr(v));
            for (int o = 0; o < N - 1; o++) {
               Any a(kind, p);
               off(a, m);
               a.set(std::to_string(o), "1");
               std::vector<std::string> q;
               for (int n = 0; n < loops(); n++) q.push_back(Obj::vec(ev(a, n)));
               os.push_back(arr(q));
            }
            O.push_back(arr(os));
         }
         j.t("event", "Units").t("kind", kind).raw("base", arr(B)).raw("one", arr(O));
      } else if (w[0] == "new") {
         x = Any(kind, p);
         j.t("event", "New");
      } else if (w[0] == "s") {
         std::ostringstream msg;
         auto* old = std::cerr.rdbuf(msg.rdbuf());
         x.set(w[1], w[2]);
         std::cerr.rdbuf(old);
         j.t("event", "Switch").i("o", I(w, 1)).i("v", I(w, 2)).i("msgs", long(!msg.str().empty()));
      } else if (w[0] == "a") {
         for (int i = 0; i < N; i++) x.set(std::to_string(i), i == AtAs ? "0" : w[1]);
         j.t("event", "All").i("v", I(w, 1));
      } else {
         j.t("event", "Eval").i("n", I(w, 1)).v("val", ev(x, I(w, 1)));
      }
      out << j.done() << "\n";
   }
}
