// Shared by all harness programs: reading points, writing ndjson traces.
#pragma once
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace h {
using himalaya::Parameters;

inline std::string num(double x)
{
   if (std::isnan(x)) return "\"nan\"";
   if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
   char b[40];
   std::snprintf(b, sizeof b, "\"%.17g\"", x);
   return b;
}
inline std::string str(const std::string& s)
{
   std::string r = "\"";
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r + "\"";
}
/// JSON object under construction
struct Obj {
   std::string s = "{";
   Obj& raw(const std::string& k, const std::string& v) { if (s.size() > 1) s += ","; s += "\"" + k + "\":" + v; return *this; }
   Obj& f(const std::string& k, double v) { return raw(k, num(v)); }
   Obj& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
   Obj& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
   Obj& t(const std::string& k, const std::string& v) { return raw(k, str(v)); }
   template <class M> Obj& m(const std::string& k, const M& v) { return raw(k, mat(v)); }
   template <class V> Obj& v(const std::string& k, const V& x) { return raw(k, vec(x)); }
   Obj& v(const std::string& k, std::initializer_list<double> x) { return raw(k, vec(std::vector<double>(x))); }
   template <class M> static std::string mat(const M& v)
   {
      std::string r = "[";
      for (int i = 0; i < v.rows(); i++) {
         r += i ? ",[" : "[";
         for (int j = 0; j < v.cols(); j++) r += (j ? "," : "") + num(v(i, j));
         r += "]";
      }
      return r + "]";
   }
   template <class V> static std::string vec(const V& x)
   {
      std::string r = "[";
      for (int i = 0; i < static_cast<int>(x.size()); i++) r += (i ? "," : "") + num(x[i]);
      return r + "]";
   }
   std::string done() const { return s + "}"; }
};
inline std::string arr(const std::vector<std::string>& v)
{
   std::string r = "[";
   for (std::size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i];
   return r + "]";
}

/// all scalar slots of a parameter point by name ("mq2.8" is mq2(2,2), "MSt.0" is MSt(0))
inline std::vector<std::pair<std::string, double*>> slots(Parameters& p)
{
   std::vector<std::pair<std::string, double*>> r;
   auto s = [&](const char* n, double& x) { r.emplace_back(n, &x); };
   auto M = [&](const char* n, himalaya::RM33& m) { for (int i = 0; i < 9; i++) r.emplace_back(std::string(n) + "." + std::to_string(i), &m(i / 3, i % 3)); };
   auto V = [&](const char* n, himalaya::V2& m) { for (int i = 0; i < 2; i++) r.emplace_back(std::string(n) + "." + std::to_string(i), &m(i)); };
   s("scale", p.scale); s("mu", p.mu); s("g1", p.g1); s("g2", p.g2); s("g3", p.g3); s("vd", p.vd); s("vu", p.vu);
   M("mq2", p.mq2); M("md2", p.md2); M("mu2", p.mu2); M("ml2", p.ml2); M("me2", p.me2);
   M("Au", p.Au); M("Ad", p.Ad); M("Ae", p.Ae); M("Yu", p.Yu); M("Yd", p.Yd); M("Ye", p.Ye);
   s("M1", p.M1); s("M2", p.M2); s("MG", p.MG); s("MW", p.MW); s("MZ", p.MZ); s("Mt", p.Mt); s("Mb", p.Mb);
   s("Mtau", p.Mtau); s("MA", p.MA); V("MSt", p.MSt); V("MSb", p.MSb); V("MStau", p.MStau);
   s("s2t", p.s2t); s("s2b", p.s2b); s("s2tau", p.s2tau); s("theta_t", p.theta_t); s("theta_b", p.theta_b); s("theta_tau", p.theta_tau);
   return r;
}
inline void set(Parameters& p, const std::string& k, double v)
{
   for (auto& s : slots(p)) if (s.first == k) { *s.second = v; return; }
   throw std::logic_error("harness: unknown slot " + k);
}
inline double get(const Parameters& p, const std::string& k)
{
   for (auto& s : slots(const_cast<Parameters&>(p))) if (s.first == k) return *s.second;
   throw std::logic_error("harness: unknown slot " + k);
}
inline Parameters parse(const std::string& line)
{
   Parameters p;
   std::map<std::string, double*> m;
   for (auto& s : slots(p)) m[s.first] = s.second;
   std::istringstream is(line);
   std::string k, v;
   while (is >> k >> v) {
      if (k == "#") continue;
      auto it = m.find(k);
      if (it == m.end()) throw std::logic_error("harness: unknown slot " + k);
      *it->second = v == "nan" ? NAN : v == "inf" ? INFINITY : v == "-inf" ? -INFINITY : std::stod(v);
   }
   return p;
}
inline std::vector<Parameters> points(const std::string& file)
{
   std::vector<Parameters> r;
   std::ifstream f(file);
   std::string l;
   while (std::getline(f, l)) r.push_back(parse(l));
   return r;
}
inline bool same(const Parameters& a, const Parameters& b)
{
   auto x = slots(const_cast<Parameters&>(a)), y = slots(const_cast<Parameters&>(b));
   for (std::size_t i = 0; i < x.size(); i++)
      if (std::memcmp(x[i].second, y[i].second, sizeof(double)) && !(std::isnan(*x[i].second) && std::isnan(*y[i].second))) return false;
   return a.massLimit3LThreshold == b.massLimit3LThreshold;
}

/// a named result quantity with its mass dimension
struct Q { std::string n; double v; int dim; };
using QS = std::vector<Q>;
inline void addm(QS& q, const std::string& n, const Eigen::Matrix2d& m, int d)
{
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) q.push_back({n + "_" + char('0' + i) + char('0' + j), m(i, j), d});
}
inline QS flat(const himalaya::HierarchyObject& ho)
{
   QS q;
   q.push_back({"hierarchy", double(ho.getSuitableHierarchy()), 0});
   q.push_back({"isAlphab", double(ho.getIsAlphab()), 0});
   q.push_back({"AbsDiff2L", ho.getAbsDiff2L(), 1});
   q.push_back({"RelDiff2L", ho.getRelDiff2L(), 0});
   q.push_back({"MDRFlag", double(ho.getMDRFlag()), 0});
   q.push_back({"scheme", double(ho.getRenormalizationScheme()), 0});
   for (int i = 1; i <= 3; i++) q.push_back({"DMhExpUncertainty" + std::to_string(i), ho.getDMhExpUncertainty(i), 1});
   for (int i = 0; i <= 3; i++) addm(q, "DMh" + std::to_string(i), ho.getDMh(i), 2);
   addm(q, "shiftMDR", ho.getDMhDRbarPrimeToMDRbarPrimeShift(), 2);
   addm(q, "shiftH3m", ho.getDMhDRbarPrimeToH3mShift(), 2);
   q.push_back({"MDRMass0", ho.getMDRMasses()(0), 1});
   q.push_back({"MDRMass1", ho.getMDRMasses()(1), 1});
   q.push_back({"DLambdaEFT", ho.getDLambdaEFT(), 0});
   q.push_back({"DLambdaH3m", ho.getDLambdaH3m(), 0});
   q.push_back({"DLambdaNonLog", ho.getDLambdaNonLog(), 0});
   for (int i = 0; i <= 3; i++) {
      const auto s = std::to_string(i);
      q.push_back({"DLambda" + s, ho.getDLambda(i), 0});
      q.push_back({"DLambdaShift" + s, ho.getDLambdaDRbarPrimeToMSbarShift(i), 0});
      q.push_back({"DLambdaUnc" + s, ho.getDLambdaUncertainty(i), 0});
      q.push_back({"DMh2_" + s, ho.getDMh2(i), 2});
      q.push_back({"DMh2EFTAt" + s, ho.getDMh2EFTAt(i), 2});
      q.push_back({"DMh2FOAt" + s, ho.getDMh2FOAt(i), 2});
      q.push_back({"DMh2FO" + s, ho.getDMh2FO(i), 2});
   }
   return q;
}
/// order-sensitive digest of the exact bit patterns
struct Digest {
   std::uint64_t a = 1469598103934665603ull, b = 0x9E3779B97F4A7C15ull;
   void add(std::uint64_t x) { for (int i = 0; i < 8; i++) { a = (a ^ ((x >> 8 * i) & 255)) * 1099511628211ull; } b = (b ^ x) * 0xff51afd7ed558ccdull; b ^= b >> 29; }
   void add(double d) { if (std::isnan(d)) d = NAN; if (d == 0) d = 0.; std::uint64_t x; std::memcpy(&x, &d, 8); add(x); }
   void add(const std::string& s) { for (unsigned char c : s) add(std::uint64_t(c)); }
   template <class D> void addm(const Eigen::MatrixBase<D>& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) add(double(m(i, j))); }
   std::string hex() const { char s[40]; std::snprintf(s, sizeof s, "%016llx%016llx", (unsigned long long)a, (unsigned long long)b); return s; }
};
inline std::string digest(const himalaya::HierarchyObject& ho) { Digest d; for (auto& q : flat(ho)) d.add(q.v); return d.hex(); }
} // namespace h
