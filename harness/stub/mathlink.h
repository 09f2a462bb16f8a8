// Stand-in for the MathLink SDK: a link which plays back an incoming expression and records the outgoing one
// in canonical form (arrays are written as nested lists).
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
struct StubLink {
   struct Tok { char kind; std::string s; long n; double r; }; // F(unction) S(ymbol) T(ext) I(nteger) R(eal) E(nd of packet)
   std::vector<Tok> in, out;
   std::size_t pos = 0;
   long fault = -1;        // number of outgoing calls after which the link is dead
   bool newpacket = true;  // does MLNewPacket succeed?
   bool discarded = false;
   long puts = 0;
   int err = 0;
   bool alive() { if (fault >= 0 && puts >= fault) { err = 1; return false; } ++puts; return true; }
   int put(char k, const std::string& s, long n, double r) { if (!alive()) return 0; out.push_back({k, s, n, r}); return 1; }
};
typedef StubLink* MLINK;
typedef long long mlint64;
typedef long long wsint64;
inline int MLPutSymbol(MLINK l, const char* s) { return l->put('S', s, 0, 0); }
inline int MLPutUTF8Symbol(MLINK l, const unsigned char* s, int n) { return l->put('S', std::string(reinterpret_cast<const char*>(s), n), 0, 0); }
inline int MLPutString(MLINK l, const char* s) { return l->put('T', s, 0, 0); }
inline int MLPutUTF8String(MLINK l, const unsigned char* s, int n) { return l->put('T', std::string(reinterpret_cast<const char*>(s), n), 0, 0); }
inline int MLPutByteString(MLINK l, const unsigned char* s, int n) { return MLPutUTF8String(l, s, n); }
inline int MLPutFunction(MLINK l, const char* s, int n) { return l->put('F', s, n, 0); }
inline int MLPutUTF8Function(MLINK l, const unsigned char* s, int k, int n) { return l->put('F', std::string(reinterpret_cast<const char*>(s), k), n, 0); }
inline int MLPutInteger(MLINK l, int i) { return l->put('I', "", i, 0); }
inline int MLPutInteger16(MLINK l, int i) { return l->put('I', "", i, 0); }
inline int MLPutInteger32(MLINK l, int i) { return l->put('I', "", i, 0); }
inline int MLPutInteger64(MLINK l, mlint64 i) { return l->put('I', "", long(i), 0); }
inline int MLPutLongInteger(MLINK l, long i) { return l->put('I', "", i, 0); }
inline int MLPutReal(MLINK l, double r) { return l->put('R', "", 0, r); }
inline int MLPutReal64(MLINK l, double r) { return l->put('R', "", 0, r); }
inline int MLPutDouble(MLINK l, double r) { return l->put('R', "", 0, r); }
template <class D> int stub_array(MLINK l, const double*& a, const D* dims, int depth)
{
   if (depth == 0) { l->out.push_back({'R', "", 0, *a++}); return 1; }
   l->out.push_back({'F', "List", long(dims[0]), 0});
   for (D i = 0; i < dims[0]; i++) stub_array(l, a, dims + 1, depth - 1);
   return 1;
}
inline int MLPutDoubleArray(MLINK l, double* a, long* dims, char**, int depth) { if (!l->alive()) return 0; const double* p = a; return stub_array(l, p, dims, depth); }
inline int MLPutRealArray(MLINK l, double* a, long* dims, char** h, int depth) { return MLPutDoubleArray(l, a, dims, h, depth); }
inline int MLPutReal64Array(MLINK l, const double* a, const int* dims, const char**, int depth) { if (!l->alive()) return 0; return stub_array(l, a, dims, depth); }
inline int MLPutRealList(MLINK l, double* a, long n) { return MLPutDoubleArray(l, a, &n, nullptr, 1); }
inline int MLPutReal64List(MLINK l, const double* a, int n) { return MLPutReal64Array(l, a, &n, nullptr, 1); }
inline int MLPutInteger32List(MLINK l, const int* a, int n) { if (!l->alive()) return 0; l->out.push_back({'F', "List", n, 0}); for (int i = 0; i < n; i++) l->out.push_back({'I', "", a[i], 0}); return 1; }
inline int MLEndPacket(MLINK l) { return l->put('E', "", 0, 0); }
inline int MLFlush(MLINK) { return 1; }
inline int MLError(MLINK l) { return l->err; }
inline int MLClearError(MLINK l) { l->err = 0; return 1; }
inline int MLReady(MLINK l) { return l->pos < l->in.size(); }
inline const char* MLErrorMessage(MLINK l) { return l->err ? "link error" : "ok"; }
inline int MLTestHead(MLINK l, const char* s, int* n)
{
   if (l->pos >= l->in.size() || l->in[l->pos].kind != 'F' || l->in[l->pos].s != s) { l->err = 1; return 0; }
   *n = int(l->in[l->pos++].n);
   return 1;
}
inline int MLCheckFunction(MLINK l, const char* s, long* n) { int k = 0; if (!MLTestHead(l, s, &k)) return 0; *n = k; return 1; }
inline int MLTestHeadWithArgCount(MLINK l, const char* s, int* n) { if (l->pos >= l->in.size() || l->in[l->pos].kind != 'F' || l->in[l->pos].s != s || l->in[l->pos].n != *n) { l->err = 1; return 0; } l->pos++; return 1; }
inline int MLCheckFunctionWithArgCount(MLINK l, const char* s, long* n) { int k = int(*n); return MLTestHeadWithArgCount(l, s, &k); }
inline int MLGetReal64(MLINK l, double* r)
{
   if (l->pos >= l->in.size() || (l->in[l->pos].kind != 'R' && l->in[l->pos].kind != 'I')) { l->err = 1; return 0; }
   *r = l->in[l->pos++].r;
   return 1;
}
inline int MLGetReal(MLINK l, double* r) { return MLGetReal64(l, r); }
inline int MLGetDouble(MLINK l, double* r) { return MLGetReal64(l, r); }
inline int MLGetReal64List(MLINK l, double** a, int* n)
{
   const std::size_t old = l->pos;
   if (!MLTestHead(l, "List", n)) return 0;
   *a = new double[*n > 0 ? *n : 1];
   for (int i = 0; i < *n; i++) if (!MLGetReal64(l, *a + i)) { delete[] *a; l->pos = old; return 0; }
   return 1;
}
inline void MLReleaseReal64List(MLINK, double* a, int) { delete[] a; }
inline int MLNewPacket(MLINK l) { if (!l->newpacket) { l->err = 1; return 0; } l->pos = l->in.size(); l->discarded = true; return 1; }
inline int MLNextPacket(MLINK) { return 0; }
enum { MLTKINT = '+', MLTKREAL = '*', MLTKFUNC = 'F', MLTKSYM = 35, MLTKSTR = '"', MLTKERR = 0 };
inline int MLGetNext(MLINK l) { if (l->pos >= l->in.size()) return MLTKERR; switch (l->in[l->pos].kind) { case 'F': return MLTKFUNC; case 'R': return MLTKREAL; case 'I': return MLTKINT; case 'S': return MLTKSYM; default: return MLTKSTR; } }
inline int MLGetType(MLINK l) { return MLGetNext(l); }
