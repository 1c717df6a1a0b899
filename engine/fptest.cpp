// self-test: the bit-vector lowering of floating-point operations against the hardware
#include <cstdio>
#include <cstdlib>
#include "expr.h"
static u64 rnd() { static u64 s = 88172645463325252ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static u64 rf(unsigned w) { FpF f = fpf(w); u64 x = rnd() & maskw(w); switch (rnd() % 7) { case 0: return x; case 1: return (x & ~fInf(w)); case 2: return x | fInf(w); 
	case 3: return (x & (maskw(f.mb) | 1ull << (w - 1))) | ((f.bias + rnd() % 70 - 3) << f.mb); case 4: { u64 i = rnd() >> (rnd() % 64); i = rnd() & 1 ? i : 0 - i; return w == 64 ? bD((double)(i64)i) : bF((float)(i64)i); }
	case 5: return w == 64 ? bD((double)(i64)(rnd() % 33) / 4 - 4) : bF((float)(i64)(rnd() % 33) / 4 - 4); default: return (rnd() & 1) << (w - 1); } }
static bool nan(u64 x, unsigned w) { return (x & maskw(w - 1)) > fInf(w); }
int main()
{
	Ex *a32 = mkVar(0, 0, 32), *b32 = mkVar(0, 1, 32), *a64 = mkVar(0, 2, 64), *b64 = mkVar(0, 3, 64);
	struct T { Op op; unsigned w; Ex *a, *b; u32 aux; }; std::vector<T> ts;
	for (int i = 0; i < 2; i++) { Ex *a = i ? a64 : a32, *b = i ? b64 : b32; for (Op o : {O_FEQ, O_FLT, O_FLE}) ts.push_back({o, 1, a, b, 0});
		for (unsigned w : {8u, 16u, 32u, 64u}) { ts.push_back({O_FTOSI, w, a, 0, 0}); ts.push_back({O_FTOUI, w, a, 0, 0}); }
		for (u32 x : {1u, 2u, 3u}) ts.push_back({O_FRND, (unsigned)a->w, a, 0, x}); }
	ts.push_back({O_FEXT, 64, a32, 0, 0});
	for (unsigned w : {32u, 64u}) for (Ex* a : {a32, a64}) { ts.push_back({O_SITOF, w, a, 0, 0}); ts.push_back({O_UITOF, w, a, 0, 0}); }
	int bad = 0;
	for (auto& t : ts) { Ex* e = xFp(t.op, t.w, t.a, t.b, t.aux);
		bool isInt = t.op == O_SITOF || t.op == O_UITOF;
		for (int n = 0; n < 20000; n++) { Model m(4); unsigned w = t.a->w; u64 x = isInt ? (rnd() & maskw(w)) >> (rnd() % w) : rf(w), y = rnd() % 3 ? rf(w) : x;
			if (isInt && (rnd() & 1)) x = (0 - x) & maskw(w);
			m[t.a->aux] = x; if (t.b) m[t.b->aux] = y; g_stamp++; u64 r = evalRec(e, m); u64 q = evalOp(t.op, t.w, t.aux, w, x, y, 0);
			if (r != q && !((t.op == O_FRND || t.op == O_FEXT) && nan(r, t.w) && nan(q, t.w))) { if (bad++ < 20) printf("op %d w %u aux %u x %llx y %llx: %llx want %llx\n", t.op, t.w, t.aux, (unsigned long long)x, (unsigned long long)y, (unsigned long long)r, (unsigned long long)q); break; } } }
	printf("%zu operations, %d wrong\n", ts.size(), bad); return bad != 0;
}
