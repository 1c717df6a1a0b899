// Hash-consed bit-vector expressions: construction with local simplification, evaluation
// under a model, and translation to Z3.  Width 1..64.  Floats are carried as their bits.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <string>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_UMULOV, O_SMULOV,
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FEQ, O_FLT, O_FLE, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FEXT, O_FTRUNC, O_FRND };

typedef std::vector<u32> VarVec;
struct Ex { Op op; u8 w; u32 aux; u32 id; u64 c; Ex* k[3]; const VarVec* vs; Z3_ast z; u64 stamp; u64 val; };

struct VarInfo { u8 w; u8 kind; u32 ord; };  // kind 0: input, 1: uninitialised memory
static std::vector<VarInfo> g_vars;
static std::map<std::tuple<int,u32,int>, Ex*> g_varmap;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

struct ExHash { size_t operator()(const Ex* e) const {
	u64 h = e->op * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 32) ^ e->aux * 0xC2B2AE3D27D4EB4Full ^ e->c * 0x165667B19E3779F9ull;
	for (int i = 0; i < 3; i++) { h = (h ^ (u64)e->k[i]) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
	return h; } };
struct ExEq { bool operator()(const Ex* a, const Ex* b) const {
	return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
static std::unordered_set<Ex*, ExHash, ExEq> g_ex;
static u32 g_exid = 0;
static const VarVec* g_emptyvs = new VarVec();
static std::map<VarVec, const VarVec*> g_vsintern;
static std::map<std::pair<const VarVec*, const VarVec*>, const VarVec*> g_vsunion;
static const VarVec* vsIntern(const VarVec& v) { if (v.empty()) return g_emptyvs; auto it = g_vsintern.find(v); if (it != g_vsintern.end()) return it->second; auto* n = new VarVec(v); g_vsintern[v] = n; return n; }
static const VarVec* vsUnion(const VarVec* a, const VarVec* b) {
	if (a == b || b->empty()) return a; if (a->empty()) return b;
	if (a > b) std::swap(a, b);
	auto key = std::make_pair(a, b); auto it = g_vsunion.find(key); if (it != g_vsunion.end()) return it->second;
	VarVec r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
	auto* n = vsIntern(r); g_vsunion[key] = n; return n; }

static Ex* mk(Op op, unsigned w, Ex* a = 0, Ex* b = 0, Ex* d = 0, u32 aux = 0, u64 c = 0) {
	Ex t; t.op = op; t.w = w; t.aux = aux; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
	auto it = g_ex.find(&t); if (it != g_ex.end()) return *it;
	Ex* n = new Ex(t); n->id = g_exid++; n->z = 0; n->stamp = 0; n->val = 0;
	const VarVec* vs = g_emptyvs; for (int i = 0; i < 3; i++) if (n->k[i]) vs = vsUnion(vs, n->k[i]->vs);
	n->vs = vs; g_ex.insert(n); return n; }
static Ex* K(u64 c, unsigned w) { return mk(O_CONST, w, 0, 0, 0, 0, c & maskw(w)); }
static inline bool isK(const Ex* e) { return e->op == O_CONST; }
static Ex* mkVar(int kind, u32 ord, unsigned w) {
	auto key = std::make_tuple(kind, ord, (int)w); auto it = g_varmap.find(key); if (it != g_varmap.end()) return it->second;
	u32 id = g_vars.size(); g_vars.push_back({(u8)w, (u8)kind, ord});
	Ex* e = mk(O_VAR, w, 0, 0, 0, id); e->vs = vsIntern(VarVec{id}); g_varmap[key] = e; return e; }

// ---- concrete semantics -------------------------------------------------------------
static double fD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static float fF(u64 b) { u32 x = b; float f; memcpy(&f, &x, 4); return f; }
static u64 bD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u64 bF(float f) { u32 b; memcpy(&b, &f, 4); return b; }
static u64 evalOp(Op op, unsigned w, u32 aux, unsigned wa, u64 a, u64 b, u64 d, unsigned wb = 0) {
	u64 m = maskw(w);
	switch (op) {
	case O_ADD: return (a + b) & m; case O_MUL: return (a * b) & m;
	case O_UDIV: return b ? (a / b) & m : m;
	case O_SDIV: { i64 x = sx(a, wa), y = sx(b, wa); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u64)(0 - (u64)x) & m; return (u64)(x / y) & m; }
	case O_UREM: return b ? (a % b) & m : a;
	case O_SREM: { i64 x = sx(a, wa), y = sx(b, wa); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
	case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
	case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
	case O_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
	case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
	case O_SLT: return sx(a, wa) < sx(b, wa); case O_SLE: return sx(a, wa) <= sx(b, wa);
	case O_ITE: return a ? b : d;
	case O_CONCAT: return ((a << wb) | b) & m;
	case O_EXTRACT: return (a >> aux) & m;
	case O_ZEXT: return a; case O_SEXT: return (u64)sx(a, wa) & m;
	case O_UMULOV: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> wa) != 0; }
	case O_SMULOV: { __int128 p = (__int128)sx(a, wa) * sx(b, wa); i64 lo = sx((u64)p & maskw(wa), wa); return p != (__int128)lo; }
	case O_FADD: return w == 64 ? bD(fD(a) + fD(b)) : bF(fF(a) + fF(b));
	case O_FSUB: return w == 64 ? bD(fD(a) - fD(b)) : bF(fF(a) - fF(b));
	case O_FMUL: return w == 64 ? bD(fD(a) * fD(b)) : bF(fF(a) * fF(b));
	case O_FDIV: return w == 64 ? bD(fD(a) / fD(b)) : bF(fF(a) / fF(b));
	case O_FSQRT: return w == 64 ? bD(sqrt(fD(a))) : bF(sqrtf(fF(a)));
	case O_FEQ: return wa == 64 ? fD(a) == fD(b) : fF(a) == fF(b);
	case O_FLT: return wa == 64 ? fD(a) < fD(b) : fF(a) < fF(b);
	case O_FLE: return wa == 64 ? fD(a) <= fD(b) : fF(a) <= fF(b);
	case O_FTOSI: { double x = wa == 64 ? fD(a) : fF(a); if (!(x > -9223372036854777856.0 && x < 9223372036854775808.0)) return (1ull << (w - 1)); return (u64)(i64)x & m; }
	case O_FTOUI: { double x = wa == 64 ? fD(a) : fF(a); if (!(x > -1.0 && x < 18446744073709551616.0)) return 0; return (u64)x & m; }
	case O_SITOF: return w == 64 ? bD((double)sx(a, wa)) : bF((float)sx(a, wa));
	case O_UITOF: return w == 64 ? bD((double)a) : bF((float)a);
	case O_FEXT: return bD((double)fF(a)); case O_FTRUNC: return bF((float)fD(a));
	case O_FRND: { double x = wa == 64 ? fD(a) : fF(a); double r = aux == 0 ? nearbyint(x) : aux == 1 ? ceil(x) : aux == 2 ? floor(x) : trunc(x); return w == 64 ? bD(r) : bF((float)r); }
	default: abort(); } }

// ---- simplifying constructors ---------------------------------------------------------
static Ex* xExtract(Ex* a, unsigned off, unsigned w); static Ex* xConcat(Ex* a, Ex* b); static Ex* xZext(Ex* a, unsigned w);
static Ex* xIte(Ex* c, Ex* a, Ex* b); static Ex* xNot(Ex* a); static Ex* xAnd(Ex* a, Ex* b); static Ex* xOr(Ex* a, Ex* b); static Ex* xEq(Ex* a, Ex* b); static Ex* xUlt(Ex* a, Ex* b); static Ex* xAdd(Ex* a, Ex* b); static Ex* xOv(Op op, Ex* a, Ex* b); static Ex* xZext(Ex* a, unsigned w);
static Ex* T() { return K(1, 1); } static Ex* F() { return K(0, 1); }

static Ex* xAdd(Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) std::swap(a, b);
	if (isK(a)) { if (isK(b)) return K(a->c + b->c, w); if (a->c == 0) return b;
		if (b->op == O_ADD && isK(b->k[0])) return xAdd(K(a->c + b->k[0]->c, w), b->k[1]);
		if (b->op == O_ITE && isK(b->k[1]) && isK(b->k[2])) return xIte(b->k[0], K(a->c + b->k[1]->c, w), K(a->c + b->k[2]->c, w));
		return mk(O_ADD, w, a, b); }
	if (a->op == O_ADD && isK(a->k[0])) return xAdd(a->k[0], xAdd(a->k[1], b));
	if (b->op == O_ADD && isK(b->k[0])) return xAdd(b->k[0], xAdd(a, b->k[1]));
	if (a->id > b->id) std::swap(a, b);
	return mk(O_ADD, w, a, b); }
static Ex* xMul(Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) std::swap(a, b);
	if (isK(a)) { if (isK(b)) return K(a->c * b->c, w); if (a->c == 0) return a; if (a->c == 1) return b;
		if (b->op == O_ITE && isK(b->k[1]) && isK(b->k[2])) return xIte(b->k[0], K(a->c * b->k[1]->c, w), K(a->c * b->k[2]->c, w));
		if ((a->c & (a->c - 1)) == 0) { unsigned s = __builtin_ctzll(a->c); return xConcat(xExtract(b, 0, w - s), K(0, s)); }
		if (b->op == O_ADD && isK(b->k[0])) return xAdd(K(a->c * b->k[0]->c, w), xMul(a, b->k[1]));
		if (b->op == O_MUL && isK(b->k[0])) return xMul(K(a->c * b->k[0]->c, w), b->k[1]); 
		return mk(O_MUL, w, a, b); }
	if (a->id > b->id) std::swap(a, b);
	return mk(O_MUL, w, a, b); }
static Ex* xNeg(Ex* a) { return xMul(K(~0ull, a->w), a); }
static Ex* xSub(Ex* a, Ex* b) {
	if (a == b) return K(0, a->w); if (isK(b)) return xAdd(K(0 - b->c, a->w), a);
	if (a->op == O_ADD && a->k[0] == b) return a->k[1]; if (a->op == O_ADD && a->k[1] == b) return a->k[0];
	if (a->op == O_ADD && isK(a->k[0])) return xAdd(a->k[0], xSub(a->k[1], b));
	if (b->op == O_ADD && isK(b->k[0])) return xAdd(K(0 - b->k[0]->c, a->w), xSub(a, b->k[1]));
	return xAdd(a, xNeg(b)); }
static Ex* xBin(Op op, Ex* a, Ex* b) {  // division, remainder
	unsigned w = a->w; if (isK(a) && isK(b)) return K(evalOp(op, w, 0, w, a->c, b->c, 0), w);
	if (isK(b) && b->c == 1) return (op == O_UDIV || op == O_SDIV) ? a : K(0, w);
	if (isK(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = __builtin_ctzll(b->c);
		if (op == O_UDIV) return xZext(xExtract(a, s, w - s), w);
		if (op == O_UREM) return xZext(xExtract(a, 0, s), w); }
	if ((op == O_UDIV || op == O_UREM) && a->op == O_ZEXT && isK(b)) { unsigned wn = a->k[0]->w; if ((b->c & maskw(wn)) == b->c && b->c) return xZext(xBin(op, a->k[0], K(b->c, wn)), w); if (b->c > maskw(wn)) return op == O_UDIV ? K(0, w) : a; }
	if (a->op == O_ITE && isK(b) && isK(a->k[1]) && isK(a->k[2])) return xIte(a->k[0], xBin(op, a->k[1], b), xBin(op, a->k[2], b));
	return mk(op, w, a, b); }
static bool allLow(u64 c, unsigned& k) { if (c == 0 || (c & (c + 1))) return false; k = c == ~0ull ? 64 : __builtin_ctzll(c + 1); return true; }
static Ex* xAnd(Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) std::swap(a, b); if (a == b) return a;
	if (isK(a)) { if (isK(b)) return K(a->c & b->c, w); if (a->c == 0) return a; if (a->c == maskw(w)) return b; unsigned k;
		if (allLow(a->c, k) && k < w) return xZext(xExtract(b, 0, k), w);
		if (b->op == O_ITE && isK(b->k[1]) && isK(b->k[2])) return xIte(b->k[0], K(a->c & b->k[1]->c, w), K(a->c & b->k[2]->c, w));
		unsigned tz = __builtin_ctzll(a->c); // contiguous run: extract it
		if (w > 1 && allLow(a->c >> tz, k) && tz + k <= w) { Ex* r = xConcat(xExtract(b, tz, k), K(0, tz)); return xZext(r, w); }
		if (b->op == O_ZEXT) { unsigned wn = b->k[0]->w; if ((a->c & maskw(wn)) != a->c || 1) return xZext(xAnd(K(a->c & maskw(wn), wn), b->k[0]), w); }
	} else if (w == 1) {
		if (a->op == O_XOR && isK(a->k[0]) && a->k[1] == b) return F(); if (b->op == O_XOR && isK(b->k[0]) && b->k[1] == a) return F();
		// x==c1 && x==c2
		if (a->op == O_EQ && b->op == O_EQ && isK(a->k[0]) && isK(b->k[0]) && a->k[1] == b->k[1]) return a->k[0] == b->k[0] ? a : F();
		if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
	} else if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return xZext(xAnd(a->k[0], b->k[0]), w);
	if (!isK(a) && a->id > b->id) std::swap(a, b);
	return mk(O_AND, w, a, b); }
static Ex* xOr(Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) std::swap(a, b); if (a == b) return a;
	if (isK(a)) { if (isK(b)) return K(a->c | b->c, w); if (a->c == 0) return b; if (a->c == maskw(w)) return a;
		if (b->op == O_ITE && isK(b->k[1]) && isK(b->k[2])) return xIte(b->k[0], K(a->c | b->k[1]->c, w), K(a->c | b->k[2]->c, w)); }
	else if (w == 1) {
		if (a->op == O_XOR && isK(a->k[0]) && a->k[1] == b) return T(); if (b->op == O_XOR && isK(b->k[0]) && b->k[1] == a) return T();
		if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
	}
	if (w > 1) { // disjoint pieces: (x << k) | zext(y)
		for (int i = 0; i < 2; i++) { Ex* p = i ? b : a; Ex* q = i ? a : b; Ex* hi = p; unsigned zpad = 0;
			if (p->op == O_ZEXT && p->k[0]->op == O_CONCAT) { hi = p->k[0]; zpad = w - hi->w; }
			if (hi->op == O_CONCAT && isK(hi->k[1]) && hi->k[1]->c == 0) { unsigned lo = hi->k[1]->w;
				if (q->op == O_ZEXT && q->k[0]->w <= lo) return xZext(xConcat(hi->k[0], xZext(q->k[0], lo)), w);
				if (isK(q) && q->c <= maskw(lo)) return xZext(xConcat(hi->k[0], K(q->c, lo)), w); } (void)zpad; }
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return xZext(xOr(a->k[0], b->k[0]), w); }
	if (!isK(a) && a->id > b->id) std::swap(a, b);
	return mk(O_OR, w, a, b); }
static Ex* xXor(Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) std::swap(a, b); if (a == b) return K(0, w);
	if (isK(a)) { if (isK(b)) return K(a->c ^ b->c, w); if (a->c == 0) return b;
		if (b->op == O_XOR && isK(b->k[0])) return xXor(K(a->c ^ b->k[0]->c, w), b->k[1]);
		if (b->op == O_ITE && isK(b->k[1]) && isK(b->k[2])) return xIte(b->k[0], K(a->c ^ b->k[1]->c, w), K(a->c ^ b->k[2]->c, w));
		if (b->op == O_ZEXT && a->c <= maskw(b->k[0]->w)) return xZext(xXor(K(a->c, b->k[0]->w), b->k[0]), w);
		if (w == 1) { // negate comparisons where an exact dual exists
			if (b->op == O_ULT) return mk(O_ULE, 1, b->k[1], b->k[0]); if (b->op == O_ULE) return mk(O_ULT, 1, b->k[1], b->k[0]);
			if (b->op == O_SLT) return mk(O_SLE, 1, b->k[1], b->k[0]); if (b->op == O_SLE) return mk(O_SLT, 1, b->k[1], b->k[0]); } }
	if (!isK(a) && a->id > b->id) std::swap(a, b);
	return mk(O_XOR, w, a, b); }
static Ex* xNot(Ex* a) { return xXor(K(1, 1), a); }
static Ex* xShift(Op op, Ex* a, Ex* b) {
	unsigned w = a->w; if (isK(b)) { u64 s = b->c; if (s == 0) return a;
		if (s >= w) { if (op != O_ASHR) return K(0, w); s = w - 1; }
		if (op == O_SHL) return xConcat(xExtract(a, 0, w - s), K(0, s));
		if (op == O_LSHR) return xZext(xExtract(a, s, w - s), w);
		Ex* e = xExtract(a, s, w - s); if (isK(e)) return K((u64)sx(e->c, w - s), w); return mk(O_SEXT, w, e); }
	if (isK(a) && a->c == 0) return a;
	return mk(op, w, a, b); }
static Ex* xExtract(Ex* a, unsigned off, unsigned w) {
	if (off == 0 && w == a->w) return a;
	switch (a->op) {
	case O_CONST: return K(a->c >> off, w);
	case O_EXTRACT: return xExtract(a->k[0], off + a->aux, w);
	case O_CONCAT: { unsigned lo = a->k[1]->w; if (off >= lo) return xExtract(a->k[0], off - lo, w); if (off + w <= lo) return xExtract(a->k[1], off, w);
		return xConcat(xExtract(a->k[0], 0, off + w - lo), xExtract(a->k[1], off, lo - off)); }
	case O_ZEXT: { unsigned wn = a->k[0]->w; if (off >= wn) return K(0, w); if (off + w <= wn) return xExtract(a->k[0], off, w); return xZext(xExtract(a->k[0], off, wn - off), w); }
	case O_SEXT: { unsigned wn = a->k[0]->w; if (off + w <= wn) return xExtract(a->k[0], off, w); break; }
	case O_ITE: if (isK(a->k[1]) || isK(a->k[2])) return xIte(a->k[0], xExtract(a->k[1], off, w), xExtract(a->k[2], off, w)); break;
	case O_AND: return xAnd(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w));
	case O_OR: return xOr(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w));
	case O_XOR: return xXor(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w));
	case O_ADD: if (off == 0) return xAdd(xExtract(a->k[0], 0, w), xExtract(a->k[1], 0, w)); break;
	case O_MUL: if (off == 0) return xMul(xExtract(a->k[0], 0, w), xExtract(a->k[1], 0, w)); break;
	default: break; }
	return mk(O_EXTRACT, w, a, 0, 0, off); }
static Ex* xConcat(Ex* a, Ex* b) {
	unsigned w = a->w + b->w;
	if (isK(a) && isK(b)) return K((a->c << b->w) | b->c, w);
	if (isK(a) && a->c == 0) return xZext(b, w);
	if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return xExtract(a->k[0], b->aux, w);
	if (a->op == O_EXTRACT && a->aux == b->w && a->k[0] == b) return xExtract(b, 0, w); // not reachable (widths), kept harmless
	if (a->op == O_EXTRACT && b->op == O_CONCAT && b->k[0]->op == O_EXTRACT && b->k[0]->k[0] == a->k[0] && a->aux == b->k[0]->aux + b->k[0]->w)
		return xConcat(xExtract(a->k[0], b->k[0]->aux, a->w + b->k[0]->w), b->k[1]);
	if (isK(a) && b->op == O_CONCAT && isK(b->k[0])) return xConcat(K((a->c << b->k[0]->w) | b->k[0]->c, a->w + b->k[0]->w), b->k[1]);
	if (a->op == O_CONCAT) return xConcat(a->k[0], xConcat(a->k[1], b));
	if (a->op == O_ZEXT) return xZext(xConcat(a->k[0], b), w);
	// the same ITE condition over constants in both halves
	if (a->op == O_ITE && b->op == O_ITE && a->k[0] == b->k[0]) return xIte(a->k[0], xConcat(a->k[1], b->k[1]), xConcat(a->k[2], b->k[2]));
	if (a->op == O_ITE && isK(b) && isK(a->k[1]) && isK(a->k[2])) return xIte(a->k[0], xConcat(a->k[1], b), xConcat(a->k[2], b));
	return mk(O_CONCAT, w, a, b); }
static Ex* xZext(Ex* a, unsigned w) {
	if (w == a->w) return a; if (isK(a)) return K(a->c, w); if (a->op == O_ZEXT) return xZext(a->k[0], w);
	if (a->op == O_ITE && isK(a->k[1]) && isK(a->k[2])) return xIte(a->k[0], xZext(a->k[1], w), xZext(a->k[2], w));
	return mk(O_ZEXT, w, a); }
static Ex* xSext(Ex* a, unsigned w) {
	if (w == a->w) return a; if (isK(a)) return K((u64)sx(a->c, a->w), w); if (a->op == O_ZEXT) return xZext(a->k[0], w);
	if (a->op == O_SEXT) return xSext(a->k[0], w);
	if (a->op == O_ITE && isK(a->k[1]) && isK(a->k[2])) return xIte(a->k[0], xSext(a->k[1], w), xSext(a->k[2], w));
	return mk(O_SEXT, w, a); }
static Ex* xIte(Ex* c, Ex* a, Ex* b) {
	if (isK(c)) return c->c ? a : b; if (a == b) return a;
	if (c->op == O_XOR && isK(c->k[0])) return xIte(c->k[1], b, a);
	if (a->w == 1) { if (isK(a)) return a->c ? xOr(c, b) : xAnd(xNot(c), b); if (isK(b)) return b->c ? xOr(xNot(c), a) : xAnd(c, a); }
	if (b->op == O_ITE && b->k[0] == c) b = b->k[2]; if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
	if (a == b) return a;
	if (b->op == O_ITE && b->k[1] == a) return xIte(xOr(c, b->k[0]), a, b->k[2]);
	if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w && a->k[0]->w > 1) return xZext(xIte(c, a->k[0], b->k[0]), a->w);
	return mk(O_ITE, a->w, c, a, b); }
static bool hasKLeaf(Ex* e) { return e->op == O_ITE && (isK(e->k[1]) || isK(e->k[2])); }
static Ex* xEq(Ex* a, Ex* b) {
	if (a == b) return T(); if (isK(b)) std::swap(a, b);
	if (isK(a)) { if (isK(b)) return K(a->c == b->c, 1); unsigned w = a->w;
		if (w == 1) return a->c ? b : xNot(b);
		switch (b->op) {
		case O_ZEXT: { unsigned wn = b->k[0]->w; if (a->c > maskw(wn)) return F(); return xEq(K(a->c, wn), b->k[0]); }
		case O_SEXT: { unsigned wn = b->k[0]->w; if (((u64)sx(a->c & maskw(wn), wn) & maskw(w)) != a->c) return F(); return xEq(K(a->c, wn), b->k[0]); }
		case O_CONCAT: { unsigned lo = b->k[1]->w; return xAnd(xEq(K(a->c >> lo, w - lo), b->k[0]), xEq(K(a->c, lo), b->k[1])); }
		case O_ADD: if (isK(b->k[0])) return xEq(K(a->c - b->k[0]->c, w), b->k[1]); break;
		case O_XOR: if (isK(b->k[0])) return xEq(K(a->c ^ b->k[0]->c, w), b->k[1]); break;
		case O_ITE: if (hasKLeaf(b)) return xIte(b->k[0], xEq(a, b->k[1]), xEq(a, b->k[2])); break;
		default: break; }
		return mk(O_EQ, 1, a, b); }
	if (a->w == 1) return xNot(xXor(a, b));
	if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < a->w) return xEq(xZext(a->k[0], m), xZext(b->k[0], m)); }
	if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return xEq(a->k[0], b->k[0]);
	if (a->op == O_ADD && b->op == O_ADD && isK(a->k[0]) && isK(b->k[0])) return xEq(xAdd(K(a->k[0]->c - b->k[0]->c, a->w), a->k[1]), b->k[1]);
	if (a->op == O_MUL && b->op == O_MUL && isK(a->k[0]) && a->k[0] == b->k[0] && (a->k[0]->c & 1)) return xEq(a->k[1], b->k[1]);
	if (a->op == O_XOR && b->op == O_XOR) { if (a->k[0] == b->k[0]) return xEq(a->k[1], b->k[1]); if (a->k[1] == b->k[1]) return xEq(a->k[0], b->k[0]); }
	if (a->op == O_ADD && b->op == O_ADD) { if (a->k[0] == b->k[0]) return xEq(a->k[1], b->k[1]); if (a->k[1] == b->k[1]) return xEq(a->k[0], b->k[0]); }
	if (a->id > b->id) std::swap(a, b);
	return mk(O_EQ, 1, a, b); }
static Ex* xUlt(Ex* a, Ex* b) {
	unsigned w = a->w; if (a == b) return F(); if (isK(a) && isK(b)) return K(a->c < b->c, 1);
	if (isK(b)) { if (b->c == 0) return F(); if (b->c == 1) return xEq(K(0, w), a); }
	if (isK(a)) { if (a->c == maskw(w)) return F(); if (a->c == 0) return xNot(xEq(a, b)); }
	if (w == 1) return xAnd(xNot(a), b);
	if (a->op == O_ZEXT && isK(b)) { unsigned wn = a->k[0]->w; if (b->c > maskw(wn)) return T(); return xUlt(a->k[0], K(b->c, wn)); }
	if (b->op == O_ZEXT && isK(a)) { unsigned wn = b->k[0]->w; if (a->c >= maskw(wn)) return F(); return xUlt(K(a->c, wn), b->k[0]); }
	if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < w) return xUlt(xZext(a->k[0], m), xZext(b->k[0], m)); }
	if (isK(b) && hasKLeaf(a)) return xIte(a->k[0], xUlt(a->k[1], b), xUlt(a->k[2], b));
	if (isK(a) && hasKLeaf(b)) return xIte(b->k[0], xUlt(a, b->k[1]), xUlt(a, b->k[2]));
	// b > MAX / x  <=>  b * x > MAX (both directions for every b and x; x = 0: bvudiv yields MAX), and the same in twice the width
	if (a->op == O_UDIV && isK(a->k[0]) && a->k[0]->c == maskw(w)) return xOv(O_UMULOV, a->k[1], b);
	if (isK(a) && b->op == O_MUL && b->k[0]->op == O_ZEXT && b->k[1]->op == O_ZEXT) { unsigned h = std::max(b->k[0]->k[0]->w, b->k[1]->k[0]->w); if (2 * h <= w && a->c == maskw(h)) return xOv(O_UMULOV, xZext(b->k[0]->k[0], h), xZext(b->k[1]->k[0], h)); }
	return mk(O_ULT, 1, a, b); }
static Ex* xUle(Ex* a, Ex* b) { return xNot(xUlt(b, a)); }
static Ex* xSlt(Ex* a, Ex* b) {
	unsigned w = a->w; if (a == b) return F(); if (isK(a) && isK(b)) return K(sx(a->c, w) < sx(b->c, w), 1);
	// a zero-extended value is non-negative
	if (a->op == O_ZEXT && b->op == O_ZEXT) return xUlt(a, b);
	if (a->op == O_ZEXT && isK(b)) return sx(b->c, w) <= 0 ? F() : xUlt(a, b);
	if (b->op == O_ZEXT && isK(a)) return sx(a->c, w) < 0 ? T() : xUlt(a, b);
	if (isK(b) && hasKLeaf(a)) return xIte(a->k[0], xSlt(a->k[1], b), xSlt(a->k[2], b));
	if (isK(a) && hasKLeaf(b)) return xIte(b->k[0], xSlt(a, b->k[1]), xSlt(a, b->k[2]));
	return mk(O_SLT, 1, a, b); }
static Ex* xSle(Ex* a, Ex* b) { return xNot(xSlt(b, a)); }
// Floating point: comparisons, width changes, conversions and rounding are expressed exactly with
// bit-vector operations; only arithmetic is left to the solver's floating-point theory.
struct FpF { unsigned eb, mb; u64 bias; }; static FpF fpf(unsigned w) { return w == 64 ? FpF{11, 52, 1023} : FpF{8, 23, 127}; }
static Ex* fMag(Ex* a) { return xExtract(a, 0, a->w - 1); } static Ex* fSign(Ex* a) { return xExtract(a, a->w - 1, 1); }
static u64 fInf(unsigned w) { FpF f = fpf(w); return maskw(f.eb) << f.mb; }
static Ex* fNan(Ex* a) { return xUlt(K(fInf(a->w), a->w - 1), fMag(a)); }
static Ex* fCmp(Ex* a, Ex* b, bool orEq) { // a < b, a <= b
	Ex *ma = fMag(a), *mb = fMag(b), *sa = fSign(a), *sb = fSign(b), *z = xAnd(xEq(ma, K(0, ma->w)), xEq(mb, K(0, mb->w)));
	Ex* pos = orEq ? xUle(ma, mb) : xUlt(ma, mb); Ex* neg = orEq ? xUle(mb, ma) : xUlt(mb, ma);
	Ex* r = xIte(sa, xIte(sb, neg, orEq ? T() : xNot(z)), xIte(sb, orEq ? z : F(), pos));
	return xAnd(xNot(xOr(fNan(a), fNan(b))), r); }
static Ex* fEq(Ex* a, Ex* b) { if (a == b) return xNot(fNan(a)); Ex *ma = fMag(a), *mb = fMag(b);
	return xAnd(xNot(xOr(fNan(a), fNan(b))), xOr(xEq(a, b), xAnd(xEq(ma, K(0, ma->w)), xEq(mb, K(0, mb->w))))); }
static Ex* fSub(Ex* a, Ex* b) { return xAdd(a, xAdd(xXor(b, K(maskw(b->w), b->w)), K(1, b->w))); }
static Ex* fExt(Ex* a) { // 32 -> 64
	Ex *e = xExtract(a, 23, 8), *m = xExtract(a, 0, 23); Ex* top = K(0, 63);
	Ex* norm = xConcat(xAdd(xZext(e, 11), K(896, 11)), xConcat(m, K(0, 29)));
	Ex* spec = xConcat(K(2047, 11), xConcat(xIte(xEq(m, K(0, 23)), K(0, 23), xOr(m, K(1 << 22, 23))), K(0, 29)));
	Ex* den = K(0, 63);
	for (int p = 0; p < 23; p++) { Ex* v = K((u64)(1023 + p - 149) << 52, 63); if (p > 0) v = xConcat(K(1023 + p - 149, 11), xConcat(xExtract(m, 0, p), K(0, 52 - p))); den = xIte(xExtract(m, p, 1), v, den); }
	(void)top; Ex* r = xIte(xEq(e, K(0, 8)), den, xIte(xEq(e, K(255, 8)), spec, norm));
	return xConcat(fSign(a), r); }
static Ex* fToInt(Ex* a, unsigned w, bool sg) { // truncation; out of range as evalOp
	FpF f = fpf(a->w); Ex *e = xExtract(a, f.mb, f.eb), *sig = xZext(xConcat(K(1, 1), xExtract(a, 0, f.mb)), 64), *s = fSign(a);
	Ex* e64 = xZext(e, 64); Ex* E = xAdd(e64, K(0 - f.bias, 64));
	Ex* right = xShift(O_LSHR, sig, fSub(K(f.mb, 64), E)); Ex* left = xShift(O_SHL, sig, xAdd(E, K(0 - (u64)f.mb, 64)));
	Ex* mag = xIte(xUlt(e64, K(f.bias, 64)), K(0, 64), xIte(xUlt(K(f.bias + f.mb, 64), e64), left, right));
	Ex* big = xUlt(K(f.bias + 63, 64), e64);
	if (sg) { Ex* r = xIte(s, xAdd(xXor(mag, K(~0ull, 64)), K(1, 64)), mag); Ex* ex63 = xEq(e64, K(f.bias + 63, 64));
		Ex* bad = xOr(big, xAnd(ex63, xNot(xAnd(s, xEq(mag, K(1ull << 63, 64)))))); return xIte(bad, K(1ull << (w - 1), w), xExtract(r, 0, w)); }
	Ex* bad = xOr(big, xAnd(s, xNot(xUlt(e64, K(f.bias, 64))))); return xIte(bad, K(0, w), xExtract(mag, 0, w)); }
static Ex* fFromInt(Ex* a, unsigned w, bool sg) { // round to nearest even
	FpF f = fpf(w); unsigned wi = a->w; Ex* s = sg ? xExtract(a, wi - 1, 1) : F();
	Ex* u = sg ? xIte(s, xAdd(xXor(a, K(maskw(wi), wi)), K(1, wi)), a) : a; if (wi < 64) u = xConcat(u, K(0, 64 - wi));
	Ex* lz = K(0, 64); for (int k = 32; k; k >>= 1) { Ex* c = xEq(xExtract(u, 64 - k, k), K(0, k)); u = xIte(c, xConcat(xExtract(u, 0, 64 - k), K(0, k)), u); lz = xIte(c, xAdd(lz, K(k, 64)), lz); }
	Ex* ex = fSub(K(f.bias + wi - 1, 64), lz); Ex* mant = xExtract(u, 63 - f.mb, f.mb);
	Ex* r = xConcat(xExtract(ex, 0, f.eb), mant);
	if (wi > f.mb + 1) { unsigned rb = 63 - f.mb; Ex *half = xExtract(u, rb - 1, 1), *rest = xNot(xEq(xExtract(u, 0, rb - 1), K(0, rb - 1))), *odd = xExtract(mant, 0, 1);
		r = xAdd(r, xZext(xAnd(half, xOr(rest, odd)), w - 1)); }
	r = xIte(xEq(a, K(0, wi)), K(0, w - 1), r);
	return xConcat(s, r); }
static Ex* fTrunc(Ex* a, u32 mode) { // 3 truncate, 2 floor, 1 ceil
	FpF f = fpf(a->w); unsigned w = a->w; Ex *e = xZext(xExtract(a, f.mb, f.eb), w), *s = fSign(a); Ex* E = xAdd(e, K(0 - f.bias, w));
	Ex* frac = xShift(O_LSHR, K(maskw(f.mb), w), E); Ex* t = xAnd(a, xXor(frac, K(maskw(w), w)));
	Ex* small = xUlt(e, K(f.bias, w)); Ex* whole = xUle(K(f.bias + f.mb, w), e); Ex* zero = xEq(fMag(a), K(0, w - 1));
	Ex* r = t; Ex* rs = xConcat(s, K(0, w - 1));
	if (mode != 3) { Ex* away = mode == 2 ? s : xNot(s); Ex* up = xAdd(t, xAdd(frac, K(1, w))); r = xIte(xAnd(away, xNot(xEq(xAnd(a, frac), K(0, w)))), up, t);
		rs = xIte(xAnd(away, xNot(zero)), xConcat(s, K(f.bias << f.mb, w - 1)), rs); }
	return xIte(whole, xIte(fNan(a), xOr(a, K(1ull << (f.mb - 1), w)), a), xIte(small, rs, r)); }
static Ex* xFp(Op op, unsigned w, Ex* a, Ex* b = 0, u32 aux = 0) {
	if (isK(a) && (!b || isK(b))) return K(evalOp(op, w, aux, a->w, a->c, b ? b->c : 0, 0), w);
	switch (op) {
	case O_FEQ: for (int i = 0; i < 2; i++) { Ex *p = i ? b : a, *q = i ? a : b; // x - y == 0 exactly if x == y and neither is infinite
			if (isK(q) && (q->c << 1 & maskw(q->w)) == 0 && p->op == O_FSUB) return xAnd(xNot(xEq(fMag(p->k[0]), K(fInf(p->w), p->w - 1))), fEq(p->k[0], p->k[1])); }
		return fEq(a, b);
	case O_FLT: return fCmp(a, b, false); case O_FLE: return fCmp(a, b, true);
	case O_FEXT: return fExt(a); case O_FTOSI: return fToInt(a, w, true); case O_FTOUI: return fToInt(a, w, false);
	case O_SITOF: if (a->w > 1) return fFromInt(a, w, true); break; case O_UITOF: if (a->w > 1) return fFromInt(a, w, false); else return xIte(a, K(w == 64 ? bD(1) : bF(1), w), K(0, w));
	case O_FRND: if (aux) return fTrunc(a, aux); break;
	default: break; }
	return mk(op, w, a, b, 0, aux); }
static Ex* xOv(Op op, Ex* a, Ex* b) { if (a->id > b->id) std::swap(a, b); if (isK(a) && isK(b)) return K(evalOp(op, 1, 0, a->w, a->c, b->c, 0), 1); return mk(op, 1, a, b); }

// number of low bits known to be zero
static unsigned knownTZ(Ex* e) {
	switch (e->op) {
	case O_CONST: return e->c == 0 ? 64 : __builtin_ctzll(e->c);
	case O_ADD: case O_OR: case O_XOR: return std::min(knownTZ(e->k[0]), knownTZ(e->k[1]));
	case O_AND: return std::max(knownTZ(e->k[0]), knownTZ(e->k[1]));
	case O_MUL: return std::min(64u, knownTZ(e->k[0]) + knownTZ(e->k[1]));
	case O_CONCAT: { unsigned l = knownTZ(e->k[1]); if (l >= e->k[1]->w) return std::min(64u, (unsigned)e->k[1]->w + knownTZ(e->k[0])); return l; }
	case O_ZEXT: case O_SEXT: { unsigned l = knownTZ(e->k[0]); return l >= e->k[0]->w ? 64 : l; }
	case O_ITE: return std::min(knownTZ(e->k[1]), knownTZ(e->k[2]));
	default: return 0; } }

// ---- evaluation under a model -----------------------------------------------------------
typedef std::vector<u64> Model;   // indexed by variable id; missing entries are 0
static u64 g_stamp = 1;
static u64 evalRec(Ex* e, const Model& m) {
	if (e->op == O_CONST) return e->c;
	if (e->stamp == g_stamp) return e->val;
	u64 r;
	if (e->op == O_VAR) r = e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0;
	else if (e->op == O_ITE) r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m);
	else if (e->op == O_AND && e->w == 1) r = evalRec(e->k[0], m) && evalRec(e->k[1], m);
	else if (e->op == O_OR && e->w == 1) r = evalRec(e->k[0], m) || evalRec(e->k[1], m);
	else { u64 a = e->k[0] ? evalRec(e->k[0], m) : 0, b = e->k[1] ? evalRec(e->k[1], m) : 0, d = e->k[2] ? evalRec(e->k[2], m) : 0;
		r = evalOp(e->op, e->w, e->aux, e->k[0] ? e->k[0]->w : 0, a, b, d, e->k[1] ? e->k[1]->w : 0); }
	e->stamp = g_stamp; e->val = r; return r; }
static u64 evalEx(Ex* e, const Model& m) { if (isK(e)) return e->c; g_stamp++; return evalRec(e, m); }

// ---- Z3 translation -----------------------------------------------------------------------
static Z3_context g_z; static Z3_sort g_bv[65]; static Z3_sort g_f32, g_f64; static Z3_ast g_rne;
static Z3_sort bvS(unsigned w) { if (!g_bv[w]) g_bv[w] = Z3_mk_bv_sort(g_z, w); return g_bv[w]; }
static Z3_ast zB2V(Z3_ast b) { return Z3_mk_ite(g_z, b, Z3_mk_unsigned_int64(g_z, 1, bvS(1)), Z3_mk_unsigned_int64(g_z, 0, bvS(1))); }
// width-1 expressions are translated as booleans where possible
static std::unordered_map<Ex*, Z3_ast> g_zb;
static Z3_ast zV(Ex* e);
static Z3_ast zFp(Ex* e) { return Z3_mk_fpa_to_fp_bv(g_z, zV(e), e->w == 64 ? g_f64 : g_f32); }
static Z3_ast zBool(Ex* e) {
	auto it = g_zb.find(e); if (it != g_zb.end()) return it->second;
	Z3_ast r, a[2];
	switch (e->op) {
	case O_CONST: r = e->c ? Z3_mk_true(g_z) : Z3_mk_false(g_z); break;
	case O_EQ: r = Z3_mk_eq(g_z, zV(e->k[0]), zV(e->k[1])); break;
	case O_ULT: r = Z3_mk_bvult(g_z, zV(e->k[0]), zV(e->k[1])); break;
	case O_ULE: r = Z3_mk_bvule(g_z, zV(e->k[0]), zV(e->k[1])); break;
	case O_SLT: r = Z3_mk_bvslt(g_z, zV(e->k[0]), zV(e->k[1])); break;
	case O_SLE: r = Z3_mk_bvsle(g_z, zV(e->k[0]), zV(e->k[1])); break;
	case O_AND: a[0] = zBool(e->k[0]); a[1] = zBool(e->k[1]); r = Z3_mk_and(g_z, 2, a); break;
	case O_OR: a[0] = zBool(e->k[0]); a[1] = zBool(e->k[1]); r = Z3_mk_or(g_z, 2, a); break;
	case O_XOR: if (isK(e->k[0])) r = Z3_mk_not(g_z, zBool(e->k[1])); else r = Z3_mk_xor(g_z, zBool(e->k[0]), zBool(e->k[1])); break;
	case O_ITE: r = Z3_mk_ite(g_z, zBool(e->k[0]), zBool(e->k[1]), zBool(e->k[2])); break;
	case O_UMULOV: r = Z3_mk_not(g_z, Z3_mk_bvmul_no_overflow(g_z, zV(e->k[0]), zV(e->k[1]), false)); break;
	case O_SMULOV: a[0] = Z3_mk_bvmul_no_overflow(g_z, zV(e->k[0]), zV(e->k[1]), true); a[1] = Z3_mk_bvmul_no_underflow(g_z, zV(e->k[0]), zV(e->k[1])); r = Z3_mk_not(g_z, Z3_mk_and(g_z, 2, a)); break;
	case O_FEQ: r = Z3_mk_fpa_eq(g_z, zFp(e->k[0]), zFp(e->k[1])); break;
	case O_FLT: r = Z3_mk_fpa_lt(g_z, zFp(e->k[0]), zFp(e->k[1])); break;
	case O_FLE: r = Z3_mk_fpa_leq(g_z, zFp(e->k[0]), zFp(e->k[1])); break;
	default: r = Z3_mk_eq(g_z, zV(e), Z3_mk_unsigned_int64(g_z, 1, bvS(1))); }
	g_zb[e] = r; return r; }
static Z3_ast zV(Ex* e) {
	if (e->z) return e->z;
	Z3_ast r = 0;
	if (e->w == 1 && (e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE || e->op == O_AND || e->op == O_OR || e->op == O_XOR || e->op == O_ITE || e->op == O_UMULOV || e->op == O_SMULOV || e->op == O_FEQ || e->op == O_FLT || e->op == O_FLE)) { r = zB2V(zBool(e)); e->z = r; return r; }
	Ex *A = e->k[0], *B = e->k[1], *C = e->k[2]; Z3_sort fs = e->w == 64 ? g_f64 : g_f32;
	switch (e->op) {
	case O_CONST: r = Z3_mk_unsigned_int64(g_z, e->c, bvS(e->w)); break;
	case O_VAR: { char n[40]; snprintf(n, 40, "v%u", e->aux); r = Z3_mk_const(g_z, Z3_mk_string_symbol(g_z, n), bvS(e->w)); break; }
	case O_ADD: r = Z3_mk_bvadd(g_z, zV(A), zV(B)); break; case O_MUL: r = Z3_mk_bvmul(g_z, zV(A), zV(B)); break;
	case O_UDIV: r = Z3_mk_bvudiv(g_z, zV(A), zV(B)); break; case O_SDIV: r = Z3_mk_bvsdiv(g_z, zV(A), zV(B)); break;
	case O_UREM: r = Z3_mk_bvurem(g_z, zV(A), zV(B)); break; case O_SREM: r = Z3_mk_bvsrem(g_z, zV(A), zV(B)); break;
	case O_AND: r = Z3_mk_bvand(g_z, zV(A), zV(B)); break; case O_OR: r = Z3_mk_bvor(g_z, zV(A), zV(B)); break; case O_XOR: r = Z3_mk_bvxor(g_z, zV(A), zV(B)); break;
	case O_SHL: r = Z3_mk_bvshl(g_z, zV(A), zV(B)); break; case O_LSHR: r = Z3_mk_bvlshr(g_z, zV(A), zV(B)); break; case O_ASHR: r = Z3_mk_bvashr(g_z, zV(A), zV(B)); break;
	case O_ITE: r = Z3_mk_ite(g_z, zBool(A), zV(B), zV(C)); break;
	case O_CONCAT: r = Z3_mk_concat(g_z, zV(A), zV(B)); break;
	case O_EXTRACT: r = Z3_mk_extract(g_z, e->aux + e->w - 1, e->aux, zV(A)); break;
	case O_ZEXT: r = Z3_mk_zero_ext(g_z, e->w - A->w, zV(A)); break; case O_SEXT: r = Z3_mk_sign_ext(g_z, e->w - A->w, zV(A)); break;
	case O_FADD: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_add(g_z, g_rne, zFp(A), zFp(B))); break;
	case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_sub(g_z, g_rne, zFp(A), zFp(B))); break;
	case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_mul(g_z, g_rne, zFp(A), zFp(B))); break;
	case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_div(g_z, g_rne, zFp(A), zFp(B))); break;
	case O_FSQRT: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_sqrt(g_z, g_rne, zFp(A))); break;
	case O_FTOSI: r = Z3_mk_fpa_to_sbv(g_z, Z3_mk_fpa_rtz(g_z), zFp(A), e->w); break;
	case O_FTOUI: r = Z3_mk_fpa_to_ubv(g_z, Z3_mk_fpa_rtz(g_z), zFp(A), e->w); break;
	case O_SITOF: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_signed(g_z, g_rne, zV(A), fs)); break;
	case O_UITOF: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_unsigned(g_z, g_rne, zV(A), fs)); break;
	case O_FEXT: case O_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_float(g_z, g_rne, zFp(A), fs)); break;
	case O_FRND: { Z3_ast rm = e->aux == 0 ? g_rne : e->aux == 1 ? Z3_mk_fpa_rtp(g_z) : e->aux == 2 ? Z3_mk_fpa_rtn(g_z) : Z3_mk_fpa_rtz(g_z);
		r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_round_to_integral(g_z, rm, zFp(A))); break; }
	default: abort(); }
	e->z = r; return r; }
static void z3Init() {
	Z3_config c = Z3_mk_config(); g_z = Z3_mk_context(c); Z3_del_config(c);
	g_f32 = Z3_mk_fpa_sort_32(g_z); g_f64 = Z3_mk_fpa_sort_64(g_z); g_rne = Z3_mk_fpa_rne(g_z); }
static bool hasFp(Ex* e, std::unordered_set<Ex*>& seen) { if (!seen.insert(e).second) return false; if (e->op >= O_FADD) return true; for (int i = 0; i < 3; i++) if (e->k[i] && hasFp(e->k[i], seen)) return true; return false; }
