// vpsym: bounded symbolic execution of LLVM bitcode with Z3 deciding every branch, address
// and assertion.  Explores all feasible paths of main(); parallel by fork().
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
using namespace llvm;

// ---- options and reporting --------------------------------------------------------------
static int optJobs = 1; static u64 optSteps = 30000000; static double optTime = 600; static unsigned optTimeoutMs = 20000;
static unsigned optPathSamples = 40; static unsigned optEnum = 4096; static const char* optOut = "/dev/stdout"; static unsigned optSplit = 0; static size_t optDepth = 400; static bool optUninit = false; static bool optVerbose = false; static u64 optMaxAlloc = 1 << 16; static u64 optMaxPaths = ~0ull;
static u64 optArgs[8];
static int outFd;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double tStart;
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const std::string& l) { std::string s = l + "\n"; if (write(outFd, s.data(), s.size()) < 0) {} }

struct Shared { std::atomic<int> active; std::atomic<u64> spawned, doneOk, paths, reached, samples; std::atomic<int> stop; };
static Shared* sh;
static u64 nPaths, nPruned, nInstr, nForks, nQueries, nQCache, nSolver, nUnknown, nTerm, nMaxDepth; static double tSolver;
static std::set<std::string> seenViol; static std::map<std::string, u64> reachCount;

// ---- values ---------------------------------------------------------------------------------
struct Val { u64 c; Ex* e; Val(u64 c = 0, Ex* e = 0) : c(c), e(e) {} };   // e == 0: concrete
static inline Ex* X(const Val& v, unsigned w) { return v.e ? v.e : K(v.c, w); }
static inline Val V(Ex* e) { if (isK(e)) return Val(e->c); return Val(0, e); }

// ---- memory -----------------------------------------------------------------------------------
static const u64 OBASE = 0x1000; static const unsigned OSHIFT = 36;
struct Obj { u64 size; Ex* symSize; u8 kind; bool ro; u32 ubase; std::vector<u8> d; std::vector<Ex*> s; const void* site; 
	struct Upd { Ex* off; unsigned n; Ex* val; std::shared_ptr<std::map<u64, bool>> hit; }; std::vector<Upd> log; };
typedef std::shared_ptr<Obj> ObjP;
struct Page { ObjP o[64]; };
struct Mem { std::vector<std::shared_ptr<Page>> pages; u64 n = 1;
	Obj* get(u64 id) const { u64 p = id >> 6; if (p >= pages.size() || !pages[p]) return 0; return pages[p]->o[id & 63].get(); }
	Page* wpage(u64 p) { if (p >= pages.size()) pages.resize(p + 1); if (!pages[p]) pages[p] = std::make_shared<Page>(); else if (pages[p].use_count() > 1) pages[p] = std::make_shared<Page>(*pages[p]); return pages[p].get(); }
	Obj* wr(u64 id) { Page* p = wpage(id >> 6); ObjP& o = p->o[id & 63]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o); return o.get(); }
	u64 add(ObjP o) { u64 id = n++; wpage(id >> 6)->o[id & 63] = o; return id; }
	void del(u64 id) { wpage(id >> 6)->o[id & 63].reset(); } };
static inline u64 addrOf(u64 id) { return (id << OSHIFT) + OBASE; }

// ---- compiled functions -------------------------------------------------------------------------
struct Opd { int slot; u64 c; };                       // slot < 0: constant
struct CI { Instruction* I; unsigned op; u8 w, w2; int dst; u8 n; Opd a[4]; std::vector<Opd>* more; int t0, t1; u64 aux; Function* callee; void* ext; };
struct Phi { int dst; unsigned n; std::vector<std::vector<Opd>> in; };
struct CB { std::vector<CI> ins; std::vector<Phi> phis; std::vector<BasicBlock*> preds; };
struct CF { Function* f; std::vector<CB> bb; int nslots; std::vector<int> argSlot; bool ran; };
static Module* M; static const DataLayout* DL; static std::map<Function*, CF*> cfs;
static DenseMap<const Value*, u64> gAddr; static std::map<u64, Function*> fnAt;

struct Frame { CF* f; int bb, pc, prev; std::vector<Val> s; std::vector<u64> allocas; int retDst; u64 varargs; };
struct State { std::vector<Frame> st; Mem mem; std::vector<Ex*> pc; std::shared_ptr<Model> model; std::vector<std::pair<u32,unsigned>> tape; std::vector<std::pair<Ex*,std::string>> outs; u64 steps = 0; u32 nUninit = 0; unsigned enumc = 0; u64 heapLive = 0; u64 depth = 0; std::vector<Ex*> done; std::unordered_map<Ex*, u64> known; };
static std::vector<State*> work;
static State initial;

struct Stop { };   // the current path ended

// ---- solver ------------------------------------------------------------------------------------------
enum R { SAT, UNSAT, UNK };
struct QR { R r; std::vector<std::pair<u32,u64>> m; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, QR, VH> qcache;
static Z3_solver zs, zsFp; static std::vector<Model> recent;
static void onErr(Z3_context, Z3_error_code e) { fprintf(stderr, "vpsym: z3 error %s\n", Z3_get_error_msg(g_z, e)); emit("{\"t\":\"internal\",\"msg\":\"z3 error\"}"); _exit(3); }
static Z3_solver mkSolver(const char* logic) {
	Z3_solver s = logic ? Z3_mk_solver_for_logic(g_z, Z3_mk_string_symbol(g_z, logic)) : Z3_mk_solver(g_z); Z3_solver_inc_ref(g_z, s);
	Z3_params p = Z3_mk_params(g_z); Z3_params_inc_ref(g_z, p); Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "timeout"), optTimeoutMs); Z3_solver_set_params(g_z, s, p); return s; }
static bool overlaps(const VarVec* a, const VarVec* b) { size_t i = 0, j = 0; while (i < a->size() && j < b->size()) { if ((*a)[i] == (*b)[j]) return true; if ((*a)[i] < (*b)[j]) i++; else j++; } return false; }
static R query(State& S, Ex* cond, Model& out) {
	nQueries++;
	if (isK(cond)) { if (cond->c) { out = *S.model; return SAT; } return UNSAT; }
	// independence slice
	std::vector<Ex*> sl; std::vector<char> in(S.pc.size(), 0); const VarVec* vs = cond->vs; bool ch = true;
	while (ch) { ch = false; for (size_t i = 0; i < S.pc.size(); i++) if (!in[i] && overlaps(S.pc[i]->vs, vs)) { in[i] = 1; vs = vsUnion(vs, S.pc[i]->vs); ch = true; } }
	Ex* neg = xNot(cond);
	for (size_t i = 0; i < S.pc.size(); i++) if (in[i]) { if (S.pc[i] == neg) return UNSAT; sl.push_back(S.pc[i]); }
	std::vector<u32> key; for (Ex* e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(cond->id);
	auto it = qcache.find(key);
	if (it != qcache.end()) { nQCache++; if (it->second.r != SAT) return it->second.r; out = *S.model; for (auto& p : it->second.m) { if (p.first >= out.size()) out.resize(p.first + 1); out[p.first] = p.second; } return SAT; }
	// recently found models
	for (size_t k = recent.size(); k-- > 0;) { bool ok = true; g_stamp++; if (!evalRec(cond, recent[k])) continue; for (Ex* e : sl) if (!evalRec(e, recent[k])) { ok = false; break; }
		if (ok) { nQCache++; QR q; q.r = SAT; out = *S.model; for (u32 v : *vs) { u64 x = v < recent[k].size() ? recent[k][v] : 0; if (v >= out.size()) out.resize(v + 1); out[v] = x; q.m.push_back({v, x}); } qcache[key] = q; return SAT; } }
	std::unordered_set<Ex*> seen; bool fp = hasFp(cond, seen); for (Ex* e : sl) if (!fp) fp = hasFp(e, seen);
	double t0 = now(); R r = UNK; nSolver++;
	for (int attempt = 0; attempt < 2 && r == UNK; attempt++) {
		Z3_solver s; if (fp) { if (!zsFp) zsFp = mkSolver(attempt ? 0 : "QF_BVFP"); s = zsFp; } else s = zs;
		if (attempt == 1) s = mkSolver(fp ? 0 : "QF_BV");
		Z3_solver_reset(g_z, s); for (Ex* e : sl) Z3_solver_assert(g_z, s, zBool(e)); Z3_solver_assert(g_z, s, zBool(cond));
		Z3_lbool b = Z3_solver_check(g_z, s);
		if (b == Z3_L_FALSE) r = UNSAT;
		else if (b == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(g_z, s); Z3_model_inc_ref(g_z, m); Model mm = *S.model; QR q; q.r = SAT;
			for (u32 v : *vs) { Ex* ve = mkVar(g_vars[v].kind, g_vars[v].ord, g_vars[v].w); Z3_ast o; u64 x = 0;
				if (Z3_model_eval(g_z, m, zV(ve), true, &o)) { uint64_t ux = 0; if (Z3_get_numeral_uint64(g_z, o, &ux)) x = ux; }
				if (v >= mm.size()) mm.resize(v + 1); mm[v] = x; q.m.push_back({v, x}); }
			Z3_model_dec_ref(g_z, m);
			g_stamp++; bool ok = evalRec(cond, mm); for (Ex* e : sl) ok = ok && evalRec(e, mm);
			if (ok) { r = SAT; out = mm; qcache[key] = q; recent.push_back(mm); if (recent.size() > 24) recent.erase(recent.begin()); }
			else { emit("{\"t\":\"internal\",\"msg\":\"solver model does not satisfy the query under evaluation\"}"); }
		}
		if (fp) { Z3_solver_dec_ref(g_z, zsFp); zsFp = 0; }
		else if (attempt == 1) Z3_solver_dec_ref(g_z, s);
	}
	double dt = now() - t0; tSolver += dt; if (const char* dd = getenv("VPSYM_DUMP")) if (dt > atof(getenv("VPSYM_DUMP_S") ? getenv("VPSYM_DUMP_S") : "0.03")) { static int dn; std::string fn = std::string(dd) + "/q" + std::to_string(getpid()) + "_" + std::to_string(dn++) + ".smt2"; Z3_solver t = mkSolver(0); for (Ex* e : sl) Z3_solver_assert(g_z, t, zBool(e)); Z3_solver_assert(g_z, t, zBool(cond)); FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "; %.3f r=%d\n%s(check-sat)\n", dt, r, Z3_solver_to_string(g_z, t)); fclose(f); } Z3_solver_dec_ref(g_z, t); }
	if (optVerbose && dt > 1) fprintf(stderr, "slow query %.1fs r=%d sl=%zu\n", dt, r, sl.size());
	if (r == UNSAT) { QR q; q.r = UNSAT; qcache[key] = q; }
	if (r == UNK) { nUnknown++; QR q; q.r = UNK; qcache[key] = q; }
	return r; }

static std::string where(Instruction* I) { if (!I) return "?"; std::string fn = I->getFunction()->getName().str(); if (auto& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); size_t p = f.rfind('/'); return fn + "@" + (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d.getLine()); } return fn; }
static Instruction* curI(State& S) { if (S.st.empty()) return 0; Frame& F = S.st.back(); auto& v = F.f->bb[F.bb].ins; return v[std::min((size_t)F.pc, v.size() - 1)].I; }
static std::string stackOf(State& S) { std::string r; for (size_t i = S.st.size(); i-- > 0;) { Frame& F = S.st[i]; int pc = F.pc; if (i + 1 < S.st.size() && pc > 0) pc--; r += where(F.f->bb[F.bb].ins[pc].I); if (i) r += " < "; } return r; }
static std::string tapeOf(State& S, const Model& m) { std::string r = "["; for (size_t i = 0; i < S.tape.size(); i++) { u32 v = S.tape[i].first; u64 x = v < m.size() ? m[v] & maskw(S.tape[i].second) : 0; r += (i ? "," : "") + std::to_string(x); } return r + "]"; }
static void violation(State& S, const char* kind, const std::string& msg, const Model& m) {
	std::string stk = stackOf(S); size_t cut = 0; for (int i = 0; i < 3 && cut != std::string::npos; i++) cut = stk.find(" < ", cut ? cut + 3 : 0); std::string key = std::string(kind) + "|" + msg + "|" + stk.substr(0, cut); if (!seenViol.insert(key).second) return;
	emit(std::string("{\"t\":\"viol\",\"kind\":\"") + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(where(curI(S))) + "\",\"stack\":\"" + jesc(stackOf(S)) + "\",\"tape\":" + tapeOf(S, m) + "}"); }
static void incomplete(State& S, const std::string& msg) { static std::set<std::string> seen; if (!seen.insert(msg + where(curI(S))).second) return; emit("{\"t\":\"incomplete\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(where(curI(S))) + "\",\"stack\":\"" + jesc(stackOf(S)) + "\",\"tape\":" + tapeOf(S, *S.model) + "}"); }
// the part of an index expression that decides it
static Ex* core(Ex* e) { for (;;) { if ((e->op == O_ADD || (e->op == O_MUL && (e->k[0]->c & 1))) && isK(e->k[0])) e = e->k[1]; else if (e->op == O_ZEXT || e->op == O_SEXT) e = e->k[0]; else if (e->op == O_CONCAT && isK(e->k[1])) e = e->k[0]; else if (e->op == O_CONCAT && isK(e->k[0])) e = e->k[1]; else return e; } }
static void learn(State& S, Ex* e) { if (optSplit && e->op == O_EQ && isK(e->k[0]) && !isK(e->k[1])) S.known[core(e->k[1])] = 1; }
static void addPc(State& S, Ex* e) { if (isK(e)) return; learn(S, e); if (e->op == O_AND) { addPc(S, e->k[0]); addPc(S, e->k[1]); return; } for (Ex* x : S.pc) if (x == e) return; S.pc.push_back(e); }
static bool usesUninit(Ex* e) { for (u32 v : *e->vs) if (g_vars[v].kind == 1) return true; return false; }

// Both sides of cond: continues S with the returned side; the other side, if feasible, becomes a new state
// (through prep, which is called on the copy).
static State* forkOn(State& S, Ex* cond, bool& taken) {
	if (isK(cond)) { taken = cond->c; return 0; }
	if (optUninit && usesUninit(cond)) violation(S, "uninit", "decision depends on uninitialised memory", *S.model);
	taken = evalEx(cond, *S.model); Ex* other = taken ? xNot(cond) : cond; Model m; R r = query(S, other, m);
	if (r == UNSAT) { return 0; }
	if (r == UNK) { incomplete(S, "solver gave no answer"); addPc(S, taken ? cond : xNot(cond)); return 0; }
	State* n = new State(S); addPc(*n, other); n->model = std::make_shared<Model>(m); n->depth++; nForks++;
	addPc(S, taken ? cond : xNot(cond)); S.depth++; return n; }
static bool mayBe(State& S, Ex* cond, Model& m) { if (isK(cond)) { m = *S.model; return cond->c; } if (evalEx(cond, *S.model)) { m = *S.model; return true; } R r = query(S, cond, m); if (r == UNK) { incomplete(S, "solver gave no answer"); return false; } return r == SAT; }
// Concretise e by forking over all its values (the alternatives re-execute the current instruction).
static u64 concretize(State& S, Ex* e) {
	if (isK(e)) return e->c;
	u64 v = evalEx(e, *S.model); Ex* eq = xEq(K(v, e->w), e); Model m; R r = query(S, xNot(eq), m);
	if (r == SAT) { if (S.enumc >= optEnum) { incomplete(S, "enumeration limit"); }
		else { State* n = new State(S); addPc(*n, xNot(eq)); n->model = std::make_shared<Model>(m); n->depth++; n->enumc++; nForks++; work.push_back(n); } }
	else if (r == UNK) incomplete(S, "solver gave no answer");
	addPc(S, eq); S.enumc = 0; return v; }

// ---- memory access --------------------------------------------------------------------------------------
static Ex* const UNINIT = (Ex*)8;   // not yet materialised uninitialised byte
static inline Ex* symAt(Obj* o, u64 i) { Ex* e = o->s[i]; return e == UNINIT ? mkVar(1, o->ubase + i, 8) : e; }
static Ex* byteAt(Obj* o, u64 i) { if (!o->s.empty() && o->s[i]) return symAt(o, i); return K(o->d[i], 8); }
static Val readC(Obj* o, u64 off, unsigned n) {
	bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
	Val r; if (!sym) { u64 v = 0; for (unsigned i = n; i-- > 0;) v = (v << 8) | o->d[off + i]; r = Val(v); }
	else { Ex* e = byteAt(o, off + n - 1); for (unsigned i = n - 1; i-- > 0;) e = xConcat(e, byteAt(o, off + i)); r = V(e); }
	return r; }
static void writeC(Obj* o, u64 off, unsigned n, const Val& v) {
	if (v.e == 0) { for (unsigned i = 0; i < n; i++) o->d[off + i] = v.c >> (8 * i); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = 0; return; }
	if (o->s.empty()) o->s.resize(o->size, 0);
	for (unsigned i = 0; i < n; i++) { Ex* b = xExtract(v.e, 8 * i, 8); if (isK(b)) { o->d[off + i] = b->c; o->s[off + i] = 0; } else o->s[off + i] = b; } }
static const u64 BIG = 4096;
// may the logged write u overlap the access [off, off + n)?  (answers are per 64-byte block and stay valid: the
// path condition only grows)
static bool touches(State& S, Obj::Upd& u, Ex* off, unsigned n) {
	if (!isK(off)) return true; if (isK(u.off)) return u.off->c < off->c + n && off->c < u.off->c + u.n;
	for (u64 b = off->c >> 6; b <= (off->c + n - 1) >> 6; b++) {
		auto it = u.hit->find(b); bool h;
		if (it != u.hit->end()) h = it->second; else { Model m; Ex* c = xAnd(xUlt(u.off, K((b + 1) << 6, 64)), xUlt(K(b << 6, 64), xAdd(u.off, K(u.n, 64)))); h = mayBe(S, c, m); if (!h) (*u.hit)[b] = false; else (*u.hit)[b] = true; }
		if (!h) continue;
		u64 key = 1ull << 63 | off->c << 12 | n; auto jt = u.hit->find(key); if (n >= 4096) return true;
		if (jt == u.hit->end()) { Model m; Ex* c = xAnd(xUlt(u.off, K(off->c + n, 64)), xUlt(off, xAdd(u.off, K(u.n, 64)))); jt = u.hit->insert({key, mayBe(S, c, m)}).first; }
		return jt->second; }
	return false; }
static Val loadObj(State& S, Obj* o, Ex* off, unsigned n) {
	if (isK(off) && o->log.empty()) return readC(o, off->c, n);
	Ex* r;
	if (isK(off)) r = X(readC(o, off->c, n), n * 8);
	else {
		Ex* base = off; u64 k0 = 0; if (off->op == O_ADD && isK(off->k[0])) { k0 = off->k[0]->c; base = off->k[1]; }
		unsigned tz = std::min(knownTZ(base), 12u); u64 stride = 1ull << tz; u64 first = k0 & (stride - 1);
		// the most common entry is the default
		std::unordered_map<u64, u64> cnt; std::vector<std::pair<u64, Val>> ents; Val def; u64 best = 0;
		for (u64 p = first; p + n <= o->size; p += stride) { Val v = readC(o, p, n); ents.push_back({p, v}); u64 c = ++cnt[v.e ? (u64)v.e : v.c * 0x9E3779B97F4A7C15ull + 1]; if (c > best) { best = c; def = v; } }
		if (ents.empty()) { incomplete(S, "symbolic read finds no position"); throw Stop(); }
		r = X(def, n * 8); for (size_t i = ents.size(); i-- > 0;) if (ents[i].second.e != def.e || ents[i].second.c != def.c) r = xIte(xEq(K(ents[i].first, 64), off), X(ents[i].second, n * 8), r); }
	for (auto& u : o->log) {
		if (!touches(S, u, off, n)) continue;
		if (u.n != n || knownTZ(u.off) < (unsigned)__builtin_ctz(n) || knownTZ(off) < (unsigned)__builtin_ctz(n)) {	// unaligned or of another width: byte by byte
			std::vector<Ex*> bs; for (unsigned j = 0; j < n; j++) { Ex* b = xExtract(r, 8 * j, 8); Ex* pos = xAdd(off, K(j, 64)); for (unsigned i = 0; i < u.n; i++) b = xIte(xEq(xAdd(u.off, K(i, 64)), pos), xExtract(u.val, 8 * i, 8), b); bs.push_back(b); }
			Ex* w = bs[n - 1]; for (unsigned j = n - 1; j-- > 0;) w = xConcat(w, bs[j]); r = w; continue; }
		r = xIte(xEq(u.off, off), u.val, r); }
	return V(r); }
static void storeObj(State& S, Obj* o, Ex* off, unsigned n, const Val& v) {
	if (isK(off) && o->log.empty()) { writeC(o, off->c, n, v); return; }
	if (o->size > BIG || !o->log.empty()) { if (isK(off)) { bool t = false; for (auto& u : o->log) if (touches(S, u, off, n)) { t = true; break; } if (!t) { writeC(o, off->c, n, v); return; } }
		o->log.push_back({off, n, X(v, n * 8), std::make_shared<std::map<u64, bool>>()}); return; }
	Ex* base = off; u64 k0 = 0; if (off->op == O_ADD && isK(off->k[0])) { k0 = off->k[0]->c; base = off->k[1]; }
	unsigned tz = std::min(knownTZ(base), 12u); u64 stride = 1ull << tz; u64 first = k0 & (stride - 1); Ex* nv = X(v, n * 8);
	if (stride >= n) { for (u64 p = first; p + n <= o->size; p += stride) { Ex* old = X(readC(o, p, n), n * 8); writeC(o, p, n, V(xIte(xEq(K(p, 64), off), nv, old))); } }
	else { std::vector<Ex*> nb; for (u64 i = 0; i < o->size; i++) nb.push_back(byteAt(o, i));
		for (u64 p = first; p + n <= o->size; p += stride) { Ex* c = xEq(K(p, 64), off); for (unsigned j = 0; j < n; j++) nb[p + j] = xIte(c, xExtract(nv, 8 * j, 8), nb[p + j]); }
		for (u64 i = 0; i < o->size; i++) writeC(o, i, 1, V(nb[i])); } }

static std::string addrDesc(State& S, u64 a) { u64 id = a >> OSHIFT; char b[120]; Obj* o = S.mem.get(id); if (a < 4096) snprintf(b, 120, "null pointer + %llu", (unsigned long long)a); else if (!o) snprintf(b, 120, "%s object %llu", id < S.mem.n ? "freed" : "no", (unsigned long long)id); else snprintf(b, 120, "object of %llu bytes at offset %lld", (unsigned long long)o->size, (long long)(a - addrOf(id))); return b; }
[[noreturn]] static void memErr(State& S, const char* what, u64 a, u64 n, const Model& m) { violation(S, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", m); emit("{\"t\":\"note\",\"msg\":\"" + jesc(addrDesc(S, a)) + "\"}"); nTerm++; throw Stop(); }
static u64 liveSize(Obj* o) { return o->size; }
// Resolves an access of n bytes: object id and offset expression; forks when the pointer may select several objects.
static u64 resolve(State& S, const Val& p, u64 n, bool wr, Ex*& off, const char* what) {
	if (!p.e) {
		u64 id = p.c >> OSHIFT; Obj* o = S.mem.get(id); u64 f = p.c - addrOf(id);
		if (!o || f > liveSize(o) || n > liveSize(o) - f) memErr(S, what, p.c, n, *S.model);
		if (o->symSize) { Ex* bad = xUlt(o->symSize, K(f + n, 64)); Model m; if (mayBe(S, bad, m)) { State* b = new State(S); Ex* good = xNot(bad); addPc(*b, bad); b->model = std::make_shared<Model>(m); violation(*b, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", m); delete b; nTerm++; Model m2; if (!mayBe(S, good, m2)) throw Stop(); S.model = std::make_shared<Model>(m2); addPc(S, good); } }
		if (wr && o->ro) memErr(S, "write to constant memory", p.c, n, *S.model);
		off = K(f, 64); return id; }
	Ex* e = p.e; if (optUninit && usesUninit(e)) violation(S, "uninit", "address depends on uninitialised memory", *S.model);
	for (unsigned rounds = 0; rounds < 256; rounds++) {
		u64 id = 0; bool prov = false;
		if (e->op == O_ADD && isK(e->k[0]) && S.mem.get(e->k[0]->c >> OSHIFT)) { id = e->k[0]->c >> OSHIFT; prov = true; }
		u64 a = 0;
		if (!prov) { a = evalEx(e, *S.model); id = a >> OSHIFT; }
		Obj* o = S.mem.get(id); if (!o) { violation(S, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", *S.model); emit("{\"t\":\"note\",\"msg\":\"" + jesc(addrDesc(S, a)) + "\"}");
			nTerm++; // continue with models in which the pointer is somewhere else
			Model m; Ex* ne = xNot(xEq(K(id, 64 - OSHIFT), xExtract(e, OSHIFT, 64 - OSHIFT))); if (!mayBe(S, ne, m)) throw Stop(); addPc(S, ne); S.model = std::make_shared<Model>(m); continue; }
		off = xAdd(K(0 - addrOf(id), 64), e);
		Ex* inb = n > o->size ? F() : xUle(off, K(o->size - n, 64));
		if (o->symSize && n <= o->size) inb = xAnd(inb, xUle(xAdd(off, K(n, 64)), o->symSize));
		Model m;
		if (mayBe(S, xNot(inb), m)) {
			if (prov) { State b(S); addPc(b, xNot(inb)); b.model = std::make_shared<Model>(m); violation(b, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", m); emit("{\"t\":\"note\",\"msg\":\"" + jesc(addrDesc(S, evalEx(e, m))) + "\"}"); nTerm++;
				Model m2; if (!mayBe(S, inb, m2)) throw Stop(); S.model = std::make_shared<Model>(m2); addPc(S, inb); }
			else { // other objects: a new state that re-executes
				Model m2; if (!mayBe(S, inb, m2)) { // the model's object can never be hit in bounds
					violation(S, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", *S.model); nTerm++;
					Ex* ne = xNot(xEq(K(id, 64 - OSHIFT), xExtract(e, OSHIFT, 64 - OSHIFT))); if (!mayBe(S, ne, m)) throw Stop(); addPc(S, ne); S.model = std::make_shared<Model>(m); continue; }
				// out of bounds in the very same object is an error
				Ex* same = xEq(K(id, 64 - OSHIFT), xExtract(e, OSHIFT, 64 - OSHIFT)); Model m3;
				if (mayBe(S, xAnd(same, xNot(inb)), m3)) { violation(S, "mem", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: ", m3); nTerm++; }
				if (mayBe(S, xNot(same), m3)) { State* b = new State(S); addPc(*b, xNot(same)); b->model = std::make_shared<Model>(m3); b->depth++; nForks++; work.push_back(b); }
				S.model = std::make_shared<Model>(m2); addPc(S, inb); } }
		if (wr && o->ro) memErr(S, "write to constant memory", evalEx(e, *S.model), n, *S.model);
		return id; }
	incomplete(S, "pointer resolution limit"); throw Stop(); }

static u64 newObj(State& S, u64 size, u8 kind, bool zero, const void* site) {
	auto o = std::make_shared<Obj>(); o->size = size; o->symSize = 0; o->kind = kind; o->ro = false; o->site = site; o->d.assign(size, 0);
	o->ubase = 0; if (!zero && size) { o->s.assign(size, UNINIT); o->ubase = S.nUninit; S.nUninit += size; }
	if (kind == 2) S.heapLive++;
	return S.mem.add(o); }

// ---- compilation of functions into slots --------------------------------------------------------------
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t); }
static unsigned nslotsOf(Type* t) { if (t->isVoidTy()) return 0; if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += nslotsOf(e); return n; } if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslotsOf(a->getElementType()); if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; return t->getScalarSizeInBits(); }
static void leavesOf(Type* t, u64 off, std::vector<std::pair<u64, unsigned>>& out) { // (byte offset, bits)
	if (auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + l->getElementOffset(i), out); return; }
	if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out); return; }
	if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) leavesOf(v->getElementType(), off + i * es, out); return; }
	out.push_back({off, bitsOf(t)}); }
static unsigned slotOffset(Type* t, ArrayRef<unsigned> idx, Type** leaf) { unsigned o = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += nslotsOf(s->getElementType(j)); t = s->getElementType(i); } else if (auto* a = dyn_cast<ArrayType>(t)) { o += i * nslotsOf(a->getElementType()); t = a->getElementType(); } } *leaf = t; return o; }
static void unsupported(const std::string& s) { fprintf(stderr, "vpsym: unsupported: %s\n", s.c_str()); emit("{\"t\":\"internal\",\"msg\":\"unsupported " + jesc(s) + "\"}"); _exit(3); }
static void constBits(const Constant* c, std::vector<u64>& out) {
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { out.push_back(0); return; } out.push_back(ci->getZExtValue()); return; }
	if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) unsupported("long double constant"); out.push_back(b.getZExtValue()); return; }
	if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nslotsOf(t); for (unsigned i = 0; i < n; i++) out.push_back(0); return; }
	if (auto* g = dyn_cast<GlobalValue>(c)) { if (auto* ga = dyn_cast<GlobalAlias>(g)) { constBits(ga->getAliasee(), out); return; } auto it = gAddr.find(g); if (it == gAddr.end()) unsupported("global " + g->getName().str()); out.push_back(it->second); return; }
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) constBits(cast<Constant>(o), out); return; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constBits(cd->getElementAsConstant(i), out); return; }
	if (auto* ce = dyn_cast<ConstantExpr>(c)) { std::vector<u64> v;
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { constBits(ce->getOperand(0), v); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("const gep"); out.push_back(v[0] + off.getSExtValue()); return; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: constBits(ce->getOperand(0), v); out.push_back(v[0] & maskw(bitsOf(t))); return;
		case Instruction::Sub: { constBits(ce->getOperand(0), v); constBits(ce->getOperand(1), v); out.push_back((v[0] - v[1]) & maskw(bitsOf(t))); return; }
		case Instruction::Add: { constBits(ce->getOperand(0), v); constBits(ce->getOperand(1), v); out.push_back((v[0] + v[1]) & maskw(bitsOf(t))); return; }
		default: unsupported(std::string("constant expression ") + ce->getOpcodeName()); } }
	unsupported("constant"); }

static CF* compile(Function* f) {
	auto it = cfs.find(f); if (it != cfs.end()) return it->second;
	CF* cf = new CF(); cfs[f] = cf; cf->f = f; cf->ran = false; int ns = 0; DenseMap<const Value*, int> slot; DenseMap<const BasicBlock*, int> bbi;
	for (auto& a : f->args()) { cf->argSlot.push_back(ns); slot[&a] = ns; ns += std::max(1u, nslotsOf(a.getType())); }
	int bi = 0; for (auto& b : *f) { bbi[&b] = bi++; for (auto& I : b) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nslotsOf(I.getType()); } }
	cf->nslots = ns; cf->bb.resize(bi);
	auto opds = [&](const Value* v, std::vector<Opd>& out) { unsigned n = nslotsOf(v->getType());
		if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> b; constBits(c, b); for (u64 x : b) out.push_back({-1, x}); }
		else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) out.push_back({-1, 0});
		else { int s = slot.lookup(v); for (unsigned i = 0; i < n; i++) out.push_back({s + (int)i, 0}); } };
	for (auto& b : *f) { CB& cb = cf->bb[bbi[&b]]; for (auto* p : predecessors(&b)) cb.preds.push_back(p);
		for (auto& I : b) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			if (auto* ph = dyn_cast<PHINode>(&I)) { Phi p; p.dst = slot[&I]; p.n = nslotsOf(I.getType()); p.in.resize(bi); for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { auto& v = p.in[bbi[ph->getIncomingBlock(i)]]; if (v.empty()) opds(ph->getIncomingValue(i), v); } cb.phis.push_back(p); continue; }
			CI c; memset((void*)&c, 0, sizeof c); c.I = &I; c.op = I.getOpcode(); c.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; c.w = (I.getType()->isVoidTy() || isAgg(I.getType())) ? 0 : bitsOf(I.getType());
			std::vector<Opd> ops; 
			if (auto* cbI = dyn_cast<CallBase>(&I)) { c.callee = dyn_cast<Function>(cbI->getCalledOperand()->stripPointerCasts()); if (c.callee && !gAddr.count(c.callee)) {} if (!c.callee) { if (auto* ga = dyn_cast<GlobalAlias>(cbI->getCalledOperand())) c.callee = dyn_cast<Function>(ga->getAliaseeObject()); }
				c.more = new std::vector<Opd>(); if (!c.callee) opds(cbI->getCalledOperand(), *c.more); for (auto& a : cbI->args()) opds(a, *c.more); }
			else if (auto* br = dyn_cast<BranchInst>(&I)) { c.t0 = bbi[br->getSuccessor(0)]; c.t1 = -1; if (br->isConditional()) { opds(br->getCondition(), ops); c.t1 = bbi[br->getSuccessor(1)]; } }
			else if (auto* sw = dyn_cast<SwitchInst>(&I)) { opds(sw->getCondition(), ops); c.w2 = bitsOf(sw->getCondition()->getType()); c.t0 = bbi[sw->getDefaultDest()]; c.more = new std::vector<Opd>(); for (auto& cs : sw->cases()) c.more->push_back({(int)bbi[cs.getCaseSuccessor()], cs.getCaseValue()->getZExtValue()}); }
			else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) { if (isAgg(gep->getType())) unsupported("vector gep"); opds(gep->getPointerOperand(), ops); u64 k = 0; c.more = new std::vector<Opd>();
				for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) { Value* ix = gi.getOperand(); if (auto* st = gi.getStructTypeOrNull()) k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) k += ci->getSExtValue() * sz; else { std::vector<Opd> o; opds(ix, o); c.more->push_back(o[0]); c.more->push_back({(int)bitsOf(ix->getType()), sz}); } } }
				c.aux = k; }
			else if (auto* al = dyn_cast<AllocaInst>(&I)) { c.aux = DL->getTypeAllocSize(al->getAllocatedType()); opds(al->getArraySize(), ops); c.w2 = bitsOf(al->getArraySize()->getType()); }
			else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { std::vector<Opd> o; opds(ev->getAggregateOperand(), o); Type* l; unsigned off = slotOffset(ev->getAggregateOperand()->getType(), ev->getIndices(), &l); c.more = new std::vector<Opd>(o.begin() + off, o.begin() + off + nslotsOf(l)); }
			else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { c.more = new std::vector<Opd>(); opds(iv->getAggregateOperand(), *c.more); std::vector<Opd> o; opds(iv->getInsertedValueOperand(), o); Type* l; unsigned off = slotOffset(iv->getAggregateOperand()->getType(), iv->getIndices(), &l); for (size_t i = 0; i < o.size(); i++) (*c.more)[off + i] = o[i]; }
			else if (auto* ie = dyn_cast<InsertElementInst>(&I)) { auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2)); if (!ci) unsupported("insertelement"); c.more = new std::vector<Opd>(); opds(ie->getOperand(0), *c.more); std::vector<Opd> o; opds(ie->getOperand(1), o); (*c.more)[ci->getZExtValue()] = o[0]; }
			else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { auto* ci = dyn_cast<ConstantInt>(ee->getOperand(1)); if (!ci) unsupported("extractelement"); std::vector<Opd> o; opds(ee->getOperand(0), o); c.more = new std::vector<Opd>{o[ci->getZExtValue()]}; }
			else if (isa<StoreInst>(I)) { opds(I.getOperand(1), ops); c.more = new std::vector<Opd>(); opds(I.getOperand(0), *c.more); }
			else if (isa<ReturnInst>(I)) { c.more = new std::vector<Opd>(); if (I.getNumOperands()) opds(I.getOperand(0), *c.more); }
			else if (isa<SelectInst>(I)) { opds(I.getOperand(0), ops); if (ops.size() != 1) unsupported("vector select"); c.more = new std::vector<Opd>(); opds(I.getOperand(1), *c.more); opds(I.getOperand(2), *c.more); }
			else if (isa<FreezeInst>(I)) { c.more = new std::vector<Opd>(); opds(I.getOperand(0), *c.more); }
			else { for (auto& o : I.operands()) opds(o, ops); if (I.getNumOperands()) { Type* t0 = I.getOperand(0)->getType(); c.w2 = isAgg(t0) ? 0 : bitsOf(t0); }
				if (isAgg(I.getType()) && !isa<LoadInst>(I)) { if (isa<BitCastInst>(I)) {} else unsupported("vector operation " + std::string(I.getOpcodeName()) + " in " + f->getName().str()); } 
				if (isa<BitCastInst>(I) && (isAgg(I.getType()) != isAgg(I.getOperand(0)->getType()))) unsupported("vector bitcast"); }
			if (ops.size() > 4) unsupported("operands"); c.n = ops.size(); for (size_t i = 0; i < ops.size(); i++) c.a[i] = ops[i];
			if (auto* cm = dyn_cast<CmpInst>(&I)) c.aux = cm->getPredicate();
			if (isa<LoadInst>(I) || isa<StoreInst>(I)) { auto* lv = new std::vector<std::pair<u64, unsigned>>(); leavesOf(isa<LoadInst>(I) ? I.getType() : I.getOperand(0)->getType(), 0, *lv); c.ext = lv; }
			cb.ins.push_back(c); } }
	return cf; }

// a value the path condition has pinned down is the one the current model gives it
static inline Val known(State& S, const Val& v) { if (!v.e || S.known.empty() || !S.known.count(core(v.e))) return v; return Val(evalEx(v.e, *S.model)); }
// small objects: one path per position
static Ex* split(State& S, Obj* o, Ex* off) { if (isK(off) || !optSplit) return off; Ex* b = core(off); if (S.known.count(b)) return K(evalEx(off, *S.model), 64); unsigned tz = std::min(knownTZ(off), 12u); if ((o->size >> tz) > optSplit) return off; concretize(S, b); return K(evalEx(off, *S.model), 64); }
static inline Val get(Frame& F, const Opd& o) { return o.slot < 0 ? Val(o.c) : F.s[o.slot]; }

// ---- globals -------------------------------------------------------------------------------------------
static void initBytes(Obj* o, u64 off, const Constant* c) {
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
	if (auto* st = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(o, off + l->getElementOffset(i), c->getAggregateElement(i)); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initBytes(o, off + i * es, c->getAggregateElement(i)); return; }
	std::vector<u64> b; constBits(c, b); unsigned n = (bitsOf(t) + 7) / 8; writeC(o, off, n, Val(b[0])); }
static void initGlobals(State& S) {
	for (auto& f : *M) { auto o = std::make_shared<Obj>(); o->size = 1; o->symSize = 0; o->kind = 3; o->ro = true; o->d.assign(1, 0); u64 id = S.mem.add(o); gAddr[&f] = addrOf(id); fnAt[addrOf(id)] = &f; }
	for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; auto o = std::make_shared<Obj>(); o->size = sz; o->symSize = 0; o->kind = 0; o->ro = false; o->d.assign(sz, 0); gAddr[&g] = addrOf(S.mem.add(o)); }
	for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = S.mem.wr(gAddr[&g] >> OSHIFT); initBytes(o, 0, g.getInitializer()); o->ro = g.isConstant(); } }

// ---- execution ------------------------------------------------------------------------------------------
static void jump(State& S, Frame& F, int to) {
	CB& cb = F.f->bb[to]; if (!cb.phis.empty()) { std::vector<Val> tmp; for (auto& p : cb.phis) { auto& in = p.in[F.bb]; for (unsigned i = 0; i < p.n; i++) tmp.push_back(get(F, in[i])); } size_t k = 0; for (auto& p : cb.phis) for (unsigned i = 0; i < p.n; i++) F.s[p.dst + i] = tmp[k++]; }
	F.prev = F.bb; F.bb = to; F.pc = 0; }
static std::string cstr(State& S, const Val& p) { std::string r; if (p.e) return "?"; Obj* o = S.mem.get(p.c >> OSHIFT); if (!o) return "?"; for (u64 i = p.c - addrOf(p.c >> OSHIFT); i < o->size && o->d[i]; i++) r += o->d[i]; return r; }
static void endPath(State& S, const char* why) {
	nPaths++; sh->paths++; if (S.depth > nMaxDepth) nMaxDepth = S.depth;
	if (sh->samples < optPathSamples || (nPaths & (nPaths - 1)) == 0) { sh->samples++; std::string o = "["; Model& m = *S.model; 
		bool un = false; for (size_t i = 0; i < S.outs.size(); i++) { if (usesUninit(S.outs[i].first)) un = true; o += (i ? "," : "") + std::to_string(evalEx(S.outs[i].first, m)); }
		if (!un) emit("{\"t\":\"path\",\"tape\":" + tapeOf(S, m) + ",\"out\":" + o + "]}"); }
	if (sh->paths >= optMaxPaths) { sh->stop = 2; } }
static void pushCall(State& S, Function* f, std::vector<Val>& args, std::vector<unsigned>* abits, int retDst, CallBase* cbI) {
	if (S.st.size() > optDepth) { violation(S, "stack", "recursion deeper than " + std::to_string(optDepth) + " frames", *S.model); nTerm++; throw Stop(); }
	CF* cf = compile(f); cf->ran = true; S.st.emplace_back(); Frame& F = S.st.back(); F.f = cf; F.bb = 0; F.pc = 0; F.prev = -1; F.s.resize(cf->nslots); F.retDst = retDst; F.varargs = 0;
	size_t k = 0; unsigned ai = 0;
	for (auto& a : f->args()) { unsigned n = nslotsOf(a.getType()); 
		if (cbI && ai < cbI->arg_size() && a.hasByValAttr()) { // copy of the caller's struct
			u64 sz = DL->getTypeAllocSize(a.getParamByValType()); Val src = args[k]; if (src.e) { incomplete(S, "byval through symbolic pointer"); throw Stop(); }
			u64 sid = src.c >> OSHIFT; Obj* so = S.mem.get(sid); u64 f0 = src.c - addrOf(sid); if (!so || f0 + sz > so->size) memErr(S, "read", src.c, sz, *S.model);
			u64 id = newObj(S, sz, 1, true, 0); Obj* d = S.mem.wr(id); so = S.mem.get(sid); for (u64 i = 0; i < sz; i++) writeC(d, i, 1, readC(so, f0 + i, 1)); F.s[cf->argSlot[ai]] = Val(addrOf(id)); F.allocas.push_back(id); k += n; ai++; continue; }
		for (unsigned i = 0; i < n && k < args.size(); i++) F.s[cf->argSlot[ai] + i] = args[k++]; ai++; }
	if (f->isVarArg()) { std::vector<Val> rest(args.begin() + std::min(k, args.size()), args.end()); u64 id = newObj(S, std::max<u64>(8, rest.size() * 8), 1, true, 0); Obj* o = S.mem.wr(id); for (size_t i = 0; i < rest.size(); i++) writeC(o, i * 8, 8, rest[i].e ? V(xZext(rest[i].e, 64)) : rest[i]); F.varargs = addrOf(id); F.allocas.push_back(id); } }

static bool touchesAny(State& S, Obj* o, u64 off, u64 n) { for (u64 b = off & ~63ull; b < off + n; b += 64) { u64 lo = std::max(b, off), hi = std::min(b + 64, off + n); Ex* e = K(lo, 64); for (auto& u : o->log) if (touches(S, u, e, hi - lo)) return true; } return false; }
static void doMem(State& S, Val dst, Val src, Val len, int kind, u8 lw) { // 0 memcpy/move, 1 memset
	u64 n = len.e ? concretize(S, len.e) : len.c; if (n == 0) return;
	if (dst.e) dst = Val(concretize(S, dst.e)); if (kind == 0 && src.e) src = Val(concretize(S, src.e));
	Ex* off; Ex* soff; u64 sid = 0;
	if (kind == 0) sid = resolve(S, src, n, false, soff, "read");
	u64 did = resolve(S, dst, n, true, off, "write");
	Obj* d = S.mem.wr(did);
	if (kind == 1) { if (!d->log.empty() && touchesAny(S, d, off->c, n)) { incomplete(S, "block write to logged object"); throw Stop(); } for (u64 i = 0; i < n; i++) { writeC(d, off->c + i, 1, src.e ? V(xExtract(src.e, 0, 8)) : Val(src.c & 255)); } return; }
	Obj* s = S.mem.get(sid); if ((!d->log.empty() && touchesAny(S, d, off->c, n)) || (!s->log.empty() && touchesAny(S, s, soff->c, n))) { incomplete(S, "block copy of logged object"); throw Stop(); }
	std::vector<Val> t; u64 i = 0; bool anyS = !s->s.empty();
	if (!anyS) { std::vector<u8> tmp(s->d.begin() + soff->c, s->d.begin() + soff->c + n); std::copy(tmp.begin(), tmp.end(), d->d.begin() + off->c); if (!d->s.empty()) std::fill(d->s.begin() + off->c, d->s.begin() + off->c + n, (Ex*)0); return; }
	std::vector<u8> tb(s->d.begin() + soff->c, s->d.begin() + soff->c + n); std::vector<Ex*> te(n); for (i = 0; i < n; i++) te[i] = s->s[soff->c + i] ? symAt(s, soff->c + i) : 0;
	if (d->s.empty()) d->s.resize(d->size, 0); for (i = 0; i < n; i++) { d->d[off->c + i] = tb[i]; d->s[off->c + i] = te[i]; } }

static Val fpBin(Op op, const Val& a, const Val& b, unsigned w) { if (!a.e && !b.e) return Val(evalOp(op, w, 0, w, a.c, b.c, 0)); return V(xFp(op, w, X(a, w), X(b, w))); }
static Ex* isNanX(Ex* a) { return xNot(xFp(O_FEQ, 1, a, a)); }

// engine intrinsics and external functions; returns true when handled
static bool external(State& S, CI& ci, const std::string& nm, std::vector<Val>& a, Val& ret) {
	Frame& F = S.st.back(); (void)F;
	auto conc = [&](Val v) { return v.e ? concretize(S, v.e) : v.c; };
	if (nm == "vp_input") { unsigned bits = conc(a[0]); Ex* v = mkVar(0, S.tape.size(), bits); S.tape.push_back({v->aux, bits}); ret = V(xZext(v, 64));
		Model* m = S.model.get(); if (v->aux < m->size() && (*m)[v->aux]) {} return true; }
	if (nm == "vp_assume_sym") { Ex* c = xNot(xEq(X(a[0], 32), K(0, 32))); if (isK(c)) { if (!c->c) { nPruned++; throw Stop(); } return true; }
		Model m; if (!mayBe(S, c, m)) { nPruned++; throw Stop(); } S.model = std::make_shared<Model>(m); addPc(S, c); return true; }
	if (nm == "vp_check_sym") { Ex* c = xNot(xEq(X(a[0], 32), K(0, 32))); std::string msg = cstr(S, a[1]); reachCount["check:" + msg]++;
		if (isK(c)) { if (!c->c) { violation(S, "check", msg, *S.model); nTerm++; throw Stop(); } return true; }
		if (optUninit && usesUninit(c)) violation(S, "uninit", "checked value depends on uninitialised memory: " + msg, *S.model);
		Model m; if (mayBe(S, xNot(c), m)) { violation(S, "check", msg, m); Model m2; if (!mayBe(S, c, m2)) { nTerm++; throw Stop(); } S.model = std::make_shared<Model>(m2); }
		addPc(S, c); return true; }
	if (nm == "vp_reach_sym") { reachCount["reach:" + cstr(S, a[0])]++; return true; }
	if (nm == "vp_out_sym") { S.outs.push_back({X(a[0], 64), ""}); return true; }
	if (nm == "vp_concretize") { ret = Val(conc(a[0])); return true; }
	if (nm == "vp_fail_limit") { incomplete(S, "bound: " + cstr(S, a[0])); throw Stop(); }
	if (nm == "vp_arg") { u64 i = conc(a[0]); ret = Val(i < 8 ? optArgs[i] : 0); return true; }
	if (nm == "vp_alloc" || nm == "vp_zalloc") { // size
		bool z = nm == "vp_zalloc"; Val sz = a[0];
		if (!sz.e) { if (sz.c > optMaxAlloc) { ret = Val(0); return true; } u64 id = newObj(S, sz.c, 2, z, ci.I); ret = Val(addrOf(id)); return true; }
		Model m; Ex* big = xUlt(K(optMaxAlloc, 64), sz.e); bool taken; State* n = forkOn(S, big, taken); if (n) work.push_back(n); if (taken) { ret = Val(0); return true; }
		// few possible sizes: one path each; otherwise an object with symbolic size
		ret = Val(addrOf(newObj(S, concretize(S, sz.e), 2, z, ci.I))); return true; }
	if (nm == "vp_free") { u64 p = conc(a[0]); if (p == 0) return true; u64 id = p >> OSHIFT; Obj* o = S.mem.get(id); if (!o || o->kind != 2 || p != addrOf(id)) { violation(S, "mem", o ? "free of an address that is not the start of a heap block" : "free of a block that is not live (double free)", *S.model); nTerm++; throw Stop(); } S.mem.del(id); S.heapLive--; return true; }
	if (nm == "vp_block_size") { u64 p = conc(a[0]); Obj* o = S.mem.get(p >> OSHIFT); ret = Val(o ? o->size : 0); if (!o || o->kind != 2 || p != addrOf(p >> OSHIFT)) { violation(S, "mem", "realloc of an invalid block", *S.model); nTerm++; throw Stop(); } return true; }
	if (nm == "vp_heap_live") { ret = Val(S.heapLive); return true; }
	if (nm == "abort" || nm == "__assert_fail" || nm == "exit" || nm == "_exit") { violation(S, "abort", nm + (nm == "__assert_fail" ? " " + cstr(S, a[0]) : ""), *S.model); nTerm++; throw Stop(); }
	if (nm == "fabs" || nm == "fabsf") { unsigned w = nm == "fabs" ? 64 : 32; ret = V(xAnd(X(a[0], w), K(maskw(w) >> 1, w))); return true; }
	if (nm == "floor" || nm == "ceil" || nm == "trunc" || nm == "rint") { ret = V(xFp(O_FRND, 64, X(a[0], 64), 0, nm == "floor" ? 2 : nm == "ceil" ? 1 : nm == "trunc" ? 3 : 0)); return true; }
	if (nm == "sqrt") { ret = V(xFp(O_FSQRT, 64, X(a[0], 64))); return true; }
	if (nm == "fmod" && !a[0].e && !a[1].e) { ret = Val(bD(fmod(fD(a[0].c), fD(a[1].c)))); return true; }
	if (nm == "pow" && !a[0].e && !a[1].e) { ret = Val(bD(pow(fD(a[0].c), fD(a[1].c)))); return true; }
	return false; }

static bool intrinsic(State& S, CI& ci, IntrinsicInst* II, std::vector<Val>& a, Val* ret, unsigned& nret) {
	unsigned w = ci.w; nret = 1;
	switch (II->getIntrinsicID()) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: nret = 0; return true;
	case Intrinsic::stacksave: ret[0] = Val(0); return true;
	case Intrinsic::memcpy: case Intrinsic::memmove: doMem(S, a[0], a[1], a[2], 0, 64); nret = 0; return true;
	case Intrinsic::memset: doMem(S, a[0], a[1], a[2], 1, 64); nret = 0; return true;
	case Intrinsic::expect: ret[0] = a[0]; return true;
	case Intrinsic::fabs: ret[0] = V(xAnd(X(a[0], w), K(maskw(w) >> 1, w))); return true;
	case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: { auto id = II->getIntrinsicID(); ret[0] = V(xFp(O_FRND, w, X(a[0], w), 0, id == Intrinsic::floor ? 2 : id == Intrinsic::ceil ? 1 : id == Intrinsic::trunc ? 3 : 0)); return true; }
	case Intrinsic::sqrt: ret[0] = V(xFp(O_FSQRT, w, X(a[0], w))); return true;
	case Intrinsic::fmuladd: ret[0] = fpBin(O_FADD, fpBin(O_FMUL, a[0], a[1], w), a[2], w); return true;
	case Intrinsic::umax: case Intrinsic::umin: { Ex *x = X(a[0], w), *y = X(a[1], w); Ex* lt = xUlt(x, y); ret[0] = V(II->getIntrinsicID() == Intrinsic::umax ? xIte(lt, y, x) : xIte(lt, x, y)); return true; }
	case Intrinsic::smax: case Intrinsic::smin: { Ex *x = X(a[0], w), *y = X(a[1], w); Ex* lt = xSlt(x, y); ret[0] = V(II->getIntrinsicID() == Intrinsic::smax ? xIte(lt, y, x) : xIte(lt, x, y)); return true; }
	case Intrinsic::abs: { Ex* x = X(a[0], w); ret[0] = V(xIte(xSlt(x, K(0, w)), xNeg(x), x)); return true; }
	case Intrinsic::bswap: { Ex* x = X(a[0], w); Ex* r = xExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = xConcat(r, xExtract(x, 8 * i, 8)); ret[0] = V(r); return true; }
	case Intrinsic::ctpop: { Ex* x = X(a[0], w); Ex* r = K(0, w); for (unsigned i = 0; i < w; i++) r = xAdd(r, xZext(xExtract(x, i, 1), w)); ret[0] = V(r); return true; }
	case Intrinsic::cttz: { Ex* x = X(a[0], w); Ex* r = K(w, w); for (unsigned i = w; i-- > 0;) r = xIte(xExtract(x, i, 1), K(i, w), r); ret[0] = V(r); return true; }
	case Intrinsic::ctlz: { Ex* x = X(a[0], w); Ex* r = K(w, w); for (unsigned i = 0; i < w; i++) r = xIte(xExtract(x, i, 1), K(w - 1 - i, w), r); ret[0] = V(r); return true; }
	case Intrinsic::fshl: case Intrinsic::fshr: { if (a[2].e) break; unsigned s = a[2].c % w; bool l = II->getIntrinsicID() == Intrinsic::fshl; Ex *x = X(a[0], w), *y = X(a[1], w); if (s == 0) { ret[0] = V(l ? x : y); return true; } unsigned hi = l ? s : w - s; ret[0] = V(xConcat(xExtract(x, 0, w - hi), xExtract(y, w - hi, hi))); return true; }
	case Intrinsic::usub_sat: { Ex *x = X(a[0], w), *y = X(a[1], w); ret[0] = V(xIte(xUlt(x, y), K(0, w), xSub(x, y))); return true; }
	case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
		unsigned iw = bitsOf(II->getArgOperand(0)->getType()); Ex *x = X(a[0], iw), *y = X(a[1], iw); nret = 2;
		switch (II->getIntrinsicID()) {
		case Intrinsic::umul_with_overflow: ret[0] = V(xMul(x, y)); ret[1] = V(xOv(O_UMULOV, x, y)); break;
		case Intrinsic::smul_with_overflow: ret[0] = V(xMul(x, y)); ret[1] = V(xOv(O_SMULOV, x, y)); break;
		case Intrinsic::uadd_with_overflow: { Ex* r = xAdd(x, y); ret[0] = V(r); ret[1] = V(xUlt(r, x)); break; }
		case Intrinsic::usub_with_overflow: ret[0] = V(xSub(x, y)); ret[1] = V(xUlt(x, y)); break;
		case Intrinsic::sadd_with_overflow: { Ex* r = xAdd(x, y); Ex* z = K(0, iw); ret[0] = V(r); ret[1] = V(xAnd(xEq(xSlt(x, z), xSlt(y, z)), xNot(xEq(xSlt(x, z), xSlt(r, z))))); break; }
		default: { Ex* r = xSub(x, y); Ex* z = K(0, iw); ret[0] = V(r); ret[1] = V(xAnd(xNot(xEq(xSlt(x, z), xSlt(y, z))), xNot(xEq(xSlt(x, z), xSlt(r, z))))); break; } }
		return true; }
	case Intrinsic::is_fpclass: { if (a[1].e) break; u64 mask = a[1].c; Ex* x = X(a[0], bitsOf(II->getArgOperand(0)->getType())); if (mask == 3) { ret[0] = V(isNanX(x)); return true; } 
		unsigned fw = x->w; unsigned eb = fw == 64 ? 11 : 8, mb = fw - 1 - eb; Ex* ex = xExtract(x, mb, eb); Ex* man = xExtract(x, 0, mb); Ex* exAll = xEq(K(maskw(eb), eb), ex); Ex* ex0 = xEq(K(0, eb), ex); Ex* m0 = xEq(K(0, mb), man); Ex* neg = xExtract(x, fw - 1, 1); Ex* q = xExtract(x, mb - 1, 1); Ex* r = F();
		auto add = [&](unsigned bit, Ex* e) { if (mask >> bit & 1) r = xOr(r, e); };
		add(0, xAnd(exAll, xAnd(xNot(m0), xNot(q)))); add(1, xAnd(exAll, xAnd(xNot(m0), q))); add(2, xAnd(neg, xAnd(exAll, m0))); add(9, xAnd(xNot(neg), xAnd(exAll, m0)));
		Ex* norm = xAnd(xNot(exAll), xNot(ex0)); add(3, xAnd(neg, norm)); add(8, xAnd(xNot(neg), norm)); Ex* sub = xAnd(ex0, xNot(m0)); add(4, xAnd(neg, sub)); add(7, xAnd(xNot(neg), sub)); Ex* zz = xAnd(ex0, m0); add(5, xAnd(neg, zz)); add(6, xAnd(xNot(neg), zz)); ret[0] = V(r); return true; }
	case Intrinsic::vastart: { Frame& F = S.st.back(); Ex* off; u64 id = resolve(S, a[0], 24, true, off, "write"); Obj* o = S.mem.wr(id); writeC(o, off->c, 4, Val(48)); writeC(o, off->c + 4, 4, Val(304)); writeC(o, off->c + 8, 8, Val(F.varargs)); writeC(o, off->c + 16, 8, Val(0)); nret = 0; return true; }
	case Intrinsic::vacopy: doMem(S, a[0], a[1], Val(24), 0, 64); nret = 0; return true;
	case Intrinsic::trap: violation(S, "abort", "trap", *S.model); nTerm++; throw Stop();
	default: break; }
	return false; }

static void step(State& S) {
	Frame& F = S.st.back(); CI& c = F.f->bb[F.bb].ins[F.pc]; S.steps++; nInstr++;
	unsigned w = c.w; if (w > 64) { incomplete(S, "integer type wider than 64 bits"); throw Stop(); }
	#define A0 get(F, c.a[0])
	#define A1 get(F, c.a[1])
	#define SET(v) do { F.s[c.dst] = (v); F.pc++; return; } while (0)
	switch (c.op) {
	case Instruction::Add: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val((a.c + b.c) & maskw(w))); SET(V(xAdd(X(a, w), X(b, w)))); }
	case Instruction::Sub: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val((a.c - b.c) & maskw(w))); SET(V(xSub(X(a, w), X(b, w)))); }
	case Instruction::Mul: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val((a.c * b.c) & maskw(w))); SET(V(xMul(X(a, w), X(b, w)))); }
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		Val a = A0, b = A1; Ex* z = xEq(K(0, w), X(b, w)); Model m;
		if (mayBe(S, z, m)) { violation(S, "div", "division by zero", m); nTerm++; Model m2; if (!mayBe(S, xNot(z), m2)) throw Stop(); S.model = std::make_shared<Model>(m2); addPc(S, xNot(z)); }
		Op op = c.op == Instruction::UDiv ? O_UDIV : c.op == Instruction::SDiv ? O_SDIV : c.op == Instruction::URem ? O_UREM : O_SREM;
		if (c.op == Instruction::SDiv || c.op == Instruction::SRem) { Ex* ov = xAnd(xEq(K(maskw(w), w), X(b, w)), xEq(K(1ull << (w - 1), w), X(a, w))); if (mayBe(S, ov, m)) { violation(S, "div", "signed division overflow", m); nTerm++; Model m2; if (!mayBe(S, xNot(ov), m2)) throw Stop(); S.model = std::make_shared<Model>(m2); addPc(S, xNot(ov)); } }
		SET(V(xBin(op, X(a, w), X(b, w)))); }
	case Instruction::And: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val(a.c & b.c)); SET(V(xAnd(X(a, w), X(b, w)))); }
	case Instruction::Or: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val(a.c | b.c)); SET(V(xOr(X(a, w), X(b, w)))); }
	case Instruction::Xor: { Val a = A0, b = A1; if (!a.e && !b.e) SET(Val(a.c ^ b.c)); SET(V(xXor(X(a, w), X(b, w)))); }
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { Val a = A0, b = A1; Op op = c.op == Instruction::Shl ? O_SHL : c.op == Instruction::LShr ? O_LSHR : O_ASHR;
		Ex* s = X(b, w); if (w == 32 || w == 64) s = xAnd(s, K(w - 1, w)); SET(V(xShift(op, X(a, w), s))); }
	case Instruction::ICmp: { Val a = known(S, A0), b = known(S, A1); unsigned iw = c.w2; 
		if (!a.e && !b.e) { u64 x = a.c & maskw(iw), y = b.c & maskw(iw); bool r; switch (c.aux) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx(x, iw) < sx(y, iw); break; case CmpInst::ICMP_SLE: r = sx(x, iw) <= sx(y, iw); break; case CmpInst::ICMP_SGT: r = sx(x, iw) > sx(y, iw); break; default: r = sx(x, iw) >= sx(y, iw); } SET(Val(r)); }
		Ex *x = X(a, iw), *y = X(b, iw), *r; switch (c.aux) { case CmpInst::ICMP_EQ: r = xEq(x, y); break; case CmpInst::ICMP_NE: r = xNot(xEq(x, y)); break; case CmpInst::ICMP_ULT: r = xUlt(x, y); break; case CmpInst::ICMP_ULE: r = xUle(x, y); break; case CmpInst::ICMP_UGT: r = xUlt(y, x); break; case CmpInst::ICMP_UGE: r = xUle(y, x); break; case CmpInst::ICMP_SLT: r = xSlt(x, y); break; case CmpInst::ICMP_SLE: r = xSle(x, y); break; case CmpInst::ICMP_SGT: r = xSlt(y, x); break; default: r = xSle(y, x); } SET(V(r)); }
	case Instruction::FCmp: { Ex *x = X(A0, c.w2), *y = X(A1, c.w2); Ex* uno = xOr(isNanX(x), isNanX(y)); Ex* r;
		switch (c.aux) { case CmpInst::FCMP_FALSE: r = F.s.empty() ? ::F() : ::F(); break; case CmpInst::FCMP_TRUE: r = T(); break; case CmpInst::FCMP_OEQ: r = xFp(O_FEQ, 1, x, y); break; case CmpInst::FCMP_OLT: r = xFp(O_FLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = xFp(O_FLE, 1, x, y); break; case CmpInst::FCMP_OGT: r = xFp(O_FLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = xFp(O_FLE, 1, y, x); break; case CmpInst::FCMP_ONE: r = xAnd(xNot(uno), xNot(xFp(O_FEQ, 1, x, y))); break; case CmpInst::FCMP_ORD: r = xNot(uno); break; case CmpInst::FCMP_UNO: r = uno; break;
		case CmpInst::FCMP_UEQ: r = xOr(uno, xFp(O_FEQ, 1, x, y)); break; case CmpInst::FCMP_UNE: r = xNot(xFp(O_FEQ, 1, x, y)); break; case CmpInst::FCMP_ULT: r = xNot(xFp(O_FLE, 1, y, x)); break; case CmpInst::FCMP_ULE: r = xNot(xFp(O_FLT, 1, y, x)); break; case CmpInst::FCMP_UGT: r = xNot(xFp(O_FLE, 1, x, y)); break; default: r = xNot(xFp(O_FLT, 1, x, y)); }
		SET(V(r)); }
	case Instruction::FAdd: SET(fpBin(O_FADD, A0, A1, w)); case Instruction::FSub: SET(fpBin(O_FSUB, A0, A1, w)); case Instruction::FMul: SET(fpBin(O_FMUL, A0, A1, w)); case Instruction::FDiv: SET(fpBin(O_FDIV, A0, A1, w));
	case Instruction::FRem: { Val a = A0, b = A1; if (a.e || b.e) { incomplete(S, "symbolic frem"); throw Stop(); } SET(Val(w == 64 ? bD(fmod(fD(a.c), fD(b.c))) : bF(fmodf(fF(a.c), fF(b.c))))); }
	case Instruction::FNeg: SET(V(xXor(X(A0, w), K(1ull << (w - 1), w))));
	case Instruction::FPToSI: SET(V(xFp(O_FTOSI, w, X(A0, c.w2)))); case Instruction::FPToUI: SET(V(xFp(O_FTOUI, w, X(A0, c.w2)))); case Instruction::SIToFP: SET(V(xFp(O_SITOF, w, X(A0, c.w2)))); case Instruction::UIToFP: SET(V(xFp(O_UITOF, w, X(A0, c.w2))));
	case Instruction::FPExt: if (w == c.w2) SET(A0); SET(V(xFp(O_FEXT, w, X(A0, c.w2)))); case Instruction::FPTrunc: SET(V(xFp(O_FTRUNC, w, X(A0, c.w2))));
	case Instruction::ZExt: { Val a = A0; if (!a.e) SET(a); SET(V(xZext(a.e, w))); }
	case Instruction::SExt: { Val a = A0; if (!a.e) SET(Val((u64)sx(a.c, c.w2) & maskw(w))); SET(V(xSext(a.e, w))); }
	case Instruction::Trunc: { Val a = A0; if (!a.e) SET(Val(a.c & maskw(w))); SET(V(xExtract(a.e, 0, w))); }
	case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = A0; if (!a.e) SET(Val(a.c & maskw(w))); SET(V(w < a.e->w ? xExtract(a.e, 0, w) : xZext(a.e, w))); }
	case Instruction::BitCast: case Instruction::AddrSpaceCast: if (c.n == 1) SET(A0); for (unsigned i = 0; i < c.n; i++) F.s[c.dst + i] = get(F, c.a[i]); F.pc++; return;
	case Instruction::Freeze: case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::ExtractElement: case Instruction::InsertElement: { std::vector<Val> t; for (auto& o : *c.more) t.push_back(get(F, o)); for (size_t i = 0; i < t.size(); i++) F.s[c.dst + i] = t[i]; F.pc++; return; }
	case Instruction::Select: { Val a = A0; size_t n = c.more->size() / 2; 
		if (!a.e) { for (size_t i = 0; i < n; i++) F.s[c.dst + i] = get(F, (*c.more)[(a.c ? 0 : n) + i]); F.pc++; return; }
		unsigned sw = w ? w : 0; if (!sw) { incomplete(S, "aggregate select"); throw Stop(); } Val x = get(F, (*c.more)[0]), y = get(F, (*c.more)[1]);
		if (c.I->getType()->isPointerTy() && (x.e || y.e || (x.c >> OSHIFT) != (y.c >> OSHIFT))) { bool tk; State* n2 = forkOn(S, a.e, tk); if (n2) { work.push_back(n2); } F.s[c.dst] = tk ? x : y; F.pc++; return; }
		SET(V(xIte(a.e, X(x, sw), X(y, sw)))); }
	case Instruction::Br: { if (c.t1 < 0) { jump(S, F, c.t0); return; } Val a = A0; if (!a.e) { jump(S, F, a.c ? c.t0 : c.t1); return; }
		bool tk; State* n = forkOn(S, a.e, tk); if (n) { jump(*n, n->st.back(), tk ? c.t1 : c.t0); work.push_back(n); } jump(S, F, tk ? c.t0 : c.t1); return; }
	case Instruction::Switch: { Val a = A0; if (!a.e) { for (auto& o : *c.more) if (o.c == a.c) { jump(S, F, o.slot); return; } jump(S, F, c.t0); return; }
		// group by target
		std::map<int, Ex*> cond; Ex* any = ::F(); for (auto& o : *c.more) { Ex* q = xEq(K(o.c, c.w2), a.e); any = xOr(any, q); auto it = cond.find(o.slot); if (it == cond.end()) cond[o.slot] = q; else it->second = xOr(it->second, q); }
		for (auto& p : cond) { if (p.first == c.t0) continue; bool tk; State* n = forkOn(S, p.second, tk); if (tk) { if (n) work.push_back(n); jump(S, F, p.first); return; } if (n) { jump(*n, n->st.back(), p.first); work.push_back(n); } }
		jump(S, F, c.t0); return; }
	case Instruction::GetElementPtr: { Val p = known(S, A0); u64 k = c.aux; Ex* se = 0; for (size_t i = 0; i < c.more->size(); i += 2) { Val ix = known(S, get(F, (*c.more)[i])); unsigned iw = (*c.more)[i + 1].slot; u64 sz = (*c.more)[i + 1].c; if (!ix.e) k += (u64)sx(ix.c, iw) * sz; else { Ex* t = xMul(K(sz, 64), xSext(ix.e, 64)); se = se ? xAdd(se, t) : t; } }
		if (!p.e && !se) SET(Val(p.c + k)); Ex* r = xAdd(X(p, 64), K(k, 64)); if (se) r = xAdd(r, se); SET(V(r)); }
	case Instruction::Alloca: { Val n = A0; u64 cnt = n.e ? concretize(S, n.e) : n.c; u64 id = newObj(S, c.aux * cnt, 1, false, c.I); F.allocas.push_back(id); SET(Val(addrOf(id))); }
	case Instruction::Load: { auto& lv = *(std::vector<std::pair<u64, unsigned>>*)c.ext; u64 tot = lv.back().first + (lv.back().second + 7) / 8; Val p = A0; Ex* off; u64 id = resolve(S, p, tot, false, off, "read"); Obj* o = S.mem.get(id); off = split(S, o, off);
		std::vector<Val> t; for (auto& l : lv) { unsigned n = (l.second + 7) / 8; Val v; if (n <= 8 && (n & (n - 1)) == 0) v = loadObj(S, o, xAdd(off, K(l.first, 64)), n); else if (n <= 8) { Ex* e = 0; for (unsigned i = 0; i < n; i++) { Ex* b = X(loadObj(S, o, xAdd(off, K(l.first + i, 64)), 1), 8); e = e ? xConcat(b, e) : b; } v = V(e); } else { incomplete(S, "wide load"); throw Stop(); }
			if (l.second < n * 8) v = v.e ? V(xExtract(v.e, 0, l.second)) : Val(v.c & maskw(l.second)); t.push_back(v); }
		for (size_t i = 0; i < t.size(); i++) F.s[c.dst + i] = t[i]; F.pc++; return; }
	case Instruction::Store: { auto& lv = *(std::vector<std::pair<u64, unsigned>>*)c.ext; u64 tot = lv.back().first + (lv.back().second + 7) / 8; Val p = A0; Ex* off; u64 id = resolve(S, p, tot, true, off, "write"); Obj* o = S.mem.wr(id); off = split(S, o, off);
		for (size_t i = 0; i < lv.size(); i++) { auto& l = lv[i]; unsigned n = (l.second + 7) / 8; Val v = get(F, (*c.more)[i]); if (l.second < n * 8 && v.e) v = V(xZext(v.e, n * 8)); if (n <= 8 && (n & (n - 1)) == 0) storeObj(S, o, xAdd(off, K(l.first, 64)), n, v); else if (n <= 8) { for (unsigned j = 0; j < n; j++) storeObj(S, o, xAdd(off, K(l.first + j, 64)), 1, v.e ? V(xExtract(v.e, 8 * j, 8)) : Val((v.c >> (8 * j)) & 255)); } else { incomplete(S, "wide store"); throw Stop(); } }
		F.pc++; return; }
	case Instruction::Ret: { std::vector<Val> r; for (auto& o : *c.more) r.push_back(get(F, o)); for (u64 id : F.allocas) S.mem.del(id); int d = F.retDst; S.st.pop_back(); if (S.st.empty()) { endPath(S, "ret"); throw Stop(); } Frame& C = S.st.back(); if (d >= 0) for (size_t i = 0; i < r.size(); i++) C.s[d + i] = r[i]; return; }
	case Instruction::Unreachable: violation(S, "abort", "unreachable code reached", *S.model); nTerm++; throw Stop();
	case Instruction::Call: { CallBase* cbI = cast<CallBase>(c.I); std::vector<Val> a; size_t k = 0; Function* f = c.callee;
		if (!f) { Val fp = get(F, (*c.more)[0]); if (cbI->isInlineAsm()) { F.pc++; return; } k = 1; u64 ad = fp.e ? concretize(S, fp.e) : fp.c; auto it = fnAt.find(ad); if (it == fnAt.end()) { violation(S, "mem", "call through an invalid function pointer", *S.model); nTerm++; throw Stop(); } f = it->second; }
		for (; k < c.more->size(); k++) a.push_back(get(F, (*c.more)[k]));
		if (f->isIntrinsic()) { Val r[2]; unsigned nr; if (!intrinsic(S, c, cast<IntrinsicInst>(c.I), a, r, nr)) { if (optVerbose) fprintf(stderr, "intrinsic %s\n", f->getName().str().c_str()); incomplete(S, "unsupported intrinsic " + f->getName().str()); throw Stop(); } if (c.dst >= 0) for (unsigned i = 0; i < nr; i++) F.s[c.dst + i] = r[i]; F.pc++; return; }
		if (f->isDeclaration()) { Val r; std::string nm = f->getName().str(); if (nm == "memcpy" || nm == "memmove") { doMem(S, a[0], a[1], a[2], 0, 64); r = a[0]; } else if (nm == "memset") { doMem(S, a[0], a[1], a[2], 1, 64); r = a[0]; } else if (!external(S, c, nm, a, r)) { incomplete(S, "call of external function " + nm); throw Stop(); } if (c.dst >= 0) S.st.back().s[c.dst] = r; S.st.back().pc++; return; }
		F.pc++; pushCall(S, f, a, 0, c.dst, cbI); return; }
	default: incomplete(S, std::string("unsupported instruction ") + c.I->getOpcodeName()); throw Stop(); } }

static void finishProcess(bool root) {
	std::string fn = "["; bool first = true; for (auto& p : cfs) if (p.second->ran) { auto* sp = p.first->getSubprogram(); std::string file = sp ? sp->getFilename().str() : ""; fn += std::string(first ? "" : ",") + "\"" + jesc(file) + ":" + p.first->getName().str() + "\""; first = false; } fn += "]";
	std::string rc = "{"; first = true; for (auto& p : reachCount) { rc += std::string(first ? "" : ",") + "\"" + jesc(p.first) + "\":" + std::to_string(p.second); first = false; } rc += "}";
	char b[600]; snprintf(b, 600, "{\"t\":\"stats\",\"paths\":%llu,\"pruned\":%llu,\"term\":%llu,\"instr\":%llu,\"forks\":%llu,\"queries\":%llu,\"cached\":%llu,\"solver\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"depth\":%llu,\"exprs\":%u,", (unsigned long long)nPaths, (unsigned long long)nPruned, (unsigned long long)nTerm, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nQCache, (unsigned long long)nSolver, (unsigned long long)nUnknown, tSolver, (unsigned long long)nMaxDepth, g_exid);
	emit(std::string(b) + "\"reach\":" + rc + ",\"funcs\":" + fn + "}"); }
static void resetCounters() { nPaths = nPruned = nInstr = nForks = nQueries = nQCache = nSolver = nUnknown = nTerm = 0; tSolver = 0; reachCount.clear(); for (auto& p : cfs) p.second->ran = false; }
static bool isChild = false; static int pipeFd[2];

static void exploreLoop() {
	double lastDonate = now();
	while (!work.empty()) {
		State* S = work.back(); work.pop_back();
		try { u64 cnt = 0; while (true) {
			step(*S);
			if (S->steps > optSteps) { violation(*S, "steps", "instruction budget exceeded", *S->model); nTerm++; throw Stop(); }
			if ((++cnt & 1023) == 0 || !work.empty()) { if ((cnt & 255) == 0) { double t = now(); if (t - tStart > optTime) { sh->stop = 1; } if (sh->stop) { delete S; return; }
				if (t - lastDonate > 0.03 && !work.empty() && sh->active < optJobs) { lastDonate = t; sh->active++; sh->spawned++;
					fflush(0); pid_t p = fork(); if (p == 0) { isChild = true; State* n = work.front(); for (size_t i = 1; i < work.size(); i++) delete work[i]; work.clear(); delete S; work.push_back(n); resetCounters(); seenViol.clear(); exploreLoop(); finishProcess(false); sh->doneOk++; sh->active--; _exit(0); }
					else if (p > 0) { delete work.front(); work.erase(work.begin()); } else { sh->active--; sh->spawned--; } } } } } }
		catch (Stop&) { }
		delete S; } }

static int runMain(int argc, char** argv) {
	const char* in = 0;
	for (int i = 1; i < argc; i++) { std::string s = argv[i]; auto nx = [&]() { return argv[++i]; };
		if (s == "-j") optJobs = atoi(nx()); else if (s == "--steps") optSteps = strtoull(nx(), 0, 0); else if (s == "--time") optTime = atof(nx()); else if (s == "--smt-ms") optTimeoutMs = atoi(nx()); else if (s == "--samples") optPathSamples = atoi(nx()); else if (s == "--enum") optEnum = atoi(nx()); else if (s == "-o") optOut = nx(); else if (s == "--depth") optDepth = strtoull(nx(), 0, 0); else if (s == "--split") optSplit = atoi(nx()); else if (s == "--uninit") optUninit = true; else if (s == "-v") optVerbose = true; else if (s == "--max-alloc") optMaxAlloc = strtoull(nx(), 0, 0); else if (s == "--max-paths") optMaxPaths = strtoull(nx(), 0, 0); else if (s == "--arg") { std::string t = nx(); size_t e = t.find('='); optArgs[atoi(t.c_str())] = strtoull(t.c_str() + e + 1, 0, 0); } else in = argv[i]; }
	outFd = open(optOut, O_WRONLY | O_CREAT | O_APPEND, 0644); if (outFd < 0) { perror(optOut); return 3; }
	tStart = now(); sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->active = 1;
	LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx); if (!m) { err.print("vpsym", errs()); return 3; } M = m.get(); DL = &M->getDataLayout();
	z3Init(); Z3_set_error_handler(g_z, onErr); zs = mkSolver(0);
	Function* mf = M->getFunction("main"); if (!mf || mf->isDeclaration()) { fprintf(stderr, "no main\n"); return 3; }
	State* S = new State(); S->model = std::make_shared<Model>(); initGlobals(*S); std::vector<Val> args; for (auto& a : mf->args()) { (void)a; args.push_back(Val(0)); } 
	pushCall(*S, mf, args, 0, -1, 0); work.push_back(S);
	if (pipe(pipeFd)) return 3;
	exploreLoop(); finishProcess(true); close(pipeFd[1]); sh->active--;
	char b; while (read(pipeFd[0], &b, 1) > 0) {}
	while (waitpid(-1, 0, WNOHANG) > 0) {}
	char e[300]; snprintf(e, 300, "{\"t\":\"end\",\"wall\":%.2f,\"stop\":%d,\"spawned\":%llu,\"lost\":%lld}", now() - tStart, (int)sh->stop, (unsigned long long)sh->spawned, (long long)sh->spawned - (long long)sh->doneOk); emit(e);
	return 0; }
int main(int argc, char** argv) {
	signal(SIGCHLD, SIG_IGN);
	struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t want = 1ull << 30; if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? want : std::min(want, rl.rlim_max); if (!getenv("VPSYM_STACK")) { setenv("VPSYM_STACK", "1", 1); if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); } }
	return runMain(argc, argv); }
