// Drives the field/curve/pairing side of ate-pairing: random register-machine programs over the public API,
// every step recorded (operands by register, all registers the call changed, observed outputs).
//   drv_field OUT PROFILE SEED STEPS CURVE(b) MODE MULX [COUNT JUDGE]
// With COUNT, the programs of COUNT consecutive seeds are run and only a digest of each trace is written (one line a program).
#include "common.h"
#include "refuse.h"
#include "bn.h"
#include <fstream>
#include <sstream>
#include <initializer_list>
using namespace bn;
typedef mie::Vuint Vuint;
typedef mie::Vsint Vsint;

// ------------------------------------------------------------------ calls through a sentinel trampoline
extern "C" uint64_t abi_call(void *fn, void *a, void *b, void *c);
__asm__(
".text\n.globl abi_call\n.type abi_call,@function\nabi_call:\n"
"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\nsub $8,%rsp\n"
"mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\n"
"mov $0x1111222233334441,%rbx\nmov $0x1111222233334442,%rbp\nmov $0x1111222233334443,%r12\n"
"mov $0x1111222233334444,%r13\nmov $0x1111222233334445,%r14\nmov $0x1111222233334446,%r15\n"
"call *%rax\n"
"xor %eax,%eax\n"
"mov $0x1111222233334441,%rcx\ncmp %rcx,%rbx\nje 1f\nor $1,%eax\n1:\n"
"mov $0x1111222233334442,%rcx\ncmp %rcx,%rbp\nje 1f\nor $2,%eax\n1:\n"
"mov $0x1111222233334443,%rcx\ncmp %rcx,%r12\nje 1f\nor $4,%eax\n1:\n"
"mov $0x1111222233334444,%rcx\ncmp %rcx,%r13\nje 1f\nor $8,%eax\n1:\n"
"mov $0x1111222233334445,%rcx\ncmp %rcx,%r14\nje 1f\nor $16,%eax\n1:\n"
"mov $0x1111222233334446,%rcx\ncmp %rcx,%r15\nje 1f\nor $32,%eax\n1:\n"
"add $8,%rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
".size abi_call,.-abi_call\n"
);
static TLS uint64_t g_abi;
template<class A, class B, class C>
static void call(void (*fn)(A&, const B&, const C&), A& a, const B& b, const C& c) { g_abi |= abi_call((void*)fn, &a, (void*)&b, (void*)&c); }
template<class A, class B>
static void call(void (*fn)(A&, const B&), A& a, const B& b) { g_abi |= abi_call((void*)fn, &a, (void*)&b, 0); }

// ------------------------------------------------------------------ register file
template<class T> struct Slot { uint64_t pre[2]; T v; uint64_t post[2]; };
enum { NF = 9, NN = 4, NG = 7, NM = 3, NS = 5, NT = 6, ND = 6, NE = 4, NH = 5, NK = 3, NP = 6, NQ = 6, NU = 3, NV = 3, NY = 3 };
struct Machine {
	Slot<Fp> f[NF]; Slot<Fp> n[NN]; Slot<Fp2> g[NG]; Slot<Fp2> m[NM]; Slot<Fp6> s[NS]; Slot<Fp12> t[NT];
	Slot<FpDbl> d[ND]; Slot<FpDbl> e[NE]; Slot<Fp2Dbl> h[NH]; Slot<Fp6Dbl> k[NK];
	Slot<Ec1> p[NP]; Slot<Ec2> q[NQ]; Slot<Ec1> u[NU]; Slot<Ec2> v[NV]; Slot<Fp6> y[NY];
};
union __attribute__((aligned(64))) MU { uint64_t raw[sizeof(Machine) / 8]; MU() {} char align[1]; };
static TLS MU g_mem, g_snap;
#define M (*reinterpret_cast<Machine*>(&g_mem))
#define S0 (*reinterpret_cast<Machine*>(&g_snap))
static TLS std::vector<Fp6> g_c[3];  // line tables

static TLS mpz_class P_, R_, RI_, PN_, ORD_; // p, 2^256 mod p, inverse, p*2^256, group order
static TLS int g_b;

struct Desc { char type; size_t off; size_t size; int idx; };
static TLS std::vector<Desc> g_desc;
template<class T, size_t N> static void addDesc(char c, Slot<T> (&a)[N])
{
	for (size_t i = 0; i < N; i++) {
		Desc x = { c, (size_t)((char*)&a[i] - (char*)&g_mem), sizeof(T), (int)i };
		g_desc.push_back(x);
	}
}
static void fillPads()
{
	for (size_t i = 0; i < g_desc.size(); i++) {
		uint64_t *b = (uint64_t*)((char*)&g_mem + g_desc[i].off);
		size_t w = g_desc[i].size / 8;
		b[0] = b[1] = 0xA5A5A5A5A5A5A500ull + i;
		b[2 + w] = b[3 + w] = 0x5A5A5A5A5A5A5A00ull + i;
	}
}
static bool isDbl(char t) { return t == 'd' || t == 'e' || t == 'h' || t == 'k'; }
static bool zeroWords(const uint64_t *x, size_t n) { for (size_t i = 0; i < n; i++) if (x[i]) return false; return true; }
static Str regVal(const Desc& x)
{
	const uint64_t *b = (const uint64_t*)((char*)&g_mem + x.off) + 2;
	if (g_digestOnly && (((x.type == 'p' || x.type == 'u') && zeroWords(b + 8, 4)) || ((x.type == 'q' || x.type == 'v') && zeroWords(b + 16, 8)))) return "[\"infinity\"]";
	size_t unit = isDbl(x.type) ? 8 : 4;
	Str r = "[";
	for (size_t i = 0; i < x.size / 8; i += unit) { if (i) r += ","; r += q(hexLimbs(b + i, unit)); }
	return r + "]";
}
static Str regName(const Desc& x) { return fmt("%c%d", x.type, x.idx); }
static Str changed()
{
	Str w;
	for (size_t i = 0; i < g_desc.size(); i++) {
		const Desc& x = g_desc[i];
		const char *a = (char*)&g_mem + x.off, *b = (char*)&g_snap + x.off;
		if (memcmp(a, b, x.size + 32) == 0) continue;
		if (memcmp(a, b, 16) || memcmp(a + 16 + x.size, b + 16 + x.size, 16)) {
			w += fmt("%s[\"X%d\",\"x\",[\"0\"]]", w.empty() ? "" : ",", (int)i);
			memcpy((char*)&g_mem + x.off, b, 16);
			memcpy((char*)&g_mem + x.off + 16 + x.size, b + 16 + x.size, 16);
		}
		if (memcmp(a + 16, b + 16, x.size) == 0) continue;
		w += (w.empty() ? "[" : ",[") + q(regName(x)) + "," + q(Str(1, x.type)) + "," + regVal(x) + "]";
	}
	return "[" + w + "]";
}
typedef std::initializer_list<Str> SL;
static Str list(SL s) { Str r = "["; for (auto& x : s) { if (r.size() > 1) r += ","; r += q(x); } return r + "]"; }
static TLS std::string g_extra;
static TLS int g_form;
static TLS std::vector<Fp6> g_csnap[3];
static TLS Str g_curO, g_curD, g_curS;
static TLS std::vector<Str> g_curSV;
static TLS bool (*g_judge)(const Str& o, const Str& d, const std::vector<Str>& s);
static TLS Str g_suspect;
static void emitCall(const char *more)
{
	if (g_judge && g_suspect.empty() && !g_judge(g_curO, g_curD, g_curSV)) g_suspect = g_curO;
	const Str& d = g_curD;
	if (g_abi) g_extra += fmt(",\"abi\":%d", (int)g_abi);
	for (int i = 0; i < 3; i++) {
		if (d == fmt("c%d", i)) continue;
		if (g_csnap[i].size() != g_c[i].size() || (g_c[i].size() && memcmp(&g_csnap[i][0], &g_c[i][0], sizeof(Fp6) * g_c[i].size()))) g_extra += ",\"tab\":1";
	}
	emit("{\"o\":" + q(g_curO) + ",\"d\":" + q(d) + ",\"s\":" + g_curS + ",\"w\":" + changed() + fmt(",\"fm\":%d", g_form) + g_extra + more + "}");
}
#ifdef DRV_THREADS
template<class F> static void runCall(F& f);
#else
template<class F> static void runCall(F& f) { f(); }
#endif
// run one library call f and record it
template<class F>
static void rec(const char *o, const Str& d, SL s, F f)
{
	g_extra.clear();
	g_abi = 0;
	memcpy(&g_snap, &g_mem, sizeof(g_mem));
	for (int i = 0; i < 3; i++) g_csnap[i] = g_c[i];
	setLastOp(o);
	g_curO = o; g_curD = d; g_curS = list(s);
	if (g_judge) g_curSV.assign(s.begin(), s.end());
	runCall(f);
	emitCall("");
}
static void outB(bool b) { g_extra += fmt(",\"b\":%d", (int)b); }
static void outI(const char *k, const Str& hex) { g_extra += ",\"" + Str(k) + "\":" + q(hex); }
// set a register from outside the library
static void loadRaw(char t, int i, const uint64_t *x)
{
	for (size_t j = 0; j < g_desc.size(); j++) {
		Desc& ds = g_desc[j];
		if (ds.type != t || ds.idx != i) continue;
		memcpy(&g_snap, &g_mem, sizeof(g_mem));
		memcpy((char*)&g_mem + ds.off + 16, x, ds.size);
		emit("{\"o\":\"ld\",\"d\":" + q(regName(ds)) + ",\"s\":[],\"w\":[[" + q(regName(ds)) + "," + q(Str(1, t)) + "," + regVal(ds) + "]],\"fm\":0}");
		return;
	}
	abort();
}

// ------------------------------------------------------------------ value generators (mpz, independent of the library)
static TLS std::vector<mpz_class> g_recent; // recent raw Fp values
static mpz_class toRaw(const mpz_class& v) { return modp(v * R_, P_); }
static mpz_class ofRaw(const mpz_class& v) { return modp(v * RI_, P_); }
static mpz_class genRaw()
{
	mpz_class r;
	uint64_t pl[4], w[4];
	limbsOfMpz(pl, 4, P_);
	switch (g_rng.below(16)) {
	case 0: r = 0; break;
	case 1: r = g_rng.below(4); break;
	case 14: case 15: // few words that are not zero
		for (int i = 0; i < 4; i++) w[i] = 0;
		if (g_rng.chance(40)) w[g_rng.below(4)] = edgeWord();
		w[g_rng.below(4)] = g_rng.chance(60) ? g_rng.next() : 1;
		w[3] %= pl[3];
		r = modp(mpzOfLimbs(w, 4), P_);
		break;
	case 2: r = P_ - 1 - g_rng.below(4); break;
	case 3: case 4: case 5:
		for (int i = 0; i < 4; i++) w[i] = edgeWord(pl[i]);
		r = modp(mpzOfLimbs(w, 4), P_);
		break;
	case 6: r = toRaw(mpz_class((int)g_rng.below(17) - 8)); break;
	case 7: r = (P_ + (int)g_rng.below(5) - 2) / 2; break;
	case 8: { mpz_class one = 1; r = modp((one << g_rng.below(255)) + (int)g_rng.below(3) - 1, P_); break; }
	case 9: // limb pattern just below p in the high words
		for (int i = 0; i < 4; i++) w[i] = i >= (int)g_rng.below(5) ? pl[i] : edgeWord(pl[i]);
		r = modp(mpzOfLimbs(w, 4), P_);
		break;
	case 10: if (!g_recent.empty()) { r = modp(P_ - g_recent[g_rng.below(g_recent.size())] + (int)g_rng.below(3) - 1, P_); break; } // fallthrough
	case 11: if (!g_recent.empty()) { r = modp(g_recent[g_rng.below(g_recent.size())] + (int)g_rng.below(3) - 1, P_); break; } // fallthrough
	default: r = modp(rndMpzBits(320), P_);
	}
	if (g_recent.size() < 12) g_recent.push_back(r); else g_recent[g_rng.below(12)] = r;
	return r;
}
static void genComp(uint64_t *out, int n) // n reduced Fp components, often sparse
{
	int style = g_rng.below(11);
	for (int i = 0; i < n; i++) {
		mpz_class r = genRaw();
		if (style == 0) r = 0;
		if (style == 1 && g_rng.chance(60)) r = 0;
		if (style == 2) r = modp(rndMpzBits(320), P_);
		if (style == 3) r = P_ - 1;
		if (style == 4 && n >= 4 && (i / 2) % 2) r = 0;
		if (style == 5 && i % 2) r = 0;
		limbsOfMpz(out + 4 * i, 4, r);
	}
	if (style == 6) { memset(out, 0, 32 * n); limbsOfMpz(out, 4, g_rng.chance(50) ? R_ : modp(P_ - R_, P_)); }
	if (style == 7) { memset(out, 0, 32 * n); limbsOfMpz(out + 4 * g_rng.below(n), 4, genRaw()); }
	if (style == 8) { // plus or minus one in one place and something in another
		memset(out, 0, 32 * n);
		limbsOfMpz(out + 4 * g_rng.below(n), 4, genRaw());
		limbsOfMpz(out + (g_rng.chance(60) ? 0 : 4 * g_rng.below(n)), 4, g_rng.chance(70) ? R_ : modp(P_ - R_, P_));
	}
	if (style == 9) // equal and opposite components
		for (int i = 1; i < n; i++) if (g_rng.chance(60)) {
			int j = g_rng.below(i);
			mpz_class v = mpzOfLimbs(out + 4 * j, 4);
			limbsOfMpz(out + 4 * i, 4, g_rng.chance(50) ? v : modp(P_ - v, P_));
		}
	if (style == 10) // each component zero, one, minus one, or arbitrary
		for (int i = 0; i < n; i++) { int k = g_rng.below(5); if (k < 3) limbsOfMpz(out + 4 * i, 4, k == 0 ? mpz_class(0) : k == 1 ? R_ : modp(P_ - R_, P_)); }
}
static int compOf(char t)
{
	switch (t) { case 'f': case 'n': return 1; case 'g': case 'm': return 2; case 's': case 'y': return 6; case 't': return 12; case 'p': case 'u': return 3; case 'q': case 'v': return 6; default: return 0; }
}
static int countOf(char t)
{
	switch (t) { case 'f': return NF; case 'n': return NN; case 'g': return NG; case 'm': return NM; case 's': return NS; case 't': return NT; case 'd': return ND; case 'e': return NE; case 'h': return NH; case 'k': return NK; case 'p': return NP; case 'q': return NQ; case 'u': return NU; case 'v': return NV; case 'y': return NY; }
	return 0;
}
static void loadField(char t, int i)
{
	uint64_t w[48];
	genComp(w, compOf(t));
	loadRaw(t, i, w);
}
// x below bound keeping the lower words as they are: a top word that is too big is redrawn, not reduced
static mpz_class fitWide(uint64_t *w, const mpz_class& bound)
{
	mpz_class r = mpzOfLimbs(w, 8);
	if (r < bound) return r;
	uint64_t b[8];
	limbsOfMpz(b, 8, bound);
	int top = 7;
	while (top > 0 && b[top] == 0) top--;
	for (int i = top + 1; i < 8; i++) w[i] = 0;
	if (b[top] > 0) w[top] = g_rng.chance(40) ? b[top] - 1 : g_rng.next() % b[top];
	r = mpzOfLimbs(w, 8);
	if (r >= bound) mpz_mod(r.get_mpz_t(), r.get_mpz_t(), bound.get_mpz_t());
	return r;
}
static mpz_class genWide(const mpz_class& bound) // 0 <= x < bound <= 2^512
{
	mpz_class r;
	uint64_t w[8], pl[4];
	limbsOfMpz(pl, 4, P_);
	switch (g_rng.below(12)) {
	case 0: r = 0; break;
	case 11: // few words that are not zero
		for (int i = 0; i < 8; i++) w[i] = g_rng.chance(15) ? edgeWord(i >= 4 ? pl[i - 4] : 0) : 0;
		w[g_rng.below(8)] = g_rng.chance(60) ? g_rng.next() : 1;
		return fitWide(w, bound);
	case 1: r = bound - 1 - g_rng.below(3); break;
	case 2: r = g_rng.below(3); break;
	case 3: { // reduction crafted backwards: t*2^256 - q*p with extreme t and q
		mpz_class t, qq;
		for (int i = 0; i < 4; i++) w[i] = edgeWord(pl[i]);
		qq = mpzOfLimbs(w, 4);
		mpz_class one = 1;
		switch (g_rng.below(5)) { case 0: t = P_ - 1; break; case 1: t = P_ + (int)g_rng.below(3) - 1; break; case 2: t = 2 * P_ - 1 - (int)g_rng.below(3); break; case 3: t = genRaw(); break; default: t = P_ + genRaw(); }
		r = t * (one << 256) - qq * P_;
		break;
	}
	case 4: case 5:
		for (int i = 0; i < 8; i++) w[i] = edgeWord(i >= 4 ? pl[i - 4] : 0);
		return fitWide(w, bound);
	case 8: case 9: // upper words that pass a carry on, under lower words that produce one at some step of a reduction
		for (int i = 0; i < 8; i++) w[i] = g_rng.next();
		for (int i = g_rng.below(6) + 1; i < 7; i++) w[i] = g_rng.chance(85) ? ~0ull : ~0ull - g_rng.below(3);
		if (g_rng.chance(30)) for (int i = 0; i < (int)g_rng.below(4); i++) w[i] = edgeWord(pl[i]);
		return fitWide(w, bound);
	case 6: { mpz_class one = 1; r = (genRaw() << 256) + (g_rng.chance(50) ? mpz_class(0) : (one << 256) - 1); break; }
	case 7: r = genRaw() * genRaw(); break;
	default: r = rndMpzBits(512);
	}
	mpz_class o;
	mpz_mod(o.get_mpz_t(), r.get_mpz_t(), bound.get_mpz_t());
	return o;
}
static void loadWide(char t, int i, const mpz_class& bound)
{
	uint64_t w[48];
	int n = t == 'h' ? 2 : t == 'k' ? 6 : 1;
	for (int j = 0; j < n; j++) limbsOfMpz(w + 8 * j, 8, genWide(bound));
	loadRaw(t, i, w);
}
static int idx(char t) { return g_rng.below(countOf(t)); }
static Str nm(char t, int i) { return fmt("%c%d", t, i); }
static int other(char t, int a) { int i; do i = idx(t); while (i == a); return i; }

// ------------------------------------------------------------------ Fp
static void opFp()
{
	int d = idx('f'), a = idx('f'), b = idx('f');
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(15)) b = a;
	if (g_rng.chance(15)) b = d;
	Fp &D = M.f[d].v; const Fp &A = M.f[a].v, &B = M.f[b].v;
	Str nd = nm('f', d), na = nm('f', a), nb = nm('f', b);
	if (g_rng.chance(35)) { loadField('f', g_rng.chance(50) ? a : b); }
	g_form = g_rng.below(3);
	switch (g_rng.below(26)) {
	case 0: case 1: case 2: rec("f.add", nd, { na, nb }, [&] { if (g_form == 0) call(Fp::add, D, A, B); else if (g_form == 1) D = A + B; else if (a == d) D += B; else Fp::add(D, A, B); }); break;
	case 3: case 4: case 5: rec("f.sub", nd, { na, nb }, [&] { if (g_form == 0) call(Fp::sub, D, A, B); else if (g_form == 1) D = A - B; else Fp::sub(D, A, B); }); break;
	case 6: case 7: rec("f.neg", nd, { na }, [&] { if (g_form == 0) call(Fp::neg, D, A); else if (g_form == 1) D = -A; else Fp::neg(D, A); }); break;
	case 8: case 9: case 10: case 11:
		if (g_rng.chance(30) && !A.isZero() && a != b) { // aim the product at an extreme result
			uint64_t w[4];
			mpz_class target = genRaw(), av = mpzOfLimbs(&M.f[a].v[0], 4);
			limbsOfMpz(w, 4, modp(target * R_ * invm(av, P_), P_));
			loadRaw('f', b, w);
		}
		rec("f.mul", nd, { na, nb }, [&] { if (g_form == 0) call(Fp::mul, D, A, B); else if (g_form == 1) D = A * B; else Fp::mul(D, A, B); });
		break;
	case 12: rec("f.sqr", nd, { na }, [&] { Fp::square(D, A); }); break;
	case 13: case 14: if (A.isZero()) { loadField('f', a); if (A.isZero()) return; }
		rec("f.inv", nd, { na }, [&] { if (g_form == 0) Fp::inv(D, A); else if (g_form == 1) { D = A; D.inverse(); } else D = Fp(1) / A; }); break;
	case 15: if (B.isZero()) return;
		rec("f.div", nd, { na, nb }, [&] { if (g_form == 0) D = A / B; else { Fp x = A; x /= B; D = x; } }); break;
	case 16: case 17: rec("f.half", nd, { na }, [&] { Fp::divBy2(D, A); }); break;
	case 18: case 19: rec("f.quarter", nd, { na }, [&] { Fp::divBy4(D, A); }); break;
	case 20:
		if (g_rng.chance(50)) { Fp x = M.f[a].v; uint64_t w[4]; mpz_class v = ofRaw(mpzOfLimbs(&x[0], 4)); limbsOfMpz(w, 4, toRaw(v * v)); loadRaw('f', a, w); }
		rec("f.sqrt", nd, { na }, [&] { outB(Fp::squareRoot(D, A)); });
		break;
	case 21: { // comparisons
		rec("f.cmp", "", { na, nb }, [&] {
			int c = Fp::compare(A, B);
			g_extra += fmt(",\"r\":[%d,%d,%d,%d,%d,%d,%d,%d]", c < 0 ? -1 : c > 0, (int)(A == B), (int)(A != B), (int)(A < B), (int)(A > B), (int)(A <= B), (int)(A >= B), (int)A.isZero());
		});
		break;
	}
	case 22: { // from int / Vuint
		static const int iv[] = { 0, 1, -1, 2, -2, 3, 7, -9, 0x7fffffff, -0x7fffffff, 0x40000000, 65537, -65536, (int)0x80000000 };
		if (g_rng.chance(50)) {
			int v = g_rng.chance(60) ? iv[g_rng.below(14)] : (int)g_rng.next();
			rec("f.seti", nd, {}, [&] { if (g_form == 0) D.set(v); else if (g_form == 1) D = Fp(v); else D = v; outI("i", (v < 0 ? "-" : "") + mpzHex(abs(mpz_class(v)))); });
		} else {
			mpz_class v = genRaw();
			uint64_t w[4]; limbsOfMpz(w, 4, v);
			Vuint x(w, 4);
			rec("f.seti", nd, {}, [&] { if (g_form == 0) D.set(x); else D = Fp(x); outI("i", mpzHex(v)); });
		}
		break;
	}
	case 23: rec("f.get", "", { na }, [&] {
		Vuint x = A.get();
		outI("i", hexLimbs(&x[0], x.size()));
		g_extra += fmt(",\"low\":\"%llx\",\"odd\":%d", (unsigned long long)A.getLow(), (int)A.isOdd()); });
		break;
	case 24: rec(g_form & 1 ? "f.fromMont" : "f.toMont", nd, { na }, [&] { if (g_form & 1) Fp::fromMont(D, A); else Fp::toMont(D, A); }); break;
	case 25: {
#ifndef BN_SUPPORT_SNARK
		if (a == d) return;
		rec("f.z2x3", nd, { nd, na }, [&] { if (g_form & 1) Fp::_3z_add_2xC(D, A); else Fp::_2z_add_3x(D, A); });
#else
		rec("f.copy", nd, { na }, [&] { D = A; });
#endif
		break;
	}
	}
}
static void opFpNC()
{
	int d = idx('n'), a = idx('f'), b = idx('f');
	g_form = 0;
	Fp &D = M.n[d].v; const Fp &A = M.f[a].v, &B = M.f[b].v;
	if (g_rng.chance(50)) loadField('f', a);
	switch (g_rng.below(5)) {
	case 0: rec("n.addNC", nm('n', d), { nm('f', a), nm('f', b) }, [&] { call(Fp::addNC, D, A, B); }); break;
	case 1: { // x >= y
		bool sw = Fp::compare(A, B) < 0;
		const Fp &X = sw ? B : A, &Y = sw ? A : B;
		rec("n.subNC", nm('n', d), { nm('f', sw ? b : a), nm('f', sw ? a : b) }, [&] { call(Fp::subNC, D, X, Y); });
		break;
	}
	case 2: case 3: {
		int x = idx('n');
		uint64_t w[4];
		for (int i = 0; i < 4; i++) w[i] = edgeWord();
		loadRaw('n', x, w);
		bool one = g_rng.chance(50);
		rec(one ? "n.shr1" : "n.shr2", nm('n', d), { nm('n', x) }, [&] { call(one ? Fp::shr1 : Fp::shr2, D, M.n[x].v); });
		break;
	}
	case 4: {
#ifndef BN_SUPPORT_SNARK
		uint64_t w[4];
		mpz_class v = P_ * (int)g_rng.below(7);
		switch (g_rng.below(4)) { case 0: break; case 1: v -= g_rng.below(4); break; case 2: v += g_rng.below(4); break; default: v += genRaw(); }
		if (g_rng.chance(30)) { mpz_class one = 1; v = (one << 253) * (1 + g_rng.below(6)) + (int)g_rng.below(3) - 1; }
		if (v < 0) v = 0;
		if (v > 6 * P_) v = 6 * P_;
		limbsOfMpz(w, 4, v);
		loadRaw('n', d, w);
		rec("n.fastmod", nm('n', d), { nm('n', d) }, [&] { Fp::fast_modp(D); });
#endif
		break;
	}
	}
}
// ------------------------------------------------------------------ double width
static void opDbl()
{
	int d = idx('d'), a = idx('d'), b = idx('d');
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(15)) b = d;
	if (g_rng.chance(15)) b = a;
	g_form = g_rng.below(2);
	FpDbl &D = M.d[d].v; const FpDbl &A = M.d[a].v, &B = M.d[b].v;
	Str nd = nm('d', d), na = nm('d', a), nb = nm('d', b);
	if (g_rng.chance(40)) loadWide('d', a, PN_);
	if (g_rng.chance(30)) loadWide('d', b, PN_);
	if (g_rng.chance(20)) { // related operands: sum or difference at the edge of the range
		mpz_class x = mpzOfLimbs(A.const_ptr(), 8), y;
		mpz_class one = 1, j = (int)g_rng.below(3) - 1;
		switch (g_rng.below(4)) { case 0: y = x; break; case 1: y = PN_ - x + j; break; case 2: y = x + (j << 256); break; default: y = x + j; }
		if (y >= 0 && y < PN_ && b != a) { uint64_t w[8]; limbsOfMpz(w, 8, y); loadRaw('d', b, w); }
	}
	switch (g_rng.below(16)) {
	case 0: case 1: rec("d.add", nd, { na, nb }, [&] { if (g_form) D = A + B; else call(FpDbl::add, D, A, B); }); break;
	case 2: case 3: rec("d.sub", nd, { na, nb }, [&] { if (g_form) D = A - B; else call(FpDbl::sub, D, A, B); }); break;
	case 4: rec("d.neg", nd, { na }, [&] { if (g_form) D = -A; else call(FpDbl::neg, D, A); }); break;
	case 5: case 6: {
		int x = idx('f'), y = idx('f');
		if (g_rng.chance(50)) loadField('f', x);
		rec("d.mul", nd, { nm('f', x), nm('f', y) }, [&] { call(FpDbl::mul, D, M.f[x].v, M.f[y].v); });
		break;
	}
	case 7: { // full-width operands, still below 2^512
		int x = idx('n'), y = idx('n'), de = idx('e');
		uint64_t w[4];
		for (int i = 0; i < 4; i++) w[i] = edgeWord();
		loadRaw('n', x, w);
		if (g_rng.chance(50)) { for (int i = 0; i < 4; i++) w[i] = edgeWord(); loadRaw('n', y, w); }
		rec("d.mul", nm('e', de), { nm('n', x), nm('n', y) }, [&] { call(FpDbl::mul, M.e[de].v, M.n[x].v, M.n[y].v); });
		break;
	}
	case 8: case 9: case 10: {
		int x = idx('f');
		rec("d.mod", nm('f', x), { na }, [&] { call(FpDbl::mod, M.f[x].v, A); });
		break;
	}
	case 11: case 12: { // no-carry variants on arbitrary 512-bit values
		int x = idx('e'), y = idx('e'), z = idx('e');
		mpz_class one = 1, lim = one << 512;
		loadWide('e', x, lim);
		mpz_class vx = mpzOfLimbs(M.e[x].v.const_ptr(), 8);
		if (g_rng.chance(50)) {
			if (y == x && 2 * vx >= lim) return;
			if (y != x) { uint64_t w[8]; limbsOfMpz(w, 8, g_rng.chance(30) ? mpz_class(lim - vx - 1) : genWide(lim - vx)); loadRaw('e', y, w); }
			rec("d.addNC", nm('e', z), { nm('e', x), nm('e', y) }, [&] { call(FpDbl::addNC, M.e[z].v, M.e[x].v, M.e[y].v); });
		} else {
			if (y != x) { uint64_t w[8]; limbsOfMpz(w, 8, g_rng.chance(30) ? vx : genWide(vx + 1)); loadRaw('e', y, w); }
			rec("d.subNC", nm('e', z), { nm('e', x), nm('e', y) }, [&] { call(FpDbl::subNC, M.e[z].v, M.e[x].v, M.e[y].v); });
		}
		break;
	}
	case 13: {
		int z = idx('e');
		mpz_class pp = (P_ - 1) * (P_ - 1) + 1; // operands are products of reduced elements
		loadWide('d', a, pp);
		if (a != b) loadWide('d', b, pp);
		rec("d.subOpt1", nm('e', z), { na, nb }, [&] { FpDbl::subOpt1(M.e[z].v, A, B); });
		break;
	}
	case 14: case 15: rec("d.cmp", "", { na, nb }, [&] { int c = FpDbl::compare(A, B);
		g_extra += fmt(",\"r\":[%d,%d,%d,%d,%d]", c < 0 ? -1 : c > 0, (int)(A == B), (int)(A != B), (int)(A < B), (int)(A >= B)); });
		break;
	}
}
static void opDbl2()
{
	int d = idx('h'), a = idx('h'), b = idx('h');
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(15)) b = d;
	g_form = g_rng.below(2);
	Fp2Dbl &D = M.h[d].v; const Fp2Dbl &A = M.h[a].v, &B = M.h[b].v;
	Str nd = nm('h', d), na = nm('h', a), nb = nm('h', b);
	if (g_rng.chance(40)) loadWide('h', a, PN_);
	if (g_rng.chance(30)) loadWide('h', b, PN_);
	int x = idx('g'), y = idx('g');
	if (g_rng.chance(40)) loadField('g', x);
	switch (g_rng.below(17)) {
	case 0: rec("h.add", nd, { na, nb }, [&] { if (g_form) Fp2Dbl::add(D, A, B); else call(Fp2Dbl::add, D, A, B); }); break;
	case 1: rec("h.sub", nd, { na, nb }, [&] { if (g_form) Fp2Dbl::sub(D, A, B); else call(Fp2Dbl::sub, D, A, B); }); break;
	case 2: rec("h.neg", nd, { na }, [&] { call(Fp2Dbl::neg, D, A); }); break;
	case 3: if (d == a) return; // not allowed to alias
		rec("h.mul_xi", nd, { na }, [&] { call(Fp2Dbl::mul_xi, D, A); }); break;
	case 4: case 5: rec("h.mod", nm('g', x), { na }, [&] { call(Fp2Dbl::mod, M.g[x].v, A); }); break;
	case 6: case 7: { rec("h.mulOpt1", nd, { nm('g', x), nm('g', y) }, [&] { call(Fp2Dbl::mulOpt1, D, M.g[x].v, M.g[y].v); });
		break; }
	case 8: case 9: rec("h.mulOpt2", nd, { nm('g', x), nm('g', y) }, [&] { call(Fp2Dbl::mulOpt2, D, M.g[x].v, M.g[y].v); }); break;
	case 10: case 11: { // unreduced sums as operands
		int p1 = idx('m'), p2 = idx('m'), z = idx('g'), w = idx('g');
		rec("m.addNC", nm('m', p1), { nm('g', x), nm('g', y) }, [&] { call(Fp2::addNC, M.m[p1].v, M.g[x].v, M.g[y].v); });
		if (p2 != p1) rec("m.addNC", nm('m', p2), { nm('g', z), nm('g', w) }, [&] { call(Fp2::addNC, M.m[p2].v, M.g[z].v, M.g[w].v); });
		int p3 = idx('m');
		if (p3 != p1 && p3 != p2) { // what was added is taken off again: the difference is not negative
			int o = g_rng.chance(50) ? x : y;
			rec("m.subNC", nm('m', p3), { nm('m', p1), nm('g', o) }, [&] { if (g_rng.chance(50)) call(Fp2::subNC, M.m[p3].v, M.m[p1].v, M.g[o].v); else Fp2::subNC_C(M.m[p3].v, M.m[p1].v, M.g[o].v); });
		}
		rec("h.mulOpt2", nd, { nm('m', p1), nm('m', p2) }, [&] { call(Fp2Dbl::mulOpt2, D, M.m[p1].v, M.m[p2].v); });
		loadWide('h', d, PN_); // the imaginary part may exceed pN: callers subtract from it next
		break;
	}
	case 12: case 13: rec("h.square", nd, { nm('g', x) }, [&] { call(Fp2Dbl::square, D, M.g[x].v); }); break;
	case 14: { // unreduced sums without correction
		int z = idx('h');
		loadWide('h', z, PN_ / 2);
		loadWide('h', a, PN_ / 2);
		rec("h.addNC", nd, { na, nm('h', z) }, [&] { call(Fp2Dbl::addNC, D, A, M.h[z].v); });
		break;
	}
	case 15: {
		mpz_class va = mpzOfLimbs(A.a_.const_ptr(), 8), vb = mpzOfLimbs(A.b_.const_ptr(), 8);
		int z = other('h', a);
		uint64_t w[16];
		limbsOfMpz(w, 8, genWide(va + 1)); limbsOfMpz(w + 8, 8, genWide(vb + 1));
		loadRaw('h', z, w);
		rec("h.subNC", nd, { na, nm('h', z) }, [&] { call(Fp2Dbl::subNC, D, A, M.h[z].v); });
		break;
	}
	case 16: { // the six-coefficient product, then reduction
		int k = idx('k'), s1 = idx('s'), s2 = idx('s'), s3 = idx('s');
		if (g_rng.chance(60)) loadField('s', s1);
		if (g_rng.chance(40)) loadField('s', s2);
		rec("k.mul", nm('k', k), { nm('s', s1), nm('s', s2) }, [&] { call(Fp6Dbl::mul, M.k[k].v, M.s[s1].v, M.s[s2].v); });
		rec("k.mod", nm('s', s3), { nm('k', k) }, [&] { Fp6Dbl::mod(M.s[s3].v, M.k[k].v); });
		break;
	}
	}
}
// ------------------------------------------------------------------ tower
template<class T> static void bin(const char *base, char t, Slot<T> *r, void (*add)(T&, const T&, const T&), void (*sub)(T&, const T&, const T&), void (*mul)(T&, const T&, const T&), void (*neg)(T&, const T&))
{
	int d = idx(t), a = idx(t), b = idx(t);
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(15)) b = d;
	if (g_rng.chance(10)) b = a;
	if (g_rng.chance(40)) loadField(t, a);
	if (g_rng.chance(20)) loadField(t, b);
	T &D = r[d].v; const T &A = r[a].v, &B = r[b].v;
	Str nd = nm(t, d), na = nm(t, a), nb = nm(t, b);
	Str B0 = base;
	g_form = g_rng.below(3);
	switch (g_rng.below(6)) {
	case 0: rec((B0 + ".add").c_str(), nd, { na, nb }, [&] { if (g_form == 0) call(add, D, A, B); else if (g_form == 1) D = A + B; else add(D, A, B); }); break;
	case 1: rec((B0 + ".sub").c_str(), nd, { na, nb }, [&] { if (g_form == 0) call(sub, D, A, B); else if (g_form == 1) D = A - B; else sub(D, A, B); }); break;
	case 2: rec((B0 + ".neg").c_str(), nd, { na }, [&] { neg(D, A); }); break;
	default: rec((B0 + ".mul").c_str(), nd, { na, nb }, [&] { if (g_form == 0) call(mul, D, A, B); else if (g_form == 1) D = A * B; else mul(D, A, B); }); break;
	}
}
template<class T> static void eqOp(const char *o, char t, Slot<T> *r)
{
	int a = idx(t), b = idx(t);
	if (g_rng.chance(40)) { // equal up to one component
		size_t nc = compOf(t);
		uint64_t w[48];
		memcpy(w, &r[a].v, 32 * nc);
		if (g_rng.chance(70)) { int c = g_rng.below(nc); limbsOfMpz(w + 4 * c, 4, g_rng.chance(50) ? genRaw() : modp(mpzOfLimbs(w + 4 * c, 4) + 1, P_)); }
		if (a != b) loadRaw(t, b, w);
	}
	rec(o, "", { nm(t, a), nm(t, b) }, [&] { g_extra += fmt(",\"r\":[%d,%d,%d]", (int)(r[a].v == r[b].v), (int)(r[a].v != r[b].v), (int)r[a].v.isZero()); });
}
static void opFp2()
{
	int d = idx('g'), a = idx('g'), c = idx('f');
	Fp2 &D = M.g[d].v; const Fp2 &A = M.g[a].v;
	Str nd = nm('g', d), na = nm('g', a);
	if (g_rng.chance(30)) { a = d; na = nd; }
	const Fp2 &A2 = M.g[a].v;
	(void)A;
	g_form = g_rng.below(2);
	int sel = g_rng.below(20);
	if (sel >= 6) { if (g_rng.chance(35)) loadField('g', a); }
	switch (sel) {
	default: bin<Fp2>("g", 'g', M.g, Fp2::add, Fp2::sub, Fp2::mul, Fp2::neg); break;
	case 6: case 7: case 8: rec("g.sqr", nd, { na }, [&] { if (g_form) Fp2::square(D, A2); else call(Fp2::square, D, A2); }); break;
	case 9: case 10: { int z = other('g', a); rec("g.mul_xi", nm('g', z), { na }, [&] { call(Fp2::mul_xi, M.g[z].v, A2); }); break; }
	case 11: if (g_rng.chance(50)) loadField('f', c); rec("g.mulfp0", nd, { na, nm('f', c) }, [&] { if (g_form) Fp2::mul_Fp_0(D, A2, M.f[c].v); else call(Fp2::mul_Fp_0, D, A2, M.f[c].v); }); break;
	case 12: rec("g.mulfp1", nd, { nd, nm('f', c) }, [&] { Fp2::mul_Fp_1(D, M.f[c].v); }); break;
	case 13: rec("g.mul_x", nd, { nd }, [&] { D.mul_x(); }); break;
	case 14: rec("g.half", nd, { na }, [&] { if (g_form) Fp2::divBy2(D, A2); else call(Fp2::divBy2, D, A2); }); break;
	case 15: rec("g.quarter", nd, { na }, [&] { Fp2::divBy4(D, A2); }); break;
	case 16: case 17: if (M.g[d].v.isZero()) return; rec("g.inv", nd, { nd }, [&] { D.inverse(); }); break;
	case 18: eqOp("g.eq", 'g', M.g); break;
	case 19: { // reference routines
		int z = other('g', a), b = idx('g');
		switch (g_rng.below(9)) {
		case 0: rec("g.add", nd, { na, nm('g', b) }, [&] { Fp2::addC(D, A2, M.g[b].v); }); break;
		case 1: rec("g.sub", nd, { na, nm('g', b) }, [&] { Fp2::subC(D, A2, M.g[b].v); }); break;
		case 2: rec("g.mul", nd, { na, nm('g', b) }, [&] { Fp2::mulC(D, A2, M.g[b].v); }); break;
		case 3: case 8: rec("g.sqr", nd, { na }, [&] { Fp2::squareC(D, A2); }); break;
		case 4: rec("g.mul_xi", nm('g', z), { na }, [&] { Fp2::mul_xiC(M.g[z].v, A2); }); break;
		case 5: rec("g.mulfp0", nd, { na, nm('f', c) }, [&] { Fp2::mul_Fp_0C(D, A2, M.f[c].v); }); break;
		case 6: rec("g.half", nd, { na }, [&] { Fp2::divBy2C(D, A2); }); break;
		case 7: { int mm = idx('m'); rec("m.addNC", nm('m', mm), { na, nm('g', b) }, [&] { Fp2::addNC_C(M.m[mm].v, A2, M.g[b].v); }); break; }
		}
		break;
	}
	}
}
static void opFp6()
{
	int d = idx('s'), c = idx('f'), c2 = idx('f');
	Fp6 &D = M.s[d].v;
	Str nd = nm('s', d);
	g_form = 0;
	switch (g_rng.below(14)) {
	default: bin<Fp6>("s", 's', M.s, Fp6::add, Fp6::sub, Fp6::mul, Fp6::neg); break;
	case 6: case 7: { int a = other('s', d); if (g_rng.chance(50)) loadField('s', a); rec("s.sqr", nd, { nm('s', a) }, [&] { Fp6::square(D, M.s[a].v); }); break; }
	case 8: case 9: if (g_rng.chance(60)) loadField('s', d); if (D.isZero()) return; rec("s.inv", nd, { nd }, [&] { D.inverse(); }); break;
	case 10: eqOp("s.eq", 's', M.s); break;
	case 11: if (g_rng.chance(50)) rec("s.mulb", nd, { nd, nm('f', c) }, [&] { Fp6::mul_Fp_b(D, M.f[c].v); });
		else rec("s.mulc", nd, { nd, nm('f', c) }, [&] { Fp6::mul_Fp_c(D, M.f[c].v); });
		break;
	case 12: { Fp PP[2]; PP[0] = M.f[c].v; PP[1] = M.f[c2].v; rec("s.mul24", nd, { nd, nm('f', c), nm('f', c2) }, [&] { Fp6::mulFp6_24_Fp_01(D, PP); }); break; }
	case 13: { // reference routines
		int a = idx('s'), b = idx('s');
		switch (g_rng.below(3)) {
		case 0: rec("s.add", nd, { nm('s', a), nm('s', b) }, [&] { Fp6::addC(D, M.s[a].v, M.s[b].v); }); break;
		case 1: rec("s.sub", nd, { nm('s', a), nm('s', b) }, [&] { Fp6::subC(D, M.s[a].v, M.s[b].v); }); break;
		case 2: rec("s.mul", nd, { nm('s', a), nm('s', b) }, [&] { Fp6::mulC(D, M.s[a].v, M.s[b].v); }); break;
		}
		break;
	}
	}
}
static void opFp12()
{
	int d = idx('t'), a = idx('t');
	if (g_rng.chance(40)) a = d;
	Fp12 &D = M.t[d].v; const Fp12 &A = M.t[a].v;
	Str nd = nm('t', d), na = nm('t', a);
	g_form = g_rng.below(2);
	int sel = g_rng.below(17);
	if (sel >= 5 && g_rng.chance(40)) loadField('t', a);
	switch (sel) {
	default: bin<Fp12>("t", 't', M.t, Fp12::add, Fp12::sub, Fp12::mul, Fp12::neg); break;
	case 5: case 6: rec("t.sqr", nd, { nd }, [&] { if (g_form) Fp12::square(D); else g_abi |= abi_call((void*)Fp12::square, &D, 0, 0); }); break;
	case 7: if (D.isZero()) return; rec("t.inv", nd, { nd }, [&] { D.inverse(); }); break;
	case 8: case 9: rec("t.frob", nd, { na }, [&] { A.Frobenius(D); }); break;
	case 10: case 11: rec("t.frob2", nd, { na }, [&] { A.Frobenius2(D); }); break;
	case 12: case 13: rec("t.frob3", nd, { na }, [&] { A.Frobenius3(D); }); break;
	case 14: eqOp("t.eq", 't', M.t); break;
	case 15: { int s = idx('s'); if (g_rng.chance(50)) loadField('s', s); rec("t.mul024", nd, { nd, nm('s', s) }, [&] { if (g_form) Fp12Dbl::mul_Fp2_024(D, M.s[s].v); else g_abi |= abi_call((void*)Fp12Dbl::mul_Fp2_024, &D, &M.s[s].v, 0); }); break; }
	case 16: { int s = idx('s'), s2 = idx('s'); if (g_rng.chance(50)) loadField('s', s);
		if (g_rng.chance(60)) rec("t.mul024x2", nd, { nm('s', s), nm('s', s2) }, [&] { Fp12Dbl::mul_Fp2_024_Fp2_024(D, M.s[s].v, M.s[s2].v); });
		else if (g_rng.chance(50)) { int b = idx('t'); rec("t.mul", nd, { na, nm('t', b) }, [&] { Fp12::mulC(D, A, M.t[b].v); }); }
		else if (g_rng.chance(50)) rec("t.sqr", nd, { nd }, [&] { Fp12::squareC(D); });
		else rec("t.mul024", nd, { nd, nm('s', s) }, [&] { Fp12Dbl::mul_Fp2_024C(D, M.s[s].v); });
		break; }
	}
}
// ------------------------------------------------------------------ cyclotomic subgroup; cyc[i] = register i is known to lie in it
static TLS bool g_cyc[NT];
#include "special_cyc.h"
static void loadHexFp12(int i, const char *const *hex) // values (not raw)
{
	uint64_t w[48];
	for (int j = 0; j < 12; j++) limbsOfMpz(w + 4 * j, 4, toRaw(mpz_class(hex[j], 16)));
	loadRaw('t', i, w);
}
static void opCyc()
{
	int d = idx('t'), a = idx('t');
	g_form = g_rng.below(2);
	switch (g_rng.below(12)) {
	case 0: // easy part of an arbitrary non-zero element
		loadField('t', a); g_cyc[a] = false;
		if (M.t[a].v.isZero() || a == d) return;
		rec("t.cyclo", nm('t', d), { nm('t', a) }, [&] { M.t[a].v.mapToCyclo(M.t[d].v); });
		g_cyc[d] = true; g_cyc[a] = false;
		return;
	case 1: { // special members
		int ns = g_b == 2 ? nspecial_2 : g_b == 3 ? nspecial_3 : nspecial_82;
		int r = g_rng.below(ns + 1);
		if (r < ns) loadHexFp12(a, (g_b == 2 ? special_2 : special_3)[r]);
		else { uint64_t w[48]; memset(w, 0, sizeof(w)); limbsOfMpz(w, 4, R_); loadRaw('t', a, w); }
		g_cyc[a] = true;
		break;
	}
	case 2: if (!g_cyc[a] || a == d) return;
		rec("t.mul", nm('t', d), { nm('t', a), nm('t', a) }, [&] { Fp12::mul(M.t[d].v, M.t[a].v, M.t[a].v); });
		g_cyc[d] = true;
		return;
	}
	if (!g_cyc[a]) {
		for (int i = 0; i < NT; i++) if (g_cyc[i]) a = i;
		if (!g_cyc[a]) return;
	}
	const Fp12 &A = M.t[a].v;
	Fp12 &D = M.t[d].v;
	Str nd = nm('t', d), na = nm('t', a);
	switch (g_rng.below(8)) {
	case 0: case 1: if (g_form) { rec("t.sqru", na, { na }, [&] { M.t[a].v.sqru(); }); } else { rec("t.sqru", nd, { na }, [&] { A.sqru(D); }); g_cyc[d] = true; } break;
	case 2: { int b = idx('t'); if (!g_cyc[b]) return; rec("t.mul", nd, { na, nm('t', b) }, [&] { Fp12::mul(D, A, M.t[b].v); }); g_cyc[d] = true; break; }
	case 3: rec("t.frob", nd, { na }, [&] { A.Frobenius(D); }); g_cyc[d] = true; break;
#ifdef BN_SUPPORT_SNARK
	default: if (g_rng.chance(40)) { rec("t.pownegz", nd, { na }, [&] { if (a == d) { Fp12 x = A; Fp12::pow_neg_t(D, x); } else Fp12::pow_neg_t(D, A); }); g_cyc[d] = true; }
		break;
#else
	case 4: case 5: if (a == d) return; rec("t.fixpow", nd, { na }, [&] { Compress::fixed_power(D, A); }); g_cyc[d] = true; break;
	case 6: case 7: {
		int n = 1 + (g_rng.chance(70) ? g_rng.below(4) : g_rng.below(70)); // a positive number of squarings
		if (a == d) return;
		rec("t.csqn", nd, { na }, [&] {
			Compress c(D, A);
			if (g_form) Compress::square_n(c, n); else Compress::square_nC(c, n);
			c.decompress();
			outI("i", fmt("%x", n));
		});
		g_cyc[d] = true;
		break;
	}
#endif
	}
}
static void opFinalExp()
{
	int d = idx('t');
	loadField('t', d);
	g_cyc[d] = false;
	if (M.t[d].v.isZero()) return;
	g_form = 0;
	rec("t.fexp", nm('t', d), { nm('t', d) }, [&] { M.t[d].v.final_exp(); });
	g_cyc[d] = true;
}
#include "drv_points.h"
#include "drv_text.h"
#include "suspect.h"

// mode 2: everything that has a portable routine uses it
// the base-field routines in C are what the pointers hold before the first Param::init
static struct BaseC {
	void (*add)(Fp&, const Fp&, const Fp&); void (*addNC)(Fp&, const Fp&, const Fp&); void (*subNC)(Fp&, const Fp&, const Fp&);
	void (*sub)(Fp&, const Fp&, const Fp&); void (*neg)(Fp&, const Fp&); void (*mul)(Fp&, const Fp&, const Fp&);
	FpDbl::bin_op *dadd, *daddNC, *dsub, *dsubNC; FpDbl::uni_op *dneg;
	void (*dmul)(FpDbl&, const Fp&, const Fp&); void (*dmod)(Fp&, const FpDbl&);
	void (*asmMul)(Fp&, const Fp&, const Fp&); void (*asmSub)(Fp&, const Fp&, const Fp&); void (*asmSubNC)(Fp&, const Fp&, const Fp&);
	FpDbl::bin_op *asmDblSub, *asmDblSubNC; FpDbl::uni_op *asmDblNeg;
	bool inside;
} g_baseC;
static void keepBase()
{
	g_baseC.add = Fp::add; g_baseC.addNC = Fp::addNC; g_baseC.subNC = Fp::subNC; g_baseC.sub = Fp::sub; g_baseC.neg = Fp::neg; g_baseC.mul = Fp::mul;
	g_baseC.dadd = FpDbl::add; g_baseC.daddNC = FpDbl::addNC; g_baseC.dsub = FpDbl::sub; g_baseC.dsubNC = FpDbl::subNC; g_baseC.dneg = FpDbl::neg;
	g_baseC.dmul = FpDbl::mul; g_baseC.dmod = FpDbl::mod;
}
static int rawCmp(const uint64_t *x, const uint64_t *y, int n)
{
	while (n-- > 0) if (x[n] != y[n]) return x[n] < y[n] ? -1 : 1;
	return 0;
}
// the product in C converts its operands with a product itself: that inner one stays machine code
static void baseMul(Fp& z, const Fp& x, const Fp& y)
{
	if (g_baseC.inside) { g_baseC.asmMul(z, x, y); return; }
	g_baseC.inside = true;
	g_baseC.mul(z, x, y);
	g_baseC.inside = false;
}
// the coordinates of a point at infinity are whatever was there; the routines in C end the process on
// operands that are not reduced, so such calls (their results are not used) stay machine code
static bool belowP(const Fp& x) { return rawCmp((const uint64_t*)&x, (const uint64_t*)&Fp::getDirectP(1), 4) < 0; }
static bool belowPN(const FpDbl& x) { return rawCmp((const uint64_t*)&x + 4, (const uint64_t*)&Fp::getDirectP(1), 4) < 0; }
static void baseSub(Fp& z, const Fp& x, const Fp& y) { (belowP(x) && belowP(y) ? g_baseC.sub : g_baseC.asmSub)(z, x, y); }
static void baseSubNC(Fp& z, const Fp& x, const Fp& y) { (rawCmp((const uint64_t*)&x, (const uint64_t*)&y, 4) >= 0 ? g_baseC.subNC : g_baseC.asmSubNC)(z, x, y); }
static void baseDblSub(FpDbl& z, const FpDbl& x, const FpDbl& y) { (belowPN(x) && belowPN(y) ? g_baseC.dsub : g_baseC.asmDblSub)(z, x, y); }
static void baseDblSubNC(FpDbl& z, const FpDbl& x, const FpDbl& y) { (rawCmp((const uint64_t*)&x, (const uint64_t*)&y, 8) >= 0 ? g_baseC.dsubNC : g_baseC.asmDblSubNC)(z, x, y); }
static void baseDblNeg(FpDbl& z, const FpDbl& x) { (belowPN(x) ? g_baseC.dneg : g_baseC.asmDblNeg)(z, x); }
static void usePortableBase()
{
	g_baseC.asmMul = Fp::mul; g_baseC.asmSub = Fp::sub; g_baseC.asmSubNC = Fp::subNC;
	g_baseC.asmDblSub = FpDbl::sub; g_baseC.asmDblSubNC = FpDbl::subNC; g_baseC.asmDblNeg = FpDbl::neg;
	Fp::add = g_baseC.add; Fp::addNC = g_baseC.addNC; Fp::subNC = &baseSubNC; Fp::sub = &baseSub; Fp::neg = g_baseC.neg; Fp::mul = &baseMul;
	FpDbl::add = g_baseC.dadd; FpDbl::addNC = g_baseC.daddNC; FpDbl::sub = &baseDblSub; FpDbl::subNC = &baseDblSubNC; FpDbl::neg = &baseDblNeg;
	FpDbl::mul = g_baseC.dmul; FpDbl::mod = g_baseC.dmod;
}
static void usePortable()
{
	Fp2::add = &Fp2::addC; Fp2::addNC = &Fp2::addNC_C; Fp2::sub = &Fp2::subC; Fp2::subNC = &Fp2::subNC_C;
	Fp2::mul = &Fp2::mulC; Fp2::mul_xi = &Fp2::mul_xiC; Fp2::square = &Fp2::squareC; Fp2::mul_Fp_0 = &Fp2::mul_Fp_0C; Fp2::divBy2 = &Fp2::divBy2C;
	Fp2Dbl::add = &Fp2Dbl::addC; Fp2Dbl::addNC = &Fp2Dbl::addNC_C; Fp2Dbl::neg = &Fp2Dbl::negC; Fp2Dbl::sub = &Fp2Dbl::subC; Fp2Dbl::subNC = &Fp2Dbl::subNC_C;
	Fp2Dbl::mul_xi = &Fp2Dbl::mul_xiC; Fp2Dbl::mulOpt1 = &Fp2Dbl::mulOpt1C; Fp2Dbl::mulOpt2 = &Fp2Dbl::mulOpt2C; Fp2Dbl::square = &Fp2Dbl::squareC; Fp2Dbl::mod = &Fp2Dbl::modC;
	Fp6::add = &Fp6::addC; Fp6::sub = &Fp6::subC; Fp6::mul = &Fp6::mulC;
	Fp6::pointDblLineEval = &Fp6::pointDblLineEvalC; Fp6::pointDblLineEvalWithoutP = &Fp6::pointDblLineEvalWithoutPC;
	Fp6Dbl::mul = &Fp6Dbl::mulC;
	Fp12::square = &Fp12::squareC; Fp12::mul = &Fp12::mulC; Fp12Dbl::mul_Fp2_024 = &Fp12Dbl::mul_Fp2_024C;
	Compress::square_n = &Compress::square_nC;
}

// after Param::init for the curve with coefficient b: one random program, recorded
static int runField(const Str& prof, uint64_t seed, int steps, int b)
{
	g_b = b;
	uint64_t ps = 0;
	for (size_t i = 0; i < prof.size(); i++) ps = ps * 131 + prof[i];
	g_rng = Rng(seed * 1000003 + ps);
#ifdef BN_SUPPORT_SNARK
	mpz_class z("4965661367192848881");
#else
	mpz_class one = 1;
	mpz_class z = -((one << 62) + (one << 55) + 1);
#endif
	P_ = 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1;
	ORD_ = P_ - 6 * z * z;
	{ mpz_class o = 1; R_ = modp(o << 256, P_); PN_ = P_ << 256; }
	RI_ = invm(R_, P_);
	g_recent.clear(); g_form = 0; g_extra.clear();
	for (int i = 0; i < NT; i++) g_cyc[i] = false;
	for (int i = 0; i < NQ; i++) g_ordR[i] = false;
	new(&g_mem) MU;
	memset(&g_mem, 0, sizeof(g_mem));
	g_desc.clear();
	addDesc('f', M.f); addDesc('n', M.n); addDesc('g', M.g); addDesc('m', M.m); addDesc('s', M.s); addDesc('t', M.t);
	addDesc('d', M.d); addDesc('e', M.e); addDesc('h', M.h); addDesc('k', M.k);
	addDesc('p', M.p); addDesc('q', M.q); addDesc('u', M.u); addDesc('v', M.v); addDesc('y', M.y);
	fillPads();
	initPoints();
	for (int i = 0; i < 3; i++) { g_tabOk[i] = 0; g_c[i].clear(); }
	for (size_t i = 0; i < g_desc.size(); i++) { // every register starts with a known value
		char t = g_desc[i].type; int j = g_desc[i].idx;
		if (t == 'd' || t == 'e' || t == 'h' || t == 'k') loadWide(t, j, PN_);
		else if (t == 'p' || t == 'q') loadPoint(t, j, pickPoint(t));
		else if (t == 'u' || t == 'v') loadPoint(t, j, pickPoint(t, false), 1);
		else loadField(t, j);
	}
	uint64_t limit = g_events + steps; // about
	if (prof == "fp") while (g_events < limit) { if (g_rng.chance(90)) opFp(); else opFpNC(); }
	else if (prof == "dbl") while (g_events < limit) { if (g_rng.chance(55)) opDbl(); else opDbl2(); if (g_rng.chance(5)) loadWide('h', idx('h'), PN_); }
	else if (prof == "tower") while (g_events < limit) { switch (g_rng.below(3)) { case 0: opFp2(); break; case 1: opFp6(); break; default: opFp12(); } }
	else if (prof == "cyc") while (g_events < limit) { if (g_rng.chance(97)) opCyc(); else opFinalExp(); }
	else if (prof == "fexp") while (g_events < limit) opFinalExp();
	else if (prof == "text") while (g_events < limit) opText();
	else if (prof == "mix") while (g_events < limit) { switch (g_rng.below(9)) { case 0: case 1: opFp(); break; case 2: opDbl(); break; case 3: opDbl2(); break; case 4: opFp2(); break; case 5: opFp6(); break; case 6: opFp12(); break; case 7: opG1(); break; default: opG2(); } }
	else if (!runPointProfile(prof, limit)) { fprintf(stderr, "unknown profile %s\n", prof.c_str()); return 3; }
	return 0;
}
#ifndef DRV_FIELD_NO_MAIN
int main(int argc, char **argv)
{
	if (argc < 8) { fprintf(stderr, "usage: drv_field OUT PROFILE SEED STEPS B MODE MULX\n"); return 3; }
	int b = atoi(argv[5]), mode = atoi(argv[6]);
	bool mulx = atoi(argv[7]) != 0;
	openTrace(argv[1]);
	keepBase();
#ifdef BN_SUPPORT_SNARK
	Param::init(b == 82 ? CurveSNARK2 : CurveSNARK1, mode >= 2 ? -1 : mode, mulx);
#else
	Param::init(CurveFp254BNb, mode >= 2 ? -1 : mode, mulx);
#endif
	if (mode >= 2) usePortable();
	if (mode == 3) usePortableBase();
	int r = 0;
	if (argc > 8) {
		g_digestOnly = true;
		if (argc > 9 && atoi(argv[9])) g_judge = plausible;
		for (uint64_t s = strtoull(argv[3], 0, 10), n = s + atoi(argv[8]); s < n && r == 0; s++) {
			g_digest = 0;
			r = runField(argv[2], s, atoi(argv[4]), b);
			fprintf(g_out, "%llu %016llx %s\n", (unsigned long long)s, (unsigned long long)g_digest, g_suspect.c_str());
			g_suspect.clear();
			fflush(g_out);
		}
	} else {
		r = runField(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]), b);
	}
	closeTrace();
	return r;
}
#endif
