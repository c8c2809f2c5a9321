// Drives the integer side of ate-pairing (Vuint, Vsint, ZmZ, text): random register-machine programs over the
// public API, every step recorded.
//   drv_int OUT PROFILE SEED STEPS GENERATED(0 portable primitives, 1 generated ones)
#include "common.h"
#include "refuse.h"
#include "zm.h"
#include <sstream>
#include <functional>
#include <map>
typedef mie::Vuint A;
enum { UB = sizeof(mie::Unit) * 8 };  // bits of a word of the library (32 in the int32 build)
static const uint64_t WM = UB == 64 ? ~0ull : 0xffffffffull;
typedef mie::VuintT<mie::local::VariableBuffer<mie::Unit> > W;
typedef mie::Vsint B;
struct TagZ; struct TagY;
typedef mie::ZmZ<A, TagZ> Z;
typedef mie::ZmZ<A, TagY> Y;

template<class T> struct Slot { uint64_t pre[2]; T v; uint64_t post[2]; };
enum { NA = 8, NW = 6, NB = 7, NZ = 5, NY = 5 };
static struct Regs { Slot<A> a[NA]; Slot<W> w[NW]; Slot<B> b[NB]; Slot<Z> z[NZ]; Slot<Y> y[NY]; } M;
static mpz_class g_m[2]; // moduli of z and y
static Str g_in; static size_t g_inPos; static std::istringstream *g_is; // the open stream

static inline A& raw(A& x) { return x; }
static inline W& raw(W& x) { return x; }
static inline A& raw(B& x) { return x.get(); }
template<class T> static inline A& raw(mie::ZmZ<A, T>& x) { return const_cast<A&>(x.get()); }
template<class V> static Str limbs(const V& v, size_t& n)
{
	std::vector<uint64_t> t;
	n = v.size();
	for (size_t i = 0; i < n && i < 1000; i++) if (UB == 64 || i % 2 == 0) t.push_back(v[i]); else t.back() |= (uint64_t)v[i] << 32;
	return t.empty() ? Str("0") : hexLimbs(&t[0], t.size());
}
template<class T> static Str show(T& x) { size_t n; Str h = limbs(raw(x), n); return q(h) + fmt(",%d", (int)n); }
static Str show(B& x) { size_t n; Str h = limbs(x.get(), n); return q((x.isNegative() ? "-" : "") + h) + fmt(",%d", (int)n); }
template<class V> static void store(V& v, const mpz_class& x, size_t pad = 0) // around the library's own setters
{
	size_t n = x == 0 ? 1 : (mpz_sizeinbase(x.get_mpz_t(), 2) + UB - 1) / UB;
	uint64_t t[64];
	limbsOfMpz(t, (n * UB + 63) / 64, x);
	v.alloc(n);
	for (size_t i = 0; i < n; i++) v[i] = UB == 64 ? t[i] : t[i / 2] >> i % 2 * 32;
}
template<class V> static mpz_class load(const V& v)
{
	mpz_class r = 0;
	for (size_t i = v.size(); i-- > 0;) r = (r << UB) + mpz_class((unsigned long)v[i]);
	return r;
}
enum { CAPW = MIE_ZM_VUINT_BIT_LEN / UB };  // words a Vuint can hold
static mpz_class loadS(const B& v) { mpz_class r = load(v.get()); return v.isNegative() ? mpz_class(-r) : r; }
// garbage in the words beyond the size: no result may depend on them
static void scribble(A& v)
{
	size_t n = v.size();
	if (n > CAPW) return;
	v.alloc(CAPW);
	for (size_t i = n; i < CAPW; i++) v[i] = g_rng.chance(50) ? ~0ull : g_rng.next();
	v.alloc(n);
}
struct Ref { char t; int i; };
template<class F> static void eachReg(F&& f)
{
	for (int i = 0; i < NA; i++) f('a', i, M.a[i]);
	for (int i = 0; i < NW; i++) f('w', i, M.w[i]);
	for (int i = 0; i < NB; i++) f('b', i, M.b[i]);
	for (int i = 0; i < NZ; i++) f('z', i, M.z[i]);
	for (int i = 0; i < NY; i++) f('y', i, M.y[i]);
}
static Str nm(char t, int i) { return fmt("%c%d", t, i); }
static std::map<Str, Str> g_cur;
struct Changed {
	Str w; bool pads;
	Changed() : pads(false) {}
	template<class T> void operator()(char t, int i, Slot<T>& s)
	{
		uint64_t k = (uint64_t)t * 1000 + i;
		if (s.pre[0] != k || s.pre[1] != k + 1 || s.post[0] != k + 2 || s.post[1] != k + 3) {
			w += (w.empty() ? "[" : ",[") + q("X" + nm(t, i)) + ",\"M\",\"0\",0]";
			s.pre[0] = k; s.pre[1] = k + 1; s.post[0] = k + 2; s.post[1] = k + 3;
		}
		Str v = show(s.v);
		Str& c = g_cur[nm(t, i)];
		if (c == v) return;
		c = v;
		w += (w.empty() ? "[" : ",[") + q(nm(t, i)) + "," + q(Str(1, t)) + "," + v + "]";
	}
};
struct Scribble { template<class T> void operator()(char t, int, Slot<T>& s) { scr(s.v); } template<class T> void scr(T& x) { scribble(raw(x)); } void scr(W&) {} };
struct Reset { Str n; template<class T> void operator()(char t, int i, Slot<T>& s) { if (nm(t, i) == n) rs(s.v); } void rs(A& x) { new(&x) A(); } void rs(W& x) { new(&x) W(); } void rs(B& x) { new(&x) B(); } void rs(Z& x) { raw(x).clear(); raw(x).set((uint64_t)0); } void rs(Y& x) { raw(x).clear(); raw(x).set((uint64_t)0); } };
struct InitPads { template<class T> void operator()(char t, int i, Slot<T>& s) { uint64_t k = (uint64_t)t * 1000 + i; s.pre[0] = k; s.pre[1] = k + 1; s.post[0] = k + 2; s.post[1] = k + 3; } };
static Str g_extra;
static int g_form;
typedef std::initializer_list<Str> SL;
static Str codes(const Str& s) { Str r = "["; for (size_t i = 0; i < s.size(); i++) r += fmt(i ? ",%d" : "%d", (int)(unsigned char)s[i]); return r + "]"; }
static bool g_refused;
template<class F>
static void rec(const char *o, char ty, const Str& d, const Str& d2, SL s, F f, const Str& wExtra = "")
{
	g_extra.clear();
	Scribble sc; eachReg(sc);
	setLastOp(o);
	const char *how = guarded(f);
	g_refused = *how != 0;
	if (*how) {
		Reset r; r.n = d; eachReg(r); r.n = d2; eachReg(r);
		g_extra += ",\"x\":" + q(how);
	}
	Changed c; eachReg(c);
	Str w = c.w;
	if (d == "i0" || d2 == "i0") {
		Str rest;
		if (g_is && !*how) { std::streamoff p = g_is->eof() ? (std::streamoff)-1 : (std::streamoff)g_is->tellg(); rest = p < 0 ? Str() : g_in.substr(p); }
		w += (w.empty() ? "" : ",") + Str("[\"i0\",\"i\",") + codes(rest) + ",0]";
	}
	if (!wExtra.empty()) w += (w.empty() ? "" : ",") + wExtra;
	Str sl = "[";
	for (auto& x : s) { if (sl.size() > 1) sl += ","; sl += q(x); }
	emit("{\"o\":" + q(o) + ",\"ty\":" + q(Str(1, ty)) + ",\"d\":" + q(d) + ",\"d2\":" + q(d2) + ",\"s\":" + sl + "],\"w\":[" + w + "]" + fmt(",\"fm\":%d", g_form) + g_extra + "}");
}
static void outI(const char *k, const mpz_class& v) { g_extra += ",\"" + Str(k) + "\":" + q(mpzHex(v)); }
static void outN(const char *k, long v) { g_extra += fmt(",\"%s\":%ld", k, v); }
static void outT(const Str& t) { g_extra += ",\"txt\":" + jsonStr(t); }
template<class T> static void outCmp(const T& x, const T& y)
{
	int c = T::compare(x, y);
	g_extra += fmt(",\"r\":[%d,%d,%d,%d,%d,%d,%d]", c < 0 ? -1 : c > 0, (int)(x == y), (int)(x != y), (int)(x < y), (int)(x > y), (int)(x <= y), (int)(x >= y));
}
static mpz_class mpzOfI(int64_t v) { mpz_class r; bool n = v < 0; uint64_t u = n ? 0 - (uint64_t)v : v; r = mpz_class((unsigned long)u); return n ? mpz_class(-r) : r; }

// ------------------------------------------------------------------ values
static std::vector<mpz_class> g_recent;
static mpz_class two(int n) { mpz_class r = 1; return r << n; }
static mpz_class genNat(int maxWords)
{
	mpz_class r, ref = g_recent.empty() ? mpz_class(5) : g_recent[g_rng.below(g_recent.size())];
	uint64_t w[64], rl[64];
	int mw64 = (UB * maxWords + 63) / 64, n = 1 + g_rng.below(mw64);
	mpz_class refm = ref % two(64 * mw64);
	limbsOfMpz(rl, mw64, refm);
	switch (g_rng.below(12)) {
	case 0: r = g_rng.below(3); break;
	case 1: r = two(g_rng.below(UB * maxWords)) - 1; break;
	case 2: r = two(g_rng.below(UB * maxWords)) + (int)g_rng.below(3); break;
	case 3: r = two(64 * n) - 1 - g_rng.below(4); break;
	case 4: r = ref + 1; break;
	case 5: r = ref > 0 ? mpz_class(ref - 1) : ref; break;
	case 6: r = ref; break;
	case 7: r = ref << g_rng.below(130); break;
	case 8: for (int i = 0; i < n; i++) w[i] = edgeWord(rl[i]); r = mpzOfLimbs(w, n); break;
	case 9: for (int i = 0; i < n; i++) w[i] = (int)g_rng.below(n + 1) < i ? rl[i] : edgeWord(rl[i]); r = mpzOfLimbs(w, n); break;
	case 10: for (int i = 0; i < n; i++) w[i] = g_rng.chance(40) ? 0 : g_rng.chance(50) ? ~0ull : edgeWord(); r = mpzOfLimbs(w, n); break;
	default: for (int i = 0; i < n; i++) w[i] = g_rng.next(); r = mpzOfLimbs(w, n);
	}
	if (UB == 32 && g_rng.chance(30)) { r = 0; for (int i = 1 + g_rng.below(maxWords); i-- > 0;) r = (r << 32) + (g_rng.chance(30) ? 0 : g_rng.chance(40) ? 0xffffffffu : (uint32_t)edgeWord()); }
	r %= two(UB * maxWords);
	if (g_recent.size() < 10) g_recent.push_back(r); else g_recent[g_rng.below(10)] = r;
	return r;
}
static void genDivPair(mpz_class& x, mpz_class& y, int maxWords)
{
	y = genNat(g_rng.chance(70) ? std::max(1, maxWords / 2) : maxWords);
	if (g_rng.chance(40)) { // top words with extreme leading bits
		int n = 2 + g_rng.below(std::max(1, UB * maxWords / 64 - 2));
		uint64_t w[64];
		for (int i = 0; i < n; i++) w[i] = g_rng.chance(50) ? edgeWord() : g_rng.next();
		static const uint64_t tops[] = { 1, 2, 3, 1ull << 63, (1ull << 63) + 1, ~0ull, ~0ull - 1, (1ull << 53) - 1, 1ull << 53, (1ull << 53) + 1, (1ull << 54) - 1, 1ull << 52, (1ull << 11) - 1, 1ull << 11 };
		w[n - 1] = tops[g_rng.below(14)];
		if (g_rng.chance(50)) w[n - 2] = g_rng.chance(50) ? ~0ull : 0;
		y = mpzOfLimbs(w, n);
		if (UB == 32 && g_rng.chance(50)) y >>= 32;
		y %= two(UB * maxWords);
	}
	if (y == 0) y = 1 + g_rng.below(5);
	int yb = mpz_sizeinbase(y.get_mpz_t(), 2), room = UB * maxWords - yb;
	mpz_class qq = room > 0 ? mpz_class(genNat(maxWords) % two(room)) : mpz_class(1), r;
	if (room > 0 && g_rng.chance(30)) qq = two(room) - 1 - g_rng.below(2);
	if (room > 0 && g_rng.chance(20)) qq = (two(UB) - 1 - g_rng.below(2)) << (UB * g_rng.below(std::max(1, room / UB)));
	qq %= two(room > 0 ? room : 1);
	switch (g_rng.below(5)) { case 0: r = 0; break; case 1: r = y - 1; break; case 2: r = y > 1 ? mpz_class(y - 2) : mpz_class(0); break; case 3: r = 1; break; default: r = genNat(maxWords); }
	x = qq * y + r % y;
	if (g_rng.chance(10) && x > 0) x -= 1;
	if (g_rng.chance(15)) x = y + (int)g_rng.below(3) - 1;
	if (x < 0) x = 0;
	x %= two(UB * maxWords);
	g_recent[g_rng.below(g_recent.size())] = y;
}
template<class V> static int maxWords() { return CAPW; }
template<> int maxWords<W>() { return 20; }
template<class T, int N> static int idx(Slot<T> (&)[N]) { return g_rng.below(N); }
template<class V, int N> static void ld(char t, Slot<V> (&r)[N], int i, const mpz_class& v) { rec("ld", t, nm(t, i), "", {}, [&] { store(r[i].v, v); }); }
static void ldB(int i, const mpz_class& v)
{
	rec("ld", 'b', nm('b', i), "", {}, [&] {
		B& x = M.b[i].v;
		if (v < 0) { x = B(0); store(x.get(), mpz_class(-v)); B::neg(x, x); }
		else { x = B(0); store(x.get(), v); if (v == 0 && g_rng.chance(40)) B::neg(x, x); } // zero with either flag
	});
}
template<class ZZ, int N> static void ldZ(char t, Slot<ZZ> (&r)[N], int i, const mpz_class& v) { rec("ld", t, nm(t, i), "", {}, [&] { store(raw(r[i].v), v); }); }

static Str hexU(uint64_t v) { return fmt("%llx", (unsigned long long)v); }
static std::vector<uint64_t> words64(int n) { std::vector<uint64_t> r; for (int i = 0; i < n; i++) r.push_back(g_rng.chance(25) ? 0 : edgeWord()); return r; }
static std::vector<uint32_t> words32(int n) { std::vector<uint32_t> r; for (int i = 0; i < n; i++) r.push_back(g_rng.chance(25) ? 0 : g_rng.chance(30) ? ~0u : (uint32_t)edgeWord()); return r; }
template<class T> static Str wordList(const std::vector<T>& v) { Str r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + q(hexU(v[i])); return r + "]"; }

// ------------------------------------------------------------------ naturals
template<class V, int N> static void opNat(char t, Slot<V> (&R)[N])
{
	int d = idx(R), x = idx(R), y = idx(R), mw = maxWords<V>();
	if (g_rng.chance(25)) x = d;
	if (g_rng.chance(15)) y = d;
	if (g_rng.chance(12)) y = x;
	V &D = R[d].v; const V &X = R[x].v, &Y = R[y].v;
	Str nd = nm(t, d), nx = nm(t, x), ny = nm(t, y);
	g_form = g_rng.below(4);
	static const uint32_t small[] = { 0, 1, 2, 3, 10, 1000000000u, 0x7fffffff, 0x80000000u, 0xffffffffu, 65536 };
	if (t == 'w') { if (R[x].v.size() > 44) ld(t, R, x, genNat(mw)); if (R[y].v.size() > 44) ld(t, R, y, genNat(mw)); } // unbounded: keep them moderate
	if (g_rng.chance(35)) ld(t, R, g_rng.chance(50) ? x : y, genNat(mw));
	switch (g_rng.below(24)) {
	case 0: case 1: // addition
		if (t != 'w' && g_rng.chance(15)) { mpz_class c = two(UB * (1 + g_rng.below(CAPW))) - load(Y); if (c >= 0) ld(t, R, x, mpz_class(c % two(UB * CAPW))); }
		rec("add", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D += Y; else if (g_form == 2) D = X + Y; else V::add(D, X, Y); });
		break;
	case 2: {
		uint32_t i = g_rng.chance(60) ? small[g_rng.below(10)] : (uint32_t)g_rng.next();
		if (g_rng.chance(30)) ld(t, R, x, mpz_class(two(UB * (1 + g_rng.below(mw))) - 1 - g_rng.below(2)));
		rec("addi", t, nd, "", { nx }, [&] { outI("i", mpz_class((unsigned long)i)); if (x == d && g_form == 1) D += i; else V::add(D, X, i); });
		break;
	}
	case 3: case 4: case 5: { // subtraction, mostly of the smaller
		if (load(X) < load(Y) && g_rng.chance(85)) {
			rec("sub", t, nd, "", { ny, nx }, [&] { if (y == d && g_form == 1) D -= X; else if (g_form == 2) D = Y - X; else V::sub(D, Y, X); });
		} else
			rec("sub", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D -= Y; else if (g_form == 2) D = X - Y; else V::sub(D, X, Y); });
		break;
	}
	case 6: case 7: case 8: // multiplication, operands that mostly fit together
		if (t != 'w' && X.size() + Y.size() > CAPW && g_rng.chance(80)) ld(t, R, x, genNat(std::max(1, CAPW - (int)Y.size())));
		rec("mul", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D *= Y; else if (g_form == 2) D = X * Y; else V::mul(D, X, Y); });
		break;
	case 9: {
		uint64_t i = edgeWord() & WM;
		rec("muli", t, nd, "", { nx }, [&] { outI("i", mpz_class((unsigned long)i)); if (x == d && g_form == 1) D *= V(i); else if (g_form == 2) V::mul(D, X, V(i)); else V::mul1(D, X, i); });
		break;
	}
	case 10: case 11: case 12: case 13: { // division with all destination patterns
		if (g_rng.chance(75) && x != y) { mpz_class a, b; genDivPair(a, b, mw); ld(t, R, x, a); ld(t, R, y, b); }
		if (load(Y) == 0 && g_rng.chance(85)) ld(t, R, y, mpz_class(1 + g_rng.below(9)));
		bool zero = load(R[y].v) == 0;
		int k = idx(R); // quotient
		if (k == d) k = (k + 1) % N;
		if (g_rng.chance(20) && x != d) k = x;
		if (g_rng.chance(15) && y != d) k = y;
		int form = g_rng.below(7);
		g_form = form;
		if (zero && form > 1) form = 0;
		switch (form) {
		default: rec("div", t, nd, nm(t, k), { nx, ny }, [&] { outN("b", V::div(&R[k].v, D, X, Y)); }); break;
		case 1: rec("div", t, nd, "", { nx, ny }, [&] { outN("b", V::div(0, D, X, Y)); }); break;
		case 2: rec("div", t, "", nd, { nx, ny }, [&] { outN("b", 1); D = X / Y; }); break;
		case 3: rec("div", t, nd, "", { nx, ny }, [&] { outN("b", 1); D = X % Y; }); break;
		case 4: rec("div", t, "", nd, { nd, ny }, [&] { outN("b", 1); D /= Y; }); break;
		case 5: rec("div", t, nd, "", { nd, ny }, [&] { outN("b", 1); D %= Y; }); break;
		}
		break;
	}
	case 14: {
		uint64_t i = edgeWord() & WM; if (i == 0) i = 3;
		bool qn = g_rng.chance(25);
		rec("div1", t, "", qn ? "" : nd, { nx }, [&] { outI("i", mpz_class((unsigned long)i)); uint64_t r = V::div1(qn ? 0 : &D, X, i); outI("rem", mpz_class((unsigned long)r)); });
		break;
	}
	case 15: case 16: {
		int room = UB * mw - (int)mpz_sizeinbase(load(X).get_mpz_t(), 2);
		int n = g_rng.chance(85) ? g_rng.below(std::max(1, room + 1)) : g_rng.below(UB * mw + 70);
		if (g_rng.chance(40)) n = n / UB * UB + (int)g_rng.below(3) - 1;
		if (n < 0) n = 0;
		rec("shl", t, nd, "", { nx }, [&] { outN("n", n); if (x == d && g_form == 1) D <<= n; else if (g_form == 2) D = X << n; else V::shl(D, X, n); });
		break;
	}
	case 17: case 18: {
		int n = g_rng.below(UB * mw + 70);
		if (g_rng.chance(50)) n = g_rng.below((int)mpz_sizeinbase(load(X).get_mpz_t(), 2) + 2);
		if (g_rng.chance(40)) n = n / UB * UB + (int)g_rng.below(3) - 1;
		if (n < 0) n = 0;
		rec("shr", t, nd, "", { nx }, [&] { outN("n", n); if (x == d && g_form == 1) D >>= n; else if (g_form == 2) D = X >> n; else V::shr(D, X, n); });
		break;
	}
	case 19:
		if (g_rng.chance(30) && x != y) ld(t, R, y, load(X));
		rec("cmp", t, "", "", { nx, ny }, [&] { outCmp(X, Y); });
		break;
	case 20:
		if (g_rng.chance(40)) ld(t, R, x, mpz_class(two(1 + g_rng.below(UB * mw)) - 1));
		rec("test", t, "", "", { nx }, [&] { g_extra += fmt(",\"r\":[%d,0,%d,%d]", (int)X.isZero(), (int)X.size(), (int)X.bitLen()); });
		break;
	case 21: {
		int n = g_rng.below(g_rng.chance(70) ? UB * (int)X.size() : UB * mw + 100);
		if (g_rng.chance(50)) rec("bit", t, "", "", { nx }, [&] { outN("n", n); outN("b", X.testBit(n)); });
		else rec("at", t, "", "", { nx }, [&] { outN("n", n / UB); outI("rem", mpz_class((unsigned long)X.getAtWithCheck(n / UB))); });
		break;
	}
	case 22: switch (g_rng.below(4)) {
		case 0: { uint64_t i = edgeWord() & WM; rec("seti", t, nd, "", {}, [&] { outI("i", mpz_class((unsigned long)i)); if (g_form == 1) D = V(i); else D.set(i); }); break; }
		case 1: { std::vector<uint64_t> v = words64(g_rng.below(UB * mw / 64 + 1)); v.push_back(1); size_t n = v.size() - 1;
			rec("set64", t, nd, "", {}, [&] { std::vector<uint64_t> u(v.begin(), v.begin() + n); g_extra += ",\"ws\":" + wordList(u); if (g_form == 1) D = V(&v[0], n); else D.set(&v[0], n); }); break; }
		case 2: { std::vector<uint32_t> v = words32(g_rng.below(UB * mw / 32 + 1)); v.push_back(1); size_t n = v.size() - 1;
			rec("set32", t, nd, "", {}, [&] { std::vector<uint32_t> u(v.begin(), v.begin() + n); g_extra += ",\"ws\":" + wordList(u); if (g_form == 1) D = V(&v[0], n); else D.set(&v[0], n); }); break; }
		default: if (g_rng.chance(50)) rec("clear", t, nd, "", {}, [&] { D.clear(); }); else rec("copy", t, nd, "", { nx }, [&] { D = X; });
		}
		break;
	default: {
		mpz_class base = genNat(g_rng.chance(80) ? 1 : 2);
		int bits = base == 0 ? 1 : mpz_sizeinbase(base.get_mpz_t(), 2);
		int lim = UB * mw / (2 * bits) - 1;
		if (lim < 0) lim = 0;
		unsigned ee = g_rng.below(std::min(lim, 200) + 1);
		ld(t, R, x, base);
		rec("pow", t, nd, "", { nx }, [&] { outI("i", mpz_class(ee)); if (g_form == 0) D = mie::power(X, (int)ee); else if (g_form == 1) D = mie::power(X, (size_t)ee); else D = mie::power(X, A(ee)); });
	}
	}
}
// ------------------------------------------------------------------ signed integers
static mpz_class genSigned(int mw)
{
	mpz_class r = genNat(mw);
	return g_rng.chance(50) ? mpz_class(-r) : r;
}
static void opInt()
{
	int d = g_rng.below(NB), x = g_rng.below(NB), y = g_rng.below(NB);
	if (g_rng.chance(25)) x = d;
	if (g_rng.chance(15)) y = d;
	if (g_rng.chance(12)) y = x;
	B &D = M.b[d].v; const B &X = M.b[x].v, &Y = M.b[y].v;
	Str nd = nm('b', d), nx = nm('b', x), ny = nm('b', y);
	g_form = g_rng.below(4);
	int mw = g_rng.chance(70) ? 4 : CAPW;
	if (g_rng.chance(40)) ldB(g_rng.chance(50) ? x : y, genSigned(mw));
	if (g_rng.chance(15) && x != y) { mpz_class v = loadS(Y); ldB(x, g_rng.chance(50) ? v : mpz_class(-v)); } // cancellation
	switch (g_rng.below(18)) {
	case 0: case 1: rec("add", 'b', nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D += Y; else if (g_form == 2) D = X + Y; else B::add(D, X, Y); }); break;
	case 2: case 3: rec("sub", 'b', nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D -= Y; else if (g_form == 2) D = X - Y; else B::sub(D, X, Y); }); break;
	case 4: case 5:
		if (X.size() + Y.size() > CAPW && g_rng.chance(90)) { ldB(x, genSigned(std::max(1, CAPW - (int)Y.size()))); if (x == y) ldB(x, genSigned(4)); }
		rec("mul", 'b', nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D *= Y; else if (g_form == 2) D = X * Y; else B::mul(D, X, Y); }); break;
	case 6: rec("neg", 'b', nd, "", { nx }, [&] { if (g_form == 1) D = -X; else B::neg(D, X); }); break;
	case 7: case 8: case 9: case 10: {
		if (g_rng.chance(60) && x != y) {
			mpz_class a, b;
			genDivPair(a, b, mw);
			if (g_rng.chance(30)) a -= a % b; // exact
			if (g_rng.chance(25)) { a = g_rng.below(30); b = 1 + g_rng.below(9); }
			ldB(x, g_rng.chance(50) ? a : mpz_class(-a)); ldB(y, g_rng.chance(50) ? b : mpz_class(-b));
		}
		if (loadS(M.b[y].v) == 0 && g_rng.chance(85)) ldB(y, g_rng.chance(50) ? 3 : -3);
		bool zero = loadS(M.b[y].v) == 0;
		int k = g_rng.below(NB);
		if (k == d) k = (k + 1) % NB;
		if (g_rng.chance(20) && x != d) k = x;
		if (g_rng.chance(15) && y != d) k = y;
		int form = g_rng.below(7);
		g_form = form;
		if (zero && form > 1) form = 0;
		switch (form) {
		default: rec("div", 'b', nd, nm('b', k), { nx, ny }, [&] { outN("b", B::div(&M.b[k].v, D, X, Y)); }); break;
		case 1: rec("div", 'b', nd, "", { nx, ny }, [&] { outN("b", B::div(0, D, X, Y)); }); break;
		case 2: rec("div", 'b', "", nd, { nx, ny }, [&] { outN("b", 1); D = X / Y; }); break;
		case 3: rec("div", 'b', nd, "", { nx, ny }, [&] { outN("b", 1); D = X % Y; }); break;
		case 4: rec("div", 'b', "", nd, { nd, ny }, [&] { outN("b", 1); D /= Y; }); break;
		case 5: rec("div", 'b', nd, "", { nd, ny }, [&] { outN("b", 1); D %= Y; }); break;
		}
		break;
	}
	case 11: { int room = UB * CAPW - (int)mpz_sizeinbase(load(X.get()).get_mpz_t(), 2); int n = g_rng.below(std::max(1, room)); if (g_rng.chance(30)) n = UB * g_rng.below(3);
		rec("shl", 'b', nd, "", { nx }, [&] { outN("n", n); if (x == d && g_form == 1) D <<= n; else if (g_form == 2) D = X << n; else B::shl(D, X, n); }); break; }
	case 12: { int n = g_rng.below(200);
		rec("shr", 'b', nd, "", { nx }, [&] { outN("n", n); if (x == d && g_form == 1) D >>= n; else if (g_form == 2) D = X >> n; else B::shr(D, X, n); }); break; }
	case 13: rec("cmp", 'b', "", "", { nx, ny }, [&] { outCmp(X, Y); }); break;
	case 14: if (g_rng.chance(60)) rec("test", 'b', "", "", { nx }, [&] { g_extra += fmt(",\"r\":[%d,%d,%d,%d]", (int)X.isZero(), (int)X.isNegative(), (int)X.size(), (int)X.get().bitLen()); });
		else { int e = g_rng.below(8); ldB(x, genSigned(1) % (two(30))); rec("pow", 'b', nd, "", { nx }, [&] { outI("i", mpz_class(e)); if (g_form == 0) D = mie::power(X, e); else D = mie::power(X, A(e)); }); }
		break;
	case 15: {
		int a = g_rng.below(NA); A& DA = M.a[a].v;
		if (g_form < 2) rec("abs", 'b', nm('a', a), "", { nx }, [&] { if (g_form) DA = X.abs(); else B::absolute(DA, X); });
		else { const A& XA = DA; rec("copy", 'b', nd, "", { nm('a', a) }, [&] { if (g_form == 2) D.set(XA); else D = B(XA); }); }
		break;
	}
	case 16: switch (g_rng.below(6)) {
		case 0: { int64_t i = (int64_t)edgeWord(); rec("seti", 'b', nd, "", {}, [&] { outI("i", mpzOfI(i)); D.set(i); }); break; }
		case 1: { uint64_t i = edgeWord() & WM; rec("seti", 'b', nd, "", {}, [&] { outI("i", mpz_class((unsigned long)i)); D.set((mie::Unit)i); }); break; }
		case 2: { std::vector<uint64_t> v = words64(g_rng.below(8)); v.push_back(1); size_t n = v.size() - 1;
			rec("set64", 'b', nd, "", {}, [&] { std::vector<uint64_t> u(v.begin(), v.begin() + n); g_extra += ",\"ws\":" + wordList(u); D.set(&v[0], n); }); break; }
		case 3: { static const int iv[] = { 0, 1, -1, 0x7fffffff, -0x7fffffff, (int)0x80000000, 5, -5 }; int i = g_rng.chance(70) ? iv[g_rng.below(8)] : (int)g_rng.next();
			rec("seti", 'b', nd, "", {}, [&] { outI("i", mpzOfI(i)); if (g_form == 1) D = i; else D = B(i); }); break; }
		case 4: rec("clear", 'b', nd, "", {}, [&] { D.clear(); }); break;
		default: rec("copy", 'b', nd, "", { nx }, [&] { D = X; });
		}
		break;
	default: { mpz_class v = loadS(X); if (v == 0) break; // compare with a zero reached by cancellation
		rec("sub", 'b', nd, "", { nx, nx }, [&] { B::sub(D, X, X); });
		rec("cmp", 'b', "", "", { nd, ny }, [&] { outCmp(D, Y); });
		rec("print", 'b', "", "", { nd }, [&] { outN("base", 10); outT(D.toString()); });
	}
	}
}
// ------------------------------------------------------------------ residues
template<class ZZ, int N> static void newModulus(char t, Slot<ZZ> (&R)[N], mpz_class& m)
{
	static const char *primes[] = { "2", "3", "5", "fffffffffffffffb"/*not prime, odd*/, "ffffffffffffffc5", "7fffffff", "ffffffff00000001", "10000000000000000",
		"2523648240000001ba344d80000000086121000000000013a700000000000013", "2523648240000001ba344d8000000007ff9f800000000010a10000000000000d",
		"30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff43", "7fffffffffffffffffffffffffffffff", "8000000000000000000000000000001d" };
	if (g_rng.chance(50)) m = mpz_class(primes[g_rng.below(14)], 16);
	else m = genNat(g_rng.chance(90) ? 4 : 8);
	if (m < 2) m = 7;
	A mm; store(mm, m);
	rec("z.mod", t, t == 'z' ? "Mz" : "My", "", {}, [&] { outI("i", m); ZZ::setModulo(mm); }, Str("[\"") + (t == 'z' ? "Mz" : "My") + "\",\"M\",\"" + mpzHex(m) + "\",0]");
	for (int i = 0; i < N; i++) { mpz_class v = genNat(5) % m; if (g_rng.chance(20)) v = m - 1; ldZ(t, R, i, v); }
}
template<class ZZ, int N> static void opZ(char t, Slot<ZZ> (&R)[N], mpz_class& m)
{
	int d = idx(R), x = idx(R), y = idx(R);
	if (g_rng.chance(25)) x = d;
	if (g_rng.chance(15)) y = d;
	if (g_rng.chance(12)) y = x;
	ZZ &D = R[d].v; const ZZ &X = R[x].v, &Yv = R[y].v;
	Str nd = nm(t, d), nx = nm(t, x), ny = nm(t, y);
	g_form = g_rng.below(4);
	if (g_rng.chance(4)) { newModulus(t, R, m); return; }
	if (g_rng.chance(30)) { mpz_class v = genNat(5) % m; if (g_rng.chance(15)) v = m - 1; if (g_rng.chance(10)) v = (m + 1) / 2; ldZ(t, R, g_rng.chance(50) ? x : y, v); }
	if (g_rng.chance(12) && x != y) { mpz_class v = load(Yv.get()); v = (m - v + (int)g_rng.below(3) - 1) % m; if (v < 0) v = 0; ldZ(t, R, x, v); } // sums near the modulus
	auto unit = [&](int i) { mpz_class g, v = load(R[i].v.get()); mpz_gcd(g.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); if (g == 1) return true; for (int k = 0; k < 50; k++) { v = genNat(5) % m; mpz_gcd(g.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); if (g == 1 && v != 0) { ldZ(t, R, i, v); return true; } } return false; };
	switch (g_rng.below(15)) {
	case 0: case 1: rec("z.add", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D += Yv; else if (g_form == 2) D = X + Yv; else ZZ::add(D, X, Yv); }); break;
	case 2: case 3: rec("z.sub", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D -= Yv; else if (g_form == 2) D = X - Yv; else ZZ::sub(D, X, Yv); }); break;
	case 4: case 5: rec("z.mul", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D *= Yv; else if (g_form == 2) D = X * Yv; else ZZ::mul(D, X, Yv); }); break;
	case 6: rec("z.neg", t, nd, "", { nx }, [&] { if (g_form == 1) D = -X; else ZZ::neg(D, X); }); break;
	case 7: case 8: if (!unit(x)) break;
		rec("z.inv", t, nd, "", { nx }, [&] { if (x == d && g_form == 1) D.inverse(); else ZZ::inv(D, X); }); break;
	case 9: if (!unit(y)) break;
		rec("z.div", t, nd, "", { nx, ny }, [&] { if (x == d && g_form == 1) D /= Yv; else D = X / Yv; }); break;
	case 10: {
		mpz_class e = genNat(g_rng.chance(50) ? 1 : 4);
		if (g_rng.chance(30)) e = g_rng.below(5);
		int form = g_form; unsigned long lo = mpz_get_ui(e.get_mpz_t());
		if (form == 0) { e = lo & 0x7fffffff; } else if (form == 1) e = lo;
		A ev; store(ev, e);
		rec("z.pow", t, nd, "", { nx }, [&] { outI("i", e); if (form == 0) D = mie::power(X, (int)e.get_si()); else if (form == 1) D = mie::power(X, (size_t)e.get_ui()); else D = mie::power(X, ev); });
		break;
	}
	case 11: case 12: switch (g_rng.below(5)) {
		case 0: case 1: { static const int iv[] = { 0, 1, -1, 2, -2, 7, -7, 0x7fffffff, -0x7fffffff, (int)0x80000000, 100, -100 }; int i = g_rng.chance(70) ? iv[g_rng.below(12)] : (int)g_rng.next();
			rec("z.seti", t, nd, "", {}, [&] { outI("i", mpzOfI(i)); if (g_form == 0) D.set(i); else if (g_form == 1) D = i; else D = ZZ(i); }); break; }
		case 2: { std::vector<uint64_t> v = words64(g_rng.below(7)); v.push_back(1); size_t n = v.size() - 1;
			rec("z.set64", t, nd, "", {}, [&] { std::vector<uint64_t> u(v.begin(), v.begin() + n); g_extra += ",\"ws\":" + wordList(u); if (g_form < 2) D.set(&v[0], n); else if (g_form == 2) D = ZZ(A(&v[0], n)); else D.set(A(&v[0], n)); }); break; }
		case 3: { std::vector<uint32_t> v = words32(g_rng.below(11)); v.push_back(1); size_t n = v.size() - 1;
			rec("z.set32", t, nd, "", {}, [&] { std::vector<uint32_t> u(v.begin(), v.begin() + n); g_extra += ",\"ws\":" + wordList(u); D.set(&v[0], n); }); break; }
		default: if (g_form < 3) rec("copy", t, nd, "", { nx }, [&] { if (g_form) D = X; else D.set(X); }); else rec("clear", t, nd, "", {}, [&] { D.clear(); });
		}
		break;
	case 13: rec("cmp", t, "", "", { nx, ny }, [&] { outCmp(X, Yv); }); break;
	default: { int base = g_rng.chance(50) ? 10 : 16;
		if (g_form == 0) rec("print", t, "", "", { nx }, [&] { outN("base", base); outT(X.toString(base)); });
		else if (g_form == 1) rec("print", t, "", "", { nx }, [&] { outN("base", base); std::ostringstream os; if (base == 16) os << std::hex; os << X; outT(os.str()); });
		else { mpz_class v = genNat(6); Str s = base == 10 ? v.get_str(10) : "0x" + v.get_str(16); if (g_rng.chance(10)) s.insert(g_rng.below(s.size() + 1), 1, "xg -+"[g_rng.below(5)]);
			rec("z.parse", t, nd, "", {}, [&] { outN("base", 0); g_extra += ",\"t\":" + codes(s); if (g_form == 2) D.set(s); else D = ZZ(s); }); }
	}
	}
}
// ------------------------------------------------------------------ text
static Str genNumText(bool sgn, int& base, int mw)
{
	mpz_class v = genNat(g_rng.chance(60) ? 3 : mw);
	if (g_rng.chance(35)) { // groups of zeros: around powers of 10^9 and 2^32
		mpz_class t;
		mpz_ui_pow_ui(t.get_mpz_t(), 10, 9 * g_rng.below(2 * mw) + g_rng.below(3));
		v = (g_rng.chance(50) ? t : two(32 * g_rng.below(2 * mw))) * (1 + g_rng.below(12)) + (int)g_rng.below(3) - 1;
		if (g_rng.chance(30)) { mpz_ui_pow_ui(t.get_mpz_t(), 10, 9); v = v * t + g_rng.below(1000000000); }
		v %= two(UB * mw);
		if (v < 0) v = 0;
	}
	bool hex = g_rng.chance(45);
	base = 0;
	Str s = v.get_str(hex ? 16 : 10);
	if (hex && g_rng.chance(15)) for (size_t i = 0; i < s.size(); i++) s[i] = toupper(s[i]);
	if (g_rng.chance(12)) s = Str(1 + g_rng.below(g_rng.chance(80) ? 3 : 40), '0') + s;
	if (hex) { if (g_rng.chance(75)) { s = "0x" + s; base = g_rng.chance(75) ? 0 : 16; } else base = 16; } else base = g_rng.chance(70) ? 0 : 10;
	if (g_rng.chance(sgn ? 45 : 4)) s = "-" + s;
	if (g_rng.chance(22)) { // damage it
		static const char bad[] = "xXgG-+ ._z/:@`[]\0\t\n0a9";
		int k = 1 + g_rng.below(2);
		while (k--) {
			size_t pos = g_rng.below(s.size() + 1);
			if (g_rng.chance(30)) pos = 0;
			if (g_rng.chance(30)) { size_t b = g_rng.chance(50) ? 9 : 8; pos = s.size() > b ? s.size() - b * (g_rng.below(s.size() / b) + 1) : 0; if (g_rng.chance(30) && pos < s.size()) pos++; }
			char c = bad[g_rng.below(sizeof(bad) - 1)];
			if (g_rng.chance(60) && pos < s.size()) s[pos] = c; else s.insert(pos, 1, c);
		}
	}
	if (g_rng.chance(3)) { static const char *sp[] = { "", "0x", "-", "0", "-0", "00", "0x0", "x", "0X1", "-0x0", "0x-1", "--1", "+1", " 1", "1 ", "0b1", "-0x", "0xg" }; s = sp[g_rng.below(18)]; }
	return s;
}
template<class V, int N> static void opText(char t, Slot<V> (&R)[N])
{
	int d = idx(R), x = idx(R), mw = maxWords<V>();
	V &D = R[d].v; const V &X = R[x].v;
	V& XM = R[x].v;
	Str nd = nm(t, d), nx = nm(t, x);
	g_form = g_rng.below(4);
	int base = g_rng.chance(50) ? 10 : 16;
	if (g_rng.chance(50)) { int b; Str s = genNumText(t == 'b', b, mw); mpz_class v; // print values with interesting digit groups
		if (v.set_str(s, b == 16 || (s.find("0x") != Str::npos) ? 16 : 10) == 0) { if (s[0] != '-' && v < 0) v = -v; if (abs(v) < two(UB * mw)) { if (t == 'b') rec("ld", t, nx, "", {}, [&] { XM = V(0); store(raw(XM), mpz_class(abs(v))); }); else rec("ld", t, nx, "", {}, [&] { store(raw(XM), mpz_class(abs(v))); }); } } }
	switch (g_rng.below(8)) {
	case 0: rec("print", t, "", "", { nx }, [&] { outN("base", base); outT(g_form & 1 ? X.toString(base) : XM.toStr(base)); }); break;
	case 1: rec("print", t, "", "", { nx }, [&] { outN("base", base); std::ostringstream os; if (base == 16) os << std::hex; os << X; outT(os.str()); }); break;
	case 2: { // print, then read back
		Str s;
		rec("print", t, "", "", { nx }, [&] { outN("base", base); s = X.toString(base); outT(s); });
		rec("parse", t, nd, "", {}, [&] { outN("base", 0); g_extra += ",\"t\":" + codes(s); D.set(s); });
		break;
	}
	case 3: case 4: case 5: {
		Str s = genNumText(t == 'b', base, mw);
		rec("parse", t, nd, "", {}, [&] { outN("base", g_form == 1 ? 0 : base); g_extra += ",\"t\":" + codes(s); if (g_form == 1) D = V(s); else if (g_form == 2 && base) D.fromStr(s, base); else D.set(s, base); });
		break;
	}
	default: { // several values from one stream
		int n = 1 + g_rng.below(4);
		Str s;
		for (int i = 0; i < n; i++) {
			int b;
			Str k = genNumText(t == 'b', b, mw);
			if (g_rng.chance(80)) while (b == 16 && k.find("0x") == Str::npos) k = genNumText(t == 'b', b, mw);
			static const char *sep[] = { " ", "\n", "\t ", ",", "]", " ; ", "", "  \n " };
			if (g_rng.chance(20)) s += sep[g_rng.below(8)];
			s += k;
			if (i < n - 1 || g_rng.chance(40)) s += g_rng.chance(75) ? " " : sep[g_rng.below(8)];
		}
		std::istringstream is(s);
		g_is = &is; g_in = s;
		if (g_rng.chance(30)) is >> std::hex;
		rec("open", t, "i0", "", {}, [&] { g_extra += ",\"t\":" + codes(s); });
		for (int i = 0; i < n + 1; i++) {
			bool bad = false;
			int k = idx(R);
			rec("read", t, nm(t, k), "i0", { "i0" }, [&] { is >> R[k].v; bad = is.fail(); if (bad) throw std::runtime_error("stream failure"); });
			if (bad || g_refused) break;
			if (g_rng.chance(10)) { char c; g_extra.clear(); size_t p = is.eof() ? s.size() : (size_t)is.tellg(); if (p < s.size()) { rec("open", t, "i0", "", {}, [&] { is.get(c); g_extra += ",\"t\":" + codes(s.substr(p + 1)); }); } }
		}
		g_is = 0;
	}
	}
}
int main(int argc, char **argv)
{
	if (argc < 6) return 3;
	openTrace(argv[1]);
	Str prof = argv[2];
	g_rng = Rng(strtoull(argv[3], 0, 10));
	int steps = atoi(argv[4]);
	if (atoi(argv[5])) mie::zmInit(); // portable primitives only where there is no generated code
	InitPads ip; eachReg(ip);
	for (int i = 0; i < 10; i++) genNat(CAPW);
	eachReg([](char t, int i, auto&) { g_cur[nm(t, i)] = "?"; });
	rec("ld", 'a', "", "", {}, [] {}, ""); // replaced below: the first event lists every register
	for (uint64_t g0 = g_events; g_events - g0 < (uint64_t)steps;) {
		int k = g_rng.below(100);
		if (prof == "nat") { if (k < 70) opNat('a', M.a); else opNat('w', M.w); }
		else if (prof == "int") opInt();
		else if (prof == "mod") { if (g_m[0] == 0) { newModulus('z', M.z, g_m[0]); newModulus('y', M.y, g_m[1]); } if (k < 60) opZ('z', M.z, g_m[0]); else opZ('y', M.y, g_m[1]); }
		else if (prof == "text") { if (k < 40) opText('a', M.a); else if (k < 75) opText('b', M.b); else opText('w', M.w); }
		else return 3;
	}
	closeTrace();
	return 0;
}
