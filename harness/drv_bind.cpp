// Drives the language-binding interface (java/bn254_if.hpp): random call sequences on its wrapper objects.
// The objects live in the registers of drv_field (each wrapper is exactly its wrapped value).
//   drv_bind OUT PROFILE SEED STEPS
#define DRV_FIELD_NO_MAIN
#include "drv_field.cpp"
#include <stdexcept>
namespace bnd {
#include "java/bn254_if.hpp"
}
template<class W, class T> static W& as(T& x) { static_assert(sizeof(W) == sizeof(T), "wrapper layout"); return reinterpret_cast<W&>(x); }
#define BF(i) as<bnd::Fp>(M.f[i].v)
#define BG(i) as<bnd::Fp2>(M.g[i].v)
#define BT(i) as<bnd::Fp12>(M.t[i].v)
#define BP(i) as<bnd::Ec1>(M.p[i].v)
#define BQ(i) as<bnd::Ec2>(M.q[i].v)
enum { NZ = 6 };
static bnd::Mpz g_z[NZ];
static const mpz_class& zv(int i) { return reinterpret_cast<const mpz_class&>(g_z[i]); }
static void zput(int i, const mpz_class& v) { reinterpret_cast<mpz_class&>(g_z[i]) = v; }
static Str sHex(const mpz_class& v) { return v.get_str(16); }
static int zi() { return g_rng.below(NZ); }
static Str zn(int i) { return fmt("z%d", i); }
static void zload(int i, const mpz_class& v)
{
	zput(i, v);
	emit("{\"o\":\"z.ld\",\"d\":" + q(zn(i)) + ",\"s\":[],\"w\":[[" + q(zn(i)) + ",\"z\",[" + q(sHex(v)) + "]]],\"fm\":0}");
}
template<class F>
static bool brec(const Str& o, const Str& d, SL s, F f) // false when the call signalled an error
{
	mpz_class old[NZ];
	for (int i = 0; i < NZ; i++) old[i] = zv(i);
	g_extra.clear();
	memcpy(&g_snap, &g_mem, sizeof(g_mem));
	setLastOp(o.c_str());
	const char *how = guarded(f);
	if (*how) g_extra += ",\"x\":" + q(how);
	Str w = changed();
	w.resize(w.size() - 1);
	for (int i = 0; i < NZ; i++) if (old[i] != zv(i)) w += (w.size() > 1 ? ",[" : "[") + q(zn(i)) + ",\"z\",[" + q(sHex(zv(i))) + "]]";
	emit("{\"o\":" + q(o) + ",\"d\":" + q(d) + ",\"s\":" + list(s) + ",\"w\":" + w + "]" + fmt(",\"fm\":%d", g_form) + g_extra + "}");
	return !*how;
}
static mpz_class genInt()
{
	mpz_class one = 1, v;
	switch (g_rng.below(8)) {
	case 0: v = g_rng.below(5); break;
	case 1: v = ORD_ * g_rng.below(3) + (int)g_rng.below(5) - 2; break;
	case 2: v = (one << g_rng.below(300)) - g_rng.below(2); break;
	case 3: v = rndMpzBits(1 + g_rng.below(600)); break;
	case 4: v = rndMpzBits(64); break;
	case 5: v = P_ + (int)g_rng.below(3) - 1; break;
	default: v = rndMpzBits(256); break;
	}
	if (g_rng.chance(25)) v = -v;
	return v;
}
static mpz_class genPow() { mpz_class v = genScalar(g_rng.chance(80) ? 256 : 384); if (g_rng.chance(15)) v = -v; return v; }
static int someInt()
{
	static const int iv[] = { 0, 1, -1, 2, -2, 3, 7, -9, 0x7fffffff, -0x7fffffff, 0x40000000, 65537, -65536, (int)0x80000000 };
	return g_rng.chance(60) ? iv[g_rng.below(14)] : (int)g_rng.next();
}
static Str iHex(int v) { return sHex(mpz_class(v)); }
static void opZ()
{
	int d = zi(), a = zi();
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(40)) zload(g_rng.chance(50) ? a : d, genInt());
	g_form = g_rng.below(3);
	switch (g_rng.below(12)) {
	case 0: brec("z.new", zn(d), {}, [&] { g_z[d] = bnd::Mpz(); }); break;
	case 1: brec("z.copy", zn(d), { zn(a) }, [&] { if (g_form) g_z[d] = g_z[a]; else { bnd::Mpz x(g_z[a]); g_z[d] = x; } }); break;
	case 2: { int v = someInt(); brec("z.seti", zn(d), {}, [&] { outI("i", iHex(v)); if (g_form) g_z[d].set(v); else g_z[d] = bnd::Mpz(v); }); break; }
	case 3: case 4: {
		mpz_class v = genInt();
		Str s = g_rng.chance(70) ? v.get_str(10) : (v < 0 ? "-0x" : "0x") + mpzHex(abs(v));
		if (g_rng.chance(30)) { damage(s); for (size_t i = 0; i < s.size(); i++) if (!s[i]) s[i] = '?'; }
		brec("z.set", zn(d), {}, [&] { g_extra += ",\"t\":" + codes(s); if (g_form) g_z[d].set(s); else g_z[d] = bnd::Mpz(s); });
		break; }
	case 5: brec("z.print", "", { zn(a) }, [&] { g_extra += ",\"txt\":" + jsonStr(g_z[a].toString()); }); break;
	case 6: brec("z.cmp", "", { zn(d), zn(a) }, [&] { int c = g_z[d].compareTo(g_z[a]); g_extra += fmt(",\"r\":[%d,%d]", (int)g_z[d].equals(g_z[a]), c < 0 ? -1 : c > 0); }); break;
	case 7: brec("z.add", zn(d), { zn(d), zn(a) }, [&] { g_z[d].add(g_z[a]); }); break;
	case 8: brec("z.sub", zn(d), { zn(d), zn(a) }, [&] { g_z[d].sub(g_z[a]); }); break;
	case 9: brec("z.mul", zn(d), { zn(d), zn(a) }, [&] { g_z[d].mul(g_z[a]); });
		if (mpz_sizeinbase(zv(d).get_mpz_t(), 2) > 2000) zload(d, genInt());
		break;
	case 10: brec("z.mod", zn(d), { zn(d), zn(a) }, [&] { g_z[d].mod(g_z[a]); }); break;
	case 11: if (g_rng.chance(20)) brec("z.order", zn(d), {}, [&] { g_z[d] = bnd::GetParamR(); }); break;
	}
}
static Str bnm(const char *s, char t) { return Str(s) + t; }
static Str core(char t, const char *s) { return Str(1, t) + s; }
// add, sub, mul, equals, power, copy: common to the three fields
template<class W> static void opField(char t, W& D, const W& A, int d, int a)
{
	Str nd = nm(t, d), na = nm(t, a);
	g_form = g_rng.below(2);
	switch (g_rng.below(9)) {
	case 0: case 1: brec(core(t, ".add"), nd, { nd, na }, [&] { D.add(A); }); break;
	case 2: case 3: brec(core(t, ".sub"), nd, { nd, na }, [&] { D.sub(A); }); break;
	case 4: case 5: brec(core(t, ".mul"), nd, { nd, na }, [&] { D.mul(A); }); break;
	case 6: brec(bnm("b.eq", t), "", { nd, na }, [&] { outB(D.equals(A)); }); break;
	case 7: brec(bnm("b.copy", t), nd, { na }, [&] { if (g_form) D = A; else { W x(A); D = x; } }); break;
	case 8: {
		int k = zi();
		if (g_rng.chance(70)) zload(k, genPow());
		if (mpz_sizeinbase(zv(k).get_mpz_t(), 2) > 700) return;
		brec(bnm("b.pow", t), nd, { nd, zn(k) }, [&] { D.power(g_z[k]); });
		break; }
	}
}
static void prep(char t, int d, int a)
{
	if (g_rng.chance(30)) loadField(t, d);
	if (g_rng.chance(30)) loadField(t, a);
	if (a != d && g_rng.chance(20)) { if (t == 'f') M.f[d].v = M.f[a].v; else if (t == 'g') M.g[d].v = M.g[a].v; else M.t[d].v = M.t[a].v;
		// tell the trace: a copy made outside the interface
		uint64_t w[48]; memcpy(w, t == 'f' ? (void*)&M.f[d].v : t == 'g' ? (void*)&M.g[d].v : (void*)&M.t[d].v, 32 * compOf(t));
		if (g_rng.chance(50)) { int j = g_rng.below(compOf(t)); limbsOfMpz(w + 4 * j, 4, modp(mpzOfLimbs(w + 4 * j, 4) + 1, P_)); }
		loadRaw(t, d, w); }
}
static void opBF()
{
	int d = idx('f'), a = idx('f');
	if (g_rng.chance(25)) a = d;
	prep('f', d, a);
	Str nd = nm('f', d);
	g_form = g_rng.below(2);
	switch (g_rng.below(5)) {
	case 0: { int v = someInt(); brec("f.seti", nd, {}, [&] { outI("i", iHex(v)); if (g_form) BF(d).set(v); else BF(d) = bnd::Fp(v); }); break; }
	case 1: { Str s = genFpText(); if (g_rng.chance(30)) damage(s); brec("f.parse", nd, {}, [&] { g_extra += ",\"t\":" + codes(s); if (g_form) BF(d).set(s); else BF(d) = bnd::Fp(s); }); break; }
	case 2: brec("f.print", "", { nd }, [&] { g_extra += ",\"base\":10,\"txt\":" + jsonStr(BF(d).toString()); }); break;
	default: opField('f', BF(d), BF(a), d, a);
	}
}
static void opBG()
{
	int d = idx('g'), a = idx('g'), x = idx('f'), y = idx('f');
	if (g_rng.chance(25)) a = d;
	prep('g', d, a);
	if (g_rng.chance(30)) loadField('f', x);
	Str nd = nm('g', d);
	g_form = g_rng.below(2);
	switch (g_rng.below(14)) {
	case 0: { int v = someInt(); brec("b.setg1", nd, {}, [&] { outI("i", iHex(v)); BG(d) = bnd::Fp2(v); }); break; }
	case 1: { int v = someInt(), u = someInt(); brec("b.setg2", nd, {}, [&] { outI("i", iHex(v)); outI("j", iHex(u)); BG(d) = bnd::Fp2(v, u); }); break; }
	case 2: brec("b.setg", nd, { nm('f', x), nm('f', y) }, [&] { BG(d) = bnd::Fp2(BF(x), BF(y)); }); break;
	case 3: { Str s = genElemText('g', g_rng.chance(40)); if (g_rng.chance(30)) damage(s); brec("g.parse", nd, {}, [&] { g_extra += ",\"t\":" + codes(s); BG(d).set(s); }); break; }
	case 4: { Str s = genFpText(), u = genFpText(); if (g_rng.chance(30)) damage(g_rng.chance(50) ? s : u);
		brec("b.parseg2", nd, {}, [&] { g_extra += ",\"t\":" + codes(s) + ",\"t2\":" + codes(u); BG(d) = bnd::Fp2(s, u); }); break; }
	case 5: brec("g.print", "", { nd }, [&] { g_extra += ",\"base\":10,\"txt\":" + jsonStr(BG(d).toString()); }); break;
	case 6: brec(g_form ? "b.getA" : "b.getB", nm('f', x), { nm('g', a) }, [&] { BF(x) = g_form ? BG(a).getA() : BG(a).getB(); }); break;
	case 7: brec(g_form ? "b.addA" : "b.addB", nd, { nd, nm('f', x) }, [&] { (g_form ? BG(d).getA() : BG(d).getB()).add(BF(x)); }); break;
	default: opField('g', BG(d), BG(a), d, a);
	}
}
static void opBT()
{
	int d = idx('t'), a = idx('t');
	if (g_rng.chance(25)) a = d;
	prep('t', d, a);
	Str nd = nm('t', d);
	g_form = 0;
	switch (g_rng.below(8)) {
	case 0: { int v = someInt(); brec("b.sett1", nd, {}, [&] { outI("i", iHex(v)); BT(d) = bnd::Fp12(v); }); break; }
	case 1: { Str s = genElemText('t', g_rng.chance(40)); if (g_rng.chance(30)) damage(s); brec("b.parset", nd, {}, [&] { g_extra += ",\"t\":" + codes(s); BT(d).set(s); }); break; }
	case 2: brec("t.print", "", { nd }, [&] { g_extra += ",\"base\":10,\"txt\":" + jsonStr(BT(d).toString()); }); break;
	default: opField('t', BT(d), BT(a), d, a);
	}
}
template<class EC> struct Wr;
template<> struct Wr<Ec1> { typedef bnd::Ec1 W; typedef bnd::Fp F; static W& at(int i) { return BP(i); } static F& co(int i) { return BF(i); } static const char L = 'P'; };
template<> struct Wr<Ec2> { typedef bnd::Ec2 W; typedef bnd::Fp2 F; static W& at(int i) { return BQ(i); } static F& co(int i) { return BG(i); } static const char L = 'Q'; };
static Str pointText(const ZP& P, int n)
{
	if (P.inf) return "0";
	auto num = [](const mpz_class& v) { return g_rng.chance(70) ? "0x" + v.get_str(16) : v.get_str(10); };
	auto co = [&](const Z2& x) { return n == 1 ? num(x.a) : "[" + num(x.a) + "," + num(x.b) + "]"; };
	return co(P.x) + "_" + co(P.y);
}
template<class EC> static void opBPoint()
{
	typedef EnvOf<EC> E;
	typedef typename Wr<EC>::W W;
	typedef typename Wr<EC>::F F;
	const char t = E::pt, c = E::co, L = Wr<EC>::L;
	const int n = E::n;
	int d = idx(t), a = idx(t);
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(30)) loadPoint(t, d, pickPoint(t));
	if (a != d && g_rng.chance(40)) loadPoint(t, a, related(readPoint(E::reg()[d].v), t));
	else if (g_rng.chance(30)) loadPoint(t, a, g_rng.chance(20) && n == 2 ? rndTwist() : pickPoint(t));
	W &D = Wr<EC>::at(d); const W &A = Wr<EC>::at(a);
	Str nd = nm(t, d), na = nm(t, a);
	auto O = [&](const char *s) { return Str(1, L) + s; };
	g_form = g_rng.below(2);
	switch (g_rng.below(20)) {
	case 0: brec(O(".clear"), nd, {}, [&] { if (g_form) D.clear(); else { W x; D = x; } }); break; // the default object is the point at infinity
	case 1: brec(O(".copy"), nd, { na }, [&] { if (g_form) D = A; else { W x(A); D = x; } }); break;
	case 2: case 3: brec(O(".add"), nd, { nd, na }, [&] { D.add(A); }); break;
	case 4: case 5: brec(O(".sub"), nd, { nd, na }, [&] { D.sub(A); }); break;
	case 6: brec(O(".dbl"), nd, { nd }, [&] { D.dbl(); }); break;
	case 7: brec(O(".neg"), nd, { nd }, [&] { D.neg(); }); break;
	case 8: case 9: { int k = zi();
		if (g_rng.chance(70)) zload(k, genPow());
		if (mpz_sizeinbase(zv(k).get_mpz_t(), 2) > 700) return;
		brec(bnm("b.mul", L), nd, { nd, zn(k) }, [&] { D.mul(g_z[k]); });
		break; }
	case 10: brec(bnm("b.eq", L), "", { nd, na }, [&] { outB(D.equals(A)); }); break;
	case 11: brec(bnm("b.zero", L), "", { nd }, [&] { outB(D.isZero()); }); break;
	case 12: brec(O(".print"), "", { nd }, [&] { g_extra += ",\"base\":16,\"txt\":" + jsonStr(D.toString()); }); break;
	case 13: case 14: { // text
		ZP P = pickPoint(t);
		Str s = pointText(P, n);
		if (g_rng.chance(20)) s = genElemText(n == 1 ? 'f' : 'g', false) + "_" + genElemText(n == 1 ? 'f' : 'g', false);
		if (g_rng.chance(20) && !P.inf) { P.y.a = modp(P.y.a + 1, P_); s = pointText(P, n); }
		if (g_rng.chance(25)) damage(s);
		bool ok = brec(bnm("b.parse", L), nd, {}, [&] { g_extra += ",\"t\":" + codes(s); D.set(s); });
		if (!ok) loadPoint(t, d, pickPoint(t));
		break; }
	case 15: { static const char *ops[] = { "b.getX", "b.getY", "b.getZ" }; int k = g_rng.below(3), x = idx(c);
		if (readPoint(E::reg()[d].v).inf && k < 2) return;
		brec(bnm(ops[k], L), nm(c, x), { nd }, [&] { Wr<EC>::co(x) = k == 0 ? D.getX() : k == 1 ? D.getY() : D.getZ(); });
		break; }
	case 16: case 17: case 18: { // from coordinates, right or wrong
		bool three = g_rng.chance(50);
		int x = idx(c), y = other(c, x), z;
		do z = idx(c); while (z == x || z == y);
		ZP P = n == 2 && g_rng.chance(20) ? rndTwist() : pickPoint(t, three);
		loadPoint(t, a, P, 0, !three);
		uint64_t w[24];
		memcpy(w, E::reg()[a].v.p, 96 * n);
		if (g_rng.chance(40)) { int j = g_rng.below((three ? 3 : 2) * n); limbsOfMpz(w + 4 * j, 4, modp(mpzOfLimbs(w + 4 * j, 4) + (g_rng.chance(50) ? R_ : genRaw()), P_)); }
		for (int i = 0; i < 3 * n; i++) limbsOfMpz(w + 4 * i, 4, modp(mpzOfLimbs(w + 4 * i, 4), P_));
		loadRaw(c, x, w); loadRaw(c, y, w + 4 * n);
		if (three) loadRaw(c, z, w + 8 * n);
		F &X = Wr<EC>::co(x), &Y = Wr<EC>::co(y), &Z = Wr<EC>::co(z);
		bool ok = true;
		auto go = [&] {
			try {
				if (three) { if (g_form) D.set(X, Y, Z); else { W v(X, Y, Z); D = v; } }
				else { if (g_form) D.set(X, Y); else { W v(X, Y); D = v; } }
			} catch (std::exception&) { ok = false; }
			outB(ok);
		};
		if (three) brec(O(".set3"), nd, { nm(c, x), nm(c, y), nm(c, z) }, go); else brec(O(".set2"), nd, { nm(c, x), nm(c, y) }, go);
		if (!ok) loadPoint(t, d, pickPoint(t));
		break; }
	case 19: { // a coordinate changed through the reference the interface hands out
		int x = idx(c);
		ZP P = pickPoint(t, false);
		loadPoint(t, d, P);
		if (g_rng.chance(70)) loadField(c, x);
		uint64_t w[24];
		int k = g_rng.below(3);
		F& C = k == 0 ? D.getX() : k == 1 ? D.getY() : D.getZ();
		C.add(Wr<EC>::co(x)); // Fp addition itself is checked elsewhere
		memcpy(w, E::reg()[d].v.p, 96 * n);
		loadRaw(t, d, w);
		brec(O(".isValid"), "", { nd }, [&] { outB(D.isValid()); });
		loadPoint(t, d, pickPoint(t));
		break; }
	}
	if (t == 'q') for (int i = 0; i < NQ; i++) g_ordR[i] = false;
}
static void opBPair()
{
	int p = idx('p'), q = idx('q'), d = idx('t');
	loadPoint('q', q, pickPoint('q'));
	if (g_rng.chance(50)) loadPoint('p', p, pickPoint('p'));
	g_form = 0;
	brec("e.ec", nm('t', d), { nm('q', q), nm('p', p) }, [&] { BT(d).pairing(BQ(q), BP(p)); });
	if (g_rng.chance(60)) {
		int k = zi();
		zload(k, genPow());
		brec("b.powt", nm('t', d), { nm('t', d), zn(k) }, [&] { BT(d).power(g_z[k]); });
	}
}
int main(int argc, char **argv)
{
	if (argc < 5) { fprintf(stderr, "usage: drv_bind OUT PROFILE SEED STEPS\n"); return 3; }
	openTrace(argv[1]);
	bnd::SystemInit();
	Str prof = argv[2];
	uint64_t seed = strtoull(argv[3], 0, 10);
	int r = runField("fp", seed, 0, 2); // registers with known values
	if (r) return r;
	g_rng = Rng(seed * 7777 + prof.size());
	for (int i = 0; i < NZ; i++) zload(i, genInt());
	uint64_t limit = g_events + atoi(argv[4]);
	while (g_events < limit) {
		if (prof == "pair") { opBPair(); continue; }
		switch (g_rng.below(10)) {
		case 0: case 1: opZ(); break;
		case 2: opBF(); break;
		case 3: case 4: opBG(); break;
		case 5: opBT(); break;
		case 6: case 7: opBPoint<Ec1>(); break;
		default: opBPoint<Ec2>(); break;
		}
	}
	closeTrace();
	return 0;
}
