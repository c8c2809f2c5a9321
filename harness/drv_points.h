// Points, scalar multiplication, validity, Miller lines, pairings, powers.
#pragma once
// ------------------------------------------------------------------ points computed without the library
struct Z2 { mpz_class a, b; };
static Z2 z2(const mpz_class& a, const mpz_class& b) { Z2 r; r.a = modp(a, P_); r.b = modp(b, P_); return r; }
static Z2 zadd(const Z2& x, const Z2& y) { return z2(x.a + y.a, x.b + y.b); }
static Z2 zsub(const Z2& x, const Z2& y) { return z2(x.a - y.a, x.b - y.b); }
static Z2 zmul(const Z2& x, const Z2& y) { return z2(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a); }
static bool zeq(const Z2& x, const Z2& y) { return x.a == y.a && x.b == y.b; }
static Z2 zinv(const Z2& x) { mpz_class n = invm(modp(x.a * x.a + x.b * x.b, P_), P_); return z2(x.a * n, -x.b * n); }
static bool legendreOne(const mpz_class& v) { return v == 0 || powm(v, (P_ - 1) / 2, P_) == 1; }
static mpz_class sqrtp(const mpz_class& v) { return powm(v, (P_ + 1) / 4, P_); }
static bool zsqrt(Z2& r, const Z2& v)
{
	if (v.b == 0) {
		if (legendreOne(v.a)) r = z2(sqrtp(v.a), 0); else r = z2(0, sqrtp(modp(-v.a, P_)));
		return true;
	}
	mpz_class n = modp(v.a * v.a + v.b * v.b, P_);
	if (!legendreOne(n)) return false;
	mpz_class s = sqrtp(n), i2 = invm(2, P_), t = modp((v.a + s) * i2, P_);
	if (!legendreOne(t)) t = modp((v.a - s) * i2, P_);
	mpz_class x = sqrtp(t);
	r = z2(x, v.b * invm(modp(2 * x, P_), P_));
	return zeq(zmul(r, r), v);
}
struct ZP { Z2 x, y; bool inf; };
static TLS Z2 g_twistB;
static ZP zpInf() { ZP r; r.inf = true; r.x = r.y = z2(0, 0); return r; }
static ZP zpAdd(const ZP& p, const ZP& q)
{
	if (p.inf) return q;
	if (q.inf) return p;
	Z2 l;
	if (zeq(p.x, q.x)) {
		if (!zeq(p.y, q.y) || (p.y.a == 0 && p.y.b == 0)) return zpInf();
		l = zmul(zmul(z2(3, 0), zmul(p.x, p.x)), zinv(zadd(p.y, p.y)));
	} else l = zmul(zsub(q.y, p.y), zinv(zsub(q.x, p.x)));
	ZP r;
	r.inf = false;
	r.x = zsub(zsub(zmul(l, l), p.x), q.x);
	r.y = zsub(zmul(l, zsub(p.x, r.x)), p.y);
	return r;
}
static ZP zpMul(const ZP& p, const mpz_class& k)
{
	ZP r = zpInf();
	for (int i = (int)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) {
		r = zpAdd(r, r);
		if (mpz_tstbit(k.get_mpz_t(), i)) r = zpAdd(r, p);
	}
	return r;
}
// G1 points are kept in the same type with b = 0
static ZP rndG1()
{
	for (;;) {
		mpz_class x = g_rng.chance(20) ? mpz_class(g_rng.below(9)) : g_rng.chance(50) ? ofRaw(genRaw()) : modp(rndMpzBits(300), P_);
		mpz_class v = modp(x * x * x + g_b, P_);
		if (!legendreOne(v)) continue;
		mpz_class y = sqrtp(v);
		if (g_rng.chance(50)) y = P_ - y;
		ZP r; r.inf = false; r.x = z2(x, 0); r.y = z2(y, 0);
		return r;
	}
}
static ZP rndTwist() // any point of the twist, usually not of order r
{
	for (;;) {
		Z2 x = z2(modp(rndMpzBits(300), P_), g_rng.chance(25) ? mpz_class(0) : modp(rndMpzBits(300), P_));
		Z2 v = zadd(zmul(zmul(x, x), x), g_twistB), y;
		if (!zsqrt(y, v)) continue;
		ZP r; r.inf = false; r.x = x; r.y = g_rng.chance(50) ? y : zsub(z2(0, 0), y);
		return r;
	}
}
enum { NBASE = 4 };
static TLS ZP g_base1[NBASE], g_base2[NBASE]; // finite, base2 of order r
static TLS mpz_class g_beta; // cube root of unity in Fp
static TLS bool g_ordR[NQ]; // q register known to hold a point of order r (or infinity)
static void initPoints()
{
#ifdef BN_SUPPORT_SNARK
	Z2 xi = z2(9, 1);
#else
	Z2 xi = z2(1, 1);
#endif
	g_twistB = zmul(z2(g_b, 0), zinv(xi));
	for (mpz_class h = 2;; h++) { g_beta = powm(h, (P_ - 1) / 3, P_); if (g_beta != 1) break; }
	mpz_class cof = 2 * P_ - ORD_;
	for (int i = 0; i < NBASE; i++) {
		g_base1[i] = rndG1();
		if (i < 2) do g_base2[i] = zpMul(rndTwist(), cof); while (g_base2[i].inf);
		else { g_base2[i] = zpAdd(g_base2[0], g_base2[i - 1]); if (g_rng.chance(50)) g_base2[i] = zpAdd(g_base2[i], g_base2[1]); }
	}
	if (!zpMul(g_base2[0], ORD_).inf) { fprintf(stderr, "driver: bad base point\n"); exit(3); }
}
static bool isPoint1(char t) { return t == 'p' || t == 'u'; }
static void putComp(uint64_t *w, const Z2& x, int n) { limbsOfMpz(w, 4, toRaw(x.a)); if (n == 2) limbsOfMpz(w + 4, 4, toRaw(x.b)); }
// load a representative of P into a point register; kind: 0 Jacobian, 1 homogeneous
static void loadPoint(char t, int i, const ZP& P, int kind = 0, bool affine = false)
{
	int n = isPoint1(t) ? 1 : 2;
	uint64_t w[48];
	if (P.inf) {
		switch (g_rng.below(3)) {
		case 0: memset(w, 0, sizeof(w)); break;
		case 1: for (int j = 0; j < 2 * n; j++) limbsOfMpz(w + 4 * j, 4, genRaw()); memset(w + 8 * n, 0, 32 * n); break;
		default: memset(w, 0, sizeof(w)); limbsOfMpz(w, 4, R_); limbsOfMpz(w + 4 * n, 4, R_);
		}
		loadRaw(t, i, w);
		return;
	}
	Z2 Z = z2(1, 0);
	if (!affine) switch (g_rng.below(8)) {
	case 0: break;
	case 1: Z = z2(-1, 0); break;
	case 2: Z = n == 2 ? z2(0, 1 + g_rng.below(3)) : z2(2, 0); break;
	case 3: case 4: if (n == 2) { // one component 0, 1 or -1
		mpz_class s = (int)g_rng.below(3) - 1, x = g_rng.chance(50) ? ofRaw(genRaw()) : mpz_class((int)g_rng.below(5) - 2);
		Z = g_rng.chance(60) ? z2(s, x) : z2(x, s);
		if (Z.a == 0 && Z.b == 0) Z = z2(1, 1);
		break;
	} // fallthrough
	default: do Z = z2(ofRaw(genRaw()), n == 2 ? ofRaw(genRaw()) : mpz_class(0)); while (Z.a == 0 && Z.b == 0);
	}
	Z2 zz = zmul(Z, Z), X, Y;
	if (kind == 0) { X = zmul(P.x, zz); Y = zmul(P.y, zmul(zz, Z)); }
	else { X = zmul(P.x, Z); Y = zmul(P.y, Z); }
	putComp(w, X, n); putComp(w + 4 * n, Y, n); putComp(w + 8 * n, Z, n);
	loadRaw(t, i, w);
	if (t == 'q') g_ordR[i] = true;
}
static ZP pickPoint(char t, bool mayInf = true)
{
	if (mayInf && g_rng.chance(12)) return zpInf();
	if (isPoint1(t)) {
		if (g_rng.chance(60)) return g_base1[g_rng.below(NBASE)];
		if (g_rng.chance(30)) { ZP s = zpAdd(g_base1[0], g_base1[1 + g_rng.below(NBASE - 1)]); return g_base1[0] = s.inf ? rndG1() : s; }
		return rndG1();
	}
	ZP r = g_base2[g_rng.below(NBASE)];
	if (g_rng.chance(25)) { ZP s = zpAdd(g_base2[0], g_base2[1 + g_rng.below(NBASE - 1)]); if (!s.inf) { g_base2[0] = s; r = s; } }
	return r;
}
static ZP related(const ZP& P, char t) // equal, opposite, endomorphism images
{
	if (P.inf) return P;
	ZP r = P;
	switch (g_rng.below(5)) {
	case 0: break;
	case 1: case 2: r.y = zsub(z2(0, 0), P.y); break;
	case 3: r.x = zmul(P.x, z2(g_beta, 0)); break;
	case 4: r.x = zmul(P.x, z2(g_beta, 0)); r.y = zsub(z2(0, 0), P.y); break;
	}
	(void)t;
	return r;
}
// read back a finite/infinite point from a register (mpz, independent)
template<class EC> struct EnvOf;
template<> struct EnvOf<Ec1> { enum { n = 1 }; static const char pt = 'p', fr = 'u', co = 'f'; static Slot<Ec1> *reg() { return M.p; } static Slot<Ec1> *free_() { return M.u; } static Slot<Fp> *comp() { return M.f; } static const char *pre() { return "P"; } typedef Fp F; };
template<> struct EnvOf<Ec2> { enum { n = 2 }; static const char pt = 'q', fr = 'v', co = 'g'; static Slot<Ec2> *reg() { return M.q; } static Slot<Ec2> *free_() { return M.v; } static Slot<Fp2> *comp() { return M.g; } static const char *pre() { return "Q"; } typedef Fp2 F; };
template<class EC> static ZP readPoint(const EC& e)
{
	const int n = EnvOf<EC>::n;
	uint64_t w[24];
	memcpy(w, e.p, 96 * n);
	Z2 c[3];
	for (int i = 0; i < 3; i++) c[i] = z2(ofRaw(mpzOfLimbs(w + 4 * n * i, 4)), n == 2 ? ofRaw(mpzOfLimbs(w + 4 * n * i + 4, 4)) : mpz_class(0));
	if (c[2].a == 0 && c[2].b == 0) return zpInf();
	ZP r;
	Z2 i1 = zinv(c[2]), i2 = zmul(i1, i1);
	r.inf = false; r.x = zmul(c[0], i2); r.y = zmul(c[1], zmul(i2, i1));
	return r;
}
template<class EC> static Str opn(const char *s) { return Str(EnvOf<EC>::pre()) + s; }

// group law on registers
template<class EC> static void opGroup()
{
	typedef EnvOf<EC> E;
	const char t = E::pt;
	Slot<EC> *r = E::reg();
	int d = idx(t), a = idx(t), b = idx(t);
	if (g_rng.chance(25)) a = d;
	if (g_rng.chance(20)) b = d;
	if (g_rng.chance(10)) b = a;
	if (g_rng.chance(35)) {
		if (t == 'q' && g_rng.chance(15)) { loadPoint(t, a, rndTwist()); g_ordR[a] = false; }
		else loadPoint(t, a, pickPoint(t));
	}
	if (a != b && g_rng.chance(45)) { // an operand related to the other, in another representation
		bool o = t == 'q' ? g_ordR[a] : true;
		loadPoint(t, b, related(readPoint(r[a].v), t));
		if (t == 'q') g_ordR[b] = o;
	}
	EC &D = r[d].v; const EC &A = r[a].v, &B = r[b].v;
	Str nd = nm(t, d), na = nm(t, a), nb = nm(t, b);
	g_form = g_rng.below(4);
	bool ord = true;
	if (t == 'q') ord = g_ordR[a] && g_ordR[b];
	switch (g_rng.below(12)) {
	case 0: case 1: case 2: rec(opn<EC>(".add").c_str(), nd, { na, nb }, [&] { if (g_form == 0) EC::add(D, A, B); else if (g_form == 1) D = A + B; else if (g_form == 2 && a == d) D += B; else ecop::ECAdd(D.p, A.p, B.p); }); break;
	case 3: case 4: rec(opn<EC>(".sub").c_str(), nd, { na, nb }, [&] { if (g_form == 0) EC::sub(D, A, B); else if (g_form == 1) D = A - B; else if (g_form == 2 && a == d) D -= B; else EC::sub(D, A, B); }); break;
	case 5: case 6: rec(opn<EC>(".dbl").c_str(), nd, { na }, [&] { if (g_form & 1) EC::dbl(D, A); else ecop::ECDouble(D.p, A.p); }); ord = t == 'q' ? g_ordR[a] : true; break;
	case 7: rec(opn<EC>(".neg").c_str(), nd, { na }, [&] { EC::neg(D, A); }); ord = t == 'q' ? g_ordR[a] : true; break;
	case 8: rec(opn<EC>(".copy").c_str(), nd, { na }, [&] { if (g_form & 1) D = A; else { EC x(A); D = x; } }); ord = t == 'q' ? g_ordR[a] : true; break;
	case 9: rec(opn<EC>(".norm").c_str(), nd, { nd }, [&] { D.normalize(); }); return;
	case 10: rec(opn<EC>(".eq").c_str(), "", { na, nb }, [&] { g_extra += fmt(",\"r\":[%d,%d,%d,%d]", (int)(A == B), (int)(A != B), (int)A.isZero(), (int)B.isZero()); }); return;
	case 11: {
		int u1 = idx(t);
		if (g_form == 0) { rec(opn<EC>(".clear").c_str(), nd, {}, [&] { D.clear(); }); ord = true; break; }
		if (g_form == 1) { rec(opn<EC>(".njac").c_str(), nd, { na }, [&] { ecop::NormalizeJac(D.p, A.p); }); ord = t == 'q' ? g_ordR[a] : true; break; }
		rec(opn<EC>(".add").c_str(), nd, { nm(t, u1), nm(t, u1) }, [&] { EC::add(D, r[u1].v, r[u1].v); });
		ord = t == 'q' ? g_ordR[u1] : true;
		break;
	}
	}
	if (t == 'q') g_ordR[d] = ord;
}
static void opG1() { opGroup<Ec1>(); }
static void opG2() { opGroup<Ec2>(); }

// ------------------------------------------------------------------ scalars
static mpz_class genScalar(unsigned maxBits)
{
	mpz_class one = 1, r;
	switch (g_rng.below(12)) {
	case 0: r = g_rng.below(6); break;
	case 1: r = ORD_ + (int)g_rng.below(5) - 2; break;
	case 2: r = ORD_ * (1 + g_rng.below(5)) + (int)g_rng.below(3) - 1; break;
	case 3: r = (one << g_rng.below(maxBits + 1)) - g_rng.below(2); break;
	case 4: { // words, many zero
		uint64_t w[9];
		int n = 1 + g_rng.below(6);
		for (int i = 0; i < n; i++) w[i] = g_rng.chance(50) ? 0 : edgeWord();
		w[n - 1] = edgeWord();
		r = mpzOfLimbs(w, n);
		break;
	}
	case 5: { uint64_t w[9]; int n = 1 + g_rng.below(6); for (int i = 0; i < n; i++) w[i] = g_rng.chance(70) ? ~0ull : edgeWord(); r = mpzOfLimbs(w, n); break; }
	case 6: r = (one << (64 * (1 + g_rng.below(4)))) + (int)g_rng.below(3) - 1; break;
	case 7: r = rndMpzBits(32); break;
	case 8: r = rndMpzBits(64); break;
	default: r = rndMpzBits(1 + g_rng.below(maxBits)); break;
	}
	if (mpz_sizeinbase(r.get_mpz_t(), 2) > maxBits) r >>= mpz_sizeinbase(r.get_mpz_t(), 2) - maxBits;
	return r;
}
static Vuint toVuint(const mpz_class& x)
{
	uint64_t w[16];
	size_t n = (mpz_sizeinbase(x.get_mpz_t(), 2) + 63) / 64;
	limbsOfMpz(w, 16, x);
	return Vuint(w, n ? n : 1);
}
struct ScalarTag {};
typedef mie::ZmZ<Vuint, ScalarTag> Zr;
typedef mie::VuintT<mie::local::VariableBuffer<mie::Unit> > Wuint;
// the same integers in objects whose buffers held something longer before
static mpz_class usedMpz(const mpz_class& k)
{
	if (g_rng.chance(40)) return k;
	mpz_class t = rndMpzBits(64 + g_rng.below(600));
	switch (g_rng.below(3)) {
	case 0: t = k; break;
	case 1: t *= 0; t += k; break;
	default: { mpz_class u = t + k; t -= u; t = -t; } break;
	}
	return t;
}
static Vuint usedVuint(const mpz_class& k)
{
	if (g_rng.chance(40)) return toVuint(k);
	Vuint t = toVuint(rndMpzBits(64 * (1 + g_rng.below(8)))), x = toVuint(k);
	if (g_rng.chance(50)) { t = x; return t; }
	uint64_t w[16];
	limbsOfMpz(w, 16, k);
	t.set(w, 9); // leading zero words are trimmed
	return t;
}
// call f with k in a randomly chosen representable integer type
template<class Fn> static void withInt(const mpz_class& k, Fn f)
{
	int c = g_rng.below(6);
	g_form = c;
	if (c == 0 && k <= 0x7fffffff) { f((int)k.get_si()); return; }
	if (c == 1 && mpz_sizeinbase(k.get_mpz_t(), 2) <= 64) { f((size_t)k.get_ui()); return; }
	if (c == 2) { mpz_class m = usedMpz(k); f((const mpz_class&)m); return; }
	if (c == 3 && k < ORD_) { Zr x(toVuint(k)); f(x); return; }
	if (c == 4) { uint64_t w[16]; limbsOfMpz(w, 16, k); Wuint x; if (g_rng.chance(50)) x = Wuint(w, 16); x.set(w, g_rng.chance(50) ? 16 : (mpz_sizeinbase(k.get_mpz_t(), 2) + 63) / 64); f(x); return; }
	f(usedVuint(k));
}
template<class EC> static void opScalar()
{
	typedef EnvOf<EC> E;
	const char t = E::pt;
	Slot<EC> *r = E::reg();
	int d = idx(t), a = idx(t);
	if (g_rng.chance(35)) a = d;
	if (g_rng.chance(60)) {
		if (t == 'q' && g_rng.chance(15)) { loadPoint(t, a, rndTwist()); g_ordR[a] = false; }
		else loadPoint(t, a, pickPoint(t));
	}
	EC &D = r[d].v; const EC &A = r[a].v;
	bool ord = t == 'q' ? g_ordR[a] : true;
	mpz_class k = genScalar(g_rng.chance(80) ? 256 : 512);
	int how = g_rng.below(4);
	withInt(k, [&](const auto& s) {
		rec(opn<EC>(".mul").c_str(), nm(t, d), { nm(t, a) }, [&] {
			outI("i", mpzHex(k));
			if (how == 0) EC::mul(D, A, s);
			else if (how == 1) D = A * s;
			else if (how == 2 && a == d) D *= s;
			else ecop::ScalarMult(D.p, A.p, s);
		});
	});
	if (t == 'q') g_ordR[d] = ord;
}
// ------------------------------------------------------------------ validity of arbitrary tuples
static bool validHom3(const Ec1& e) { return ecop::isOnECHom3(e.p); }
static bool validHom3(const Ec2& e) { return ecop::isOnTwistECHom3(e.p); }
static bool validHom2(const Ec1& e) { return ecop::isOnECHom2(e.p); }
static bool validHom2(const Ec2& e) { return ecop::isOnTwistECHom2(e.p); }

template<class EC> static void opValid()
{
	typedef EnvOf<EC> E;
	typedef typename E::F F;
	const int n = E::n;
	const char t = E::fr, c = E::co;
	Slot<EC> *r = E::free_();
	int i = idx(t);
	EC &V = r[i].v;
	int kind = g_rng.below(2);
	switch (g_rng.below(6)) {
	case 0: { uint64_t w[48]; genComp(w, 3 * n); loadRaw(t, i, w); break; }
	case 1: loadPoint(t, i, n == 2 && g_rng.chance(50) ? rndTwist() : pickPoint(t), kind, g_rng.chance(40)); break;
	case 2: case 3: { // a point with one component disturbed
		loadPoint(t, i, pickPoint(t, false), kind, g_rng.chance(40));
		uint64_t w[48];
		memcpy(w, V.p, 96 * n);
		int j = g_rng.below(3 * n);
		mpz_class x = mpzOfLimbs(w + 4 * j, 4);
		switch (g_rng.below(4)) { case 0: x += toRaw(1); break; case 1: x = P_ - x; break; case 2: x = 0; break; default: x = genRaw(); }
		limbsOfMpz(w + 4 * j, 4, modp(x, P_));
		loadRaw(t, i, w);
		break;
	}
	case 4: { // the right shape on a different curve: y^2 = x^3 + b'
		ZP P = pickPoint(t, false);
		P.y = zmul(P.y, z2(g_rng.chance(50) ? 2 : -3, 0)); P.x = zmul(P.x, z2(g_rng.chance(50) ? 4 : 1, 0));
		loadPoint(t, i, P, kind);
		break;
	}
	default: loadPoint(t, i, pickPoint(t), kind, true);
	}
	g_form = g_rng.below(3);
	Str nv = nm(t, i);
	switch (g_rng.below(9)) {
	case 0: case 1: rec(opn<EC>(".isValid").c_str(), "", { nv }, [&] { outB(V.isValid()); }); break;
	case 2: rec(opn<EC>(".isHom3").c_str(), "", { nv }, [&] { outB(validHom3(V)); }); break;
	case 3: rec(opn<EC>(".isHom2").c_str(), "", { nv }, [&] { outB(validHom2(V)); }); break;
	case 4: { int j = idx(t); rec(opn<EC>(".nhom").c_str(), nm(t, j), { nv }, [&] { ecop::NormalizeHom(r[j].v.p, V.p); }); break; }
	case 5: { int j = idx(t); rec(opn<EC>(".nfree").c_str(), nm(t, j), { nv }, [&] { if (g_form == 0 && j == i) V.normalize(); else ecop::NormalizeJac(r[j].v.p, V.p); }); break; }
	default: { // construction with checking from coordinate registers
		int x = idx(c), y = idx(c), z = idx(c);
		if (x == y || x == z || y == z) return;
		uint64_t w[48];
		memcpy(w, V.p, 96 * n);
		loadRaw(c, x, w); loadRaw(c, y, w + 4 * n);
		bool three = g_rng.chance(60);
		if (three) loadRaw(c, z, w + 8 * n);
		int d = idx(E::pt);
		EC &D = E::reg()[d].v;
		const F &X = E::comp()[x].v, &Y = E::comp()[y].v, &Z = E::comp()[z].v;
		// on rejection the object is scratch: give it a defined value afterwards
		EC keep = D;
		auto body = [&] {
			bool ok = true;
			try {
				if (three) { if (g_form == 0) D.set(X, Y, Z); else { EC e(X, Y, Z); D = e; } }
				else { if (g_form == 0) D.set(X, Y); else { EC e(X, Y); D = e; } }
			} catch (std::exception&) { ok = false; }
			if (!ok) D = keep;
			outB(ok);
		};
		if (three) rec(opn<EC>(".set3").c_str(), nm(E::pt, d), { nm(c, x), nm(c, y), nm(c, z) }, body);
		else rec(opn<EC>(".set2").c_str(), nm(E::pt, d), { nm(c, x), nm(c, y) }, body);
		if (E::pt == 'q') g_ordR[d] = false;
		break;
	}
	}
}
// ------------------------------------------------------------------ Miller lines
static ZP homPoint(int i) // v register as a homogeneous point
{
	uint64_t w[24];
	memcpy(w, M.v[i].v.p, 192);
	Z2 c[3];
	for (int j = 0; j < 3; j++) c[j] = z2(ofRaw(mpzOfLimbs(w + 8 * j, 4)), ofRaw(mpzOfLimbs(w + 8 * j + 4, 4)));
	if (c[2].a == 0 && c[2].b == 0) return zpInf();
	ZP r; r.inf = false;
	Z2 iz = zinv(c[2]);
	r.x = zmul(c[0], iz); r.y = zmul(c[1], iz);
	return r;
}
static void opLine()
{
	int v = idx('v'), q = idx('q'), p = idx('p'), y = idx('y');
	ZP R = homPoint(v);
	bool onTwist = !R.inf && zeq(zmul(R.y, R.y), zadd(zmul(zmul(R.x, R.x), R.x), g_twistB));
	if (!onTwist || g_rng.chance(30)) { loadPoint('v', v, g_rng.chance(80) ? pickPoint('q', false) : rndTwist(), 1); R = homPoint(v); }
	loadPoint('p', p, pickPoint('p', false), 0, true);
	g_form = 0;
	switch (g_rng.below(6)) {
	case 0: case 1: rec("l.dbl", nm('y', y), { nm('v', v), nm('p', p) }, [&] { if (g_rng.chance(50)) Fp6::pointDblLineEval(M.y[y].v, M.v[v].v.p, M.p[p].v.p); else Fp6::pointDblLineEvalC(M.y[y].v, M.v[v].v.p, M.p[p].v.p); }); break;
	case 2: {
		rec("l.dbl0", nm('y', y), { nm('v', v) }, [&] { if (g_rng.chance(50)) Fp6::pointDblLineEvalWithoutP(M.y[y].v, M.v[v].v.p); else Fp6::pointDblLineEvalWithoutPC(M.y[y].v, M.v[v].v.p); });
		rec("l.mul01", nm('y', y), { nm('y', y), nm('p', p) }, [&] { Fp6::mulFp6_24_Fp_01(M.y[y].v, M.p[p].v.p); });
		break;
	}
	default: {
		ZP Q = g_rng.chance(85) ? pickPoint('q', false) : rndTwist();
		if (zeq(Q.x, R.x)) return;
		loadPoint('q', q, Q, 0, true);
		g_ordR[q] = false;
		if (g_rng.chance(60)) rec("l.add", nm('y', y), { nm('v', v), nm('q', q), nm('p', p) }, [&] { Fp6::pointAddLineEval(M.y[y].v, M.v[v].v.p, M.q[q].v.p, M.p[p].v.p); });
		else {
			rec("l.add0", nm('y', y), { nm('v', v), nm('q', q) }, [&] { Fp6::pointAddLineEvalWithoutP(M.y[y].v, M.v[v].v.p, M.q[q].v.p); });
			rec("l.mul01", nm('y', y), { nm('y', y), nm('p', p) }, [&] { Fp6::mulFp6_24_Fp_01(M.y[y].v, M.p[p].v.p); });
		}
	}
	}
	// the line into an accumulator
	int d = idx('t'), y2 = idx('y');
	if (g_rng.chance(50)) {
		if (g_rng.chance(40)) loadField('t', d);
		rec("t.mul024", nm('t', d), { nm('t', d), nm('y', y) }, [&] { Fp12Dbl::mul_Fp2_024(M.t[d].v, M.y[y].v); });
	}
	if (g_rng.chance(40)) rec("t.mul024x2", nm('t', d), { nm('y', y), nm('y', y2) }, [&] { Fp12Dbl::mul_Fp2_024_Fp2_024(M.t[d].v, M.y[y].v, M.y[y2].v); });
}
static void opFrobTwist()
{
	int v = idx('q'), u = idx('v');
	loadPoint('q', v, g_rng.chance(70) ? pickPoint('q', false) : rndTwist(), 0, true);
	g_ordR[v] = false;
	// the third coordinate is not touched: load a finite destination
	loadPoint('v', u, pickPoint('q', false), 1, true);
	g_form = 0;
	switch (g_rng.below(3)) {
	case 0: rec("l.frob1", nm('v', u), { nm('q', v) }, [&] { ecop::FrobEndOnTwist_1(M.v[u].v.p, M.q[v].v.p); }); break;
	case 1: rec("l.frob2", nm('v', u), { nm('q', v) }, [&] { ecop::FrobEndOnTwist_2(M.v[u].v.p, M.q[v].v.p); }); break;
#ifndef BN_SUPPORT_SNARK
	case 2: rec("l.frob8", nm('v', u), { nm('q', v) }, [&] { ecop::FrobEndOnTwist_8(M.v[u].v.p, M.q[v].v.p); }); break;
#endif
	}
}
// ------------------------------------------------------------------ pairings
static TLS int g_tabOk[3]; // line table i holds a finite point of order r
static void normP(char t, int i)
{
	if (t == 'p') rec("P.norm", nm(t, i), { nm(t, i) }, [&] { M.p[i].v.normalize(); });
	else rec("Q.norm", nm(t, i), { nm(t, i) }, [&] { M.q[i].v.normalize(); });
}
static void opPairing()
{
	int p = idx('p'), q = idx('q'), d = idx('t'), p2 = idx('p'), c = g_rng.below(3), c2 = g_rng.below(3);
	if (g_rng.chance(50)) loadPoint('p', p, pickPoint('p'));
	if (g_rng.chance(50) || !g_ordR[q]) loadPoint('q', q, pickPoint('q'));
	ZP A = readPoint(M.p[p].v), B = readPoint(M.q[q].v);
	g_form = g_rng.below(2);
	switch (g_rng.below(9)) {
	case 0: case 1: rec("e.ec", nm('t', d), { nm('q', q), nm('p', p) }, [&] { opt_atePairing(M.t[d].v, M.q[q].v, M.p[p].v); }); break;
	case 2: case 3: rec("e.jac", nm('t', d), { nm('q', q), nm('p', p) }, [&] { opt_atePairingJac<Fp>(M.t[d].v, M.q[q].v.p, M.p[p].v.p); }); break;
	case 4: if (A.inf || B.inf) return;
		normP('p', p); normP('q', q);
		rec("e.aff", nm('t', d), { nm('q', q), nm('p', p) }, [&] { opt_atePairing<Fp>(M.t[d].v, M.q[q].v.p, M.p[p].v.p); });
		break;
	case 5: { if (B.inf) return;
		int v = idx('v');
		rec("e.pre", fmt("c%d", c), { nm('q', q), nm('v', v) }, [&] { components::precomputeG2(g_c[c], M.v[v].v.p, M.q[q].v.p); });
		g_tabOk[c] = 1;
		break; }
	case 6: if (A.inf || !g_tabOk[c]) return;
		normP('p', p);
		rec("e.mil", nm('t', d), { fmt("c%d", c), nm('p', p) }, [&] { components::millerLoop(M.t[d].v, g_c[c], M.p[p].v.p); });
		rec("t.fexp", nm('t', d), { nm('t', d) }, [&] { M.t[d].v.final_exp(); });
		break;
	default: {
		if (A.inf || !g_tabOk[c] || !g_tabOk[c2]) return;
		normP('p', p);
		if (g_rng.chance(70)) loadPoint('p', p2, g_rng.chance(30) ? related(A, 'p') : pickPoint('p', false));
		if (readPoint(M.p[p2].v).inf) return;
		normP('p', p2);
		normP('p', p);
		rec("e.mil2", nm('t', d), { fmt("c%d", c), nm('p', p), fmt("c%d", c2), nm('p', p2) }, [&] { components::millerLoop2(M.t[d].v, g_c[c], M.p[p].v.p, g_c[c2], M.p[p2].v.p); });
		rec("t.fexp", nm('t', d), { nm('t', d) }, [&] { M.t[d].v.final_exp(); });
	}
	}
}
// bilinear walks: base pair, multiples by library scalar multiplication and additions, pairings of both
static void opBilinear()
{
	loadPoint('p', 0, pickPoint('p', false)); loadPoint('q', 0, pickPoint('q', false));
	g_form = 0;
	rec("e.ec", "t0", { "q0", "p0" }, [&] { opt_atePairing(M.t[0].v, M.q[0].v, M.p[0].v); });
	mpz_class a = genScalar(256), b = genScalar(256);
	Vuint va = toVuint(a), vb = toVuint(b);
	rec("P.mul", "p1", { "p0" }, [&] { outI("i", mpzHex(a)); Ec1::mul(M.p[1].v, M.p[0].v, va); });
	rec("Q.mul", "q1", { "q0" }, [&] { outI("i", mpzHex(b)); Ec2::mul(M.q[1].v, M.q[0].v, vb); });
	g_ordR[1] = true;
	rec("e.ec", "t1", { "q1", "p1" }, [&] { opt_atePairing(M.t[1].v, M.q[1].v, M.p[1].v); });
	Vuint ab = va * vb;
	rec("t.pow", "t2", { "t0" }, [&] { outI("i", mpzHex(a * b)); M.t[2].v = mie::power(M.t[0].v, ab); });
	rec("b.lin", "", { "t0", "t1", "t2" }, [&] { outI("i", mpzHex(a)); outI("j", mpzHex(b)); outB(M.t[1].v == M.t[2].v); });
}
// ------------------------------------------------------------------ generic exponentiation
template<class T> static void powReg(const char *o, char t, Slot<T> *r, unsigned bits)
{
	int d = idx(t), a = idx(t);
	if (g_rng.chance(40)) a = d;
	if (g_rng.chance(60)) loadField(t, a);
	mpz_class k = genScalar(bits);
	withInt(k, [&](const auto& s) {
		rec(o, nm(t, d), { nm(t, a) }, [&] { outI("i", mpzHex(k)); r[d].v = mie::power(r[a].v, s); });
	});
}
static void opPower()
{
	switch (g_rng.below(8)) {
	case 0: case 1: case 2: powReg("f.pow", 'f', M.f, 512); break;
	case 3: case 4: powReg("g.pow", 'g', M.g, 512); break;
	case 5: case 6: powReg("s.pow", 's', M.s, 300); break;
	default: powReg("t.pow", 't', M.t, g_rng.chance(70) ? 70 : 512); break;
	}
}
static bool runPointProfile(const Str& prof, uint64_t limit)
{
#ifndef DRV_THREADS
	Zr::setModulo(toVuint(ORD_));
#endif
	if (prof == "group") while (g_events < limit) { if (g_rng.chance(50)) opG1(); else opG2(); }
	else if (prof == "scalar") while (g_events < limit) { if (g_rng.chance(55)) opScalar<Ec1>(); else opScalar<Ec2>(); }
	else if (prof == "valid") while (g_events < limit) { if (g_rng.chance(50)) opValid<Ec1>(); else opValid<Ec2>(); if (g_rng.chance(10)) opG1(); if (g_rng.chance(10)) opG2(); }
	else if (prof == "lines") while (g_events < limit) { if (g_rng.chance(85)) opLine(); else opFrobTwist(); }
	else if (prof == "pairing") while (g_events < limit) { opPairing(); if (g_rng.chance(25)) opG1(); if (g_rng.chance(25)) opG2(); }
	else if (prof == "bilin") while (g_events < limit) opBilinear();
	else if (prof == "short") while (g_events < limit) {
		for (int i = 0; i < 2; i++) { opG1(); opG2(); opValid<Ec1>(); opValid<Ec2>(); opLine(); opFp(); opFp2(); opFp6(); opFp12(); opPairing(); }
		for (int i = 0; i < NT; i++) g_cyc[i] = false;
		for (int i = 0; i < 3; i++) opCyc();
		opFrobTwist(); opDbl(); opDbl2(); opScalar<Ec1>(); opScalar<Ec2>(); opPower();
	}
	else if (prof == "power") while (g_events < limit) opPower();
	else return false;
	return true;
}
