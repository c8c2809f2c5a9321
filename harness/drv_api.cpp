// Long histories of group calls, observed only through equality: what registers denote is known to the
// specification (spec/ApiMachine.tla) as coordinates modulo r over base elements.
//   drv_api OUT PROFILE(bilin|scalar|pair|gt) SEED STEPS CURVE(b) MODE MULX
#define DRV_FIELD_NO_MAIN
#include "drv_field.cpp"
enum { AP = 8, AQ = 8, AT = 12 };
static Ec1 g_P[AP]; static Ec2 g_Q[AQ]; static Fp12 g_T[AT];
static mpz_class g_lamP;

template<class EC> struct Regs;
template<> struct Regs<Ec1> { enum { n = AP }; static const char c = 'P', low = 'p'; static Ec1 *r() { return g_P; } };
template<> struct Regs<Ec2> { enum { n = AQ }; static const char c = 'Q', low = 'q'; static Ec2 *r() { return g_Q; } };

static void out(const char *o, const Str& d, SL s, const Str& extra, const Str& eq, int unit)
{
	g_mute = false;
	emit(fmt("{\"o\":\"%s\",\"d\":\"%s\",\"s\":", o, d.c_str()) + list(s) + extra + ",\"eq\":[" + eq + fmt("],\"u\":%d}", unit));
	g_mute = true; // the loads of scratch registers are not part of the history
}
// what the scalar types hold: numbers of more words are reduced
static mpz_class fit(const mpz_class& k) { return mpz_sizeinbase(k.get_mpz_t(), 2) <= 512 ? k : mpz_class(k % ORD_); }
static Str xk(const mpz_class& k) { return ",\"k\":\"" + mpzHex(k) + "\""; }
static Str xi_(int i) { return fmt(",\"i\":%d", i); }
// what the objects say about equality with register d (asked of copies: comparing may normalise)
template<class EC> static void seen(const char *o, int d, SL s, const Str& extra = "")
{
	EC *r = Regs<EC>::r();
	Str eq;
	for (int i = 0; i < Regs<EC>::n; i++) {
		EC a = r[i], b = r[d];
		bool e = g_rng.chance(50) ? a == b : !(a != b);
		if (e) eq += (eq.empty() ? "" : ",") + q(nm(Regs<EC>::c, i));
	}
	out(o, nm(Regs<EC>::c, d), s, extra, eq, r[d].isZero());
}
static void seenT(const char *o, int d, SL s, const Str& extra = "")
{
	Str eq;
	for (int i = 0; i < AT; i++) if (g_T[i] == g_T[d]) eq += (eq.empty() ? "" : ",") + q(nm('T', i));
	out(o, nm('T', d), s, extra, eq, g_T[d] == Fp12(1));
}
static void startT(const char *op) { setLastOp(op); }
// other representative of the same point, or of infinity
template<class EC> static void rescale(int d)
{
	EC& e = Regs<EC>::r()[d];
	ZP z = readPoint(e);
	Slot<EC> *reg = EnvOf<EC>::reg();
	loadPoint(Regs<EC>::low, 0, z);
	e = reg[0].v;
}
// scalars with every structure that a digit loop could trip over
static mpz_class bitsScalar()
{
	mpz_class one = 1, k;
	switch (g_rng.below(11)) {
	case 0: return g_rng.below(40);
	case 1: return one << g_rng.below(400);
	case 2: return (one << g_rng.below(400)) - 1;
	case 3: return (one << g_rng.below(400)) + (one << g_rng.below(400));
	case 4: return abs(mpz_class((one << g_rng.below(400)) - (one << g_rng.below(400))));
	case 5: return abs(mpz_class(ORD_ * mpz_class(g_rng.below(4)) + mpz_class((int)g_rng.below(80) - 40)));
	case 6: { // a run of equal short patterns
		unsigned w = 1 + g_rng.below(8), n = 1 + g_rng.below(300); mpz_class pat = (unsigned long)(g_rng.next() & ((1u << w) - 1));
		for (unsigned i = 0; i < n; i += w) k = (k << w) + pat;
		return k; }
	case 7: for (int i = 0; i < 6; i++) k = (k << 64) + mpz_class((unsigned long)edgeWord()); return k >> g_rng.below(380);
	case 8: return genScalar(256);
	default: return rndMpzBits(1 + g_rng.below(390));
	}
}
template<class EC> static void mulR(int d, int a, const mpz_class& k_)
{
	mpz_class k = fit(k_);
	EC *r = Regs<EC>::r();
	int how = g_rng.below(4);
	startT("mul");
	withInt(k, [&](const auto& s) {
		if (how == 0) EC::mul(r[d], r[a], s);
		else if (how == 1) r[d] = r[a] * s;
		else if (how == 2 && a == d) r[d] *= s;
		else ecop::ScalarMult(r[d].p, r[a].p, s);
	});
	seen<EC>("mul", d, { nm(Regs<EC>::c, a) }, xk(k));
}
template<class EC> static void addR(int d, int a, int b)
{
	EC *r = Regs<EC>::r();
	startT("add");
	switch (g_rng.below(4)) {
	case 0: EC::add(r[d], r[a], r[b]); break;
	case 1: r[d] = r[a] + r[b]; break;
	case 2: if (d == a) { r[d] += r[b]; break; } // fallthrough
	default: ecop::ECAdd(r[d].p, r[a].p, r[b].p);
	}
	seen<EC>("add", d, { nm(Regs<EC>::c, a), nm(Regs<EC>::c, b) });
}
template<class EC> static void subR(int d, int a, int b)
{
	EC *r = Regs<EC>::r();
	startT("sub");
	switch (g_rng.below(3)) {
	case 0: EC::sub(r[d], r[a], r[b]); break;
	case 1: r[d] = r[a] - r[b]; break;
	default: if (d == a) r[d] -= r[b]; else EC::sub(r[d], r[a], r[b]);
	}
	seen<EC>("sub", d, { nm(Regs<EC>::c, a), nm(Regs<EC>::c, b) });
}
template<class EC> static void otherR(int d, int a)
{
	EC *r = Regs<EC>::r();
	const char c = Regs<EC>::c;
	switch (g_rng.below(7)) {
	case 0: startT("dbl"); EC::dbl(r[d], r[a]); seen<EC>("dbl", d, { nm(c, a) }); break;
	case 1: startT("neg"); EC::neg(r[d], r[a]); seen<EC>("neg", d, { nm(c, a) }); break;
	case 2: startT("copy"); r[d] = r[a]; seen<EC>("same", d, { nm(c, a) }); break;
	case 3: startT("normalize"); r[a].normalize(); seen<EC>("same", a, { nm(c, a) }); break;
	case 4: rescale<EC>(a); seen<EC>("same", a, { nm(c, a) }); break;
	case 5: { startT("text"); std::ostringstream os; os << EC(r[a]); std::istringstream is(os.str()); is >> r[d]; seen<EC>("same", d, { nm(c, a) }); break; }
	case 6: startT("dbl"); ecop::ECDouble(r[d].p, r[a].p); seen<EC>("dbl", d, { nm(c, a) }); break;
	}
}
template<class EC> static int anyR() { return g_rng.below(Regs<EC>::n); }
static int anyT() { return g_rng.below(AT); }
template<class EC> static void baseR(int d, int i) // i-th base element
{
	const ZP& z = Regs<EC>::low == 'p' ? g_base1[i - 1] : g_base2[i - 1];
	loadPoint(Regs<EC>::low, 0, z);
	Regs<EC>::r()[d] = EnvOf<EC>::reg()[0].v;
	seen<EC>("base", d, {}, xi_(i));
}
template<class EC> static void zeroR(int d)
{
	if (g_rng.chance(50)) Regs<EC>::r()[d].clear();
	else { loadPoint(Regs<EC>::low, 0, zpInf()); Regs<EC>::r()[d] = EnvOf<EC>::reg()[0].v; }
	seen<EC>("zero", d, {});
}
// ------------------------------------------------------------------ pairing, every entry point
static std::vector<Fp6> g_tab[3]; static Fp2 g_tq[3];
static bool fin(int q, int p) { return !g_Q[q].isZero() && !g_P[p].isZero(); }
static void pairR(int d, int qq, int p)
{
	Fp12& f = g_T[d];
	startT("pairing");
	switch (g_rng.below(5)) {
	case 0: opt_atePairing(f, g_Q[qq], g_P[p]); break;
	case 1: opt_atePairingJac<Fp>(f, g_Q[qq].p, g_P[p].p); break;
	case 2: if (!fin(qq, p)) { opt_atePairing(f, g_Q[qq], g_P[p]); break; }
		g_Q[qq].normalize(); g_P[p].normalize();
		opt_atePairing<Fp>(f, g_Q[qq].p, g_P[p].p); break;
	default: if (!fin(qq, p)) { opt_atePairingJac<Fp>(f, g_Q[qq].p, g_P[p].p); break; }
		g_P[p].normalize();
		components::precomputeG2(g_tab[0], g_tq, g_Q[qq].p);
		components::millerLoop(f, g_tab[0], g_P[p].p); f.final_exp();
	}
	seenT("pair", d, { nm('Q', qq), nm('P', p) });
}
static void pair2R(int d, int q1, int p1, int q2, int p2)
{
	if (!fin(q1, p1) || !fin(q2, p2)) return;
	g_P[p1].normalize(); g_P[p2].normalize();
	startT("pair2");
	components::precomputeG2(g_tab[1], g_tq, g_Q[q1].p);
	components::precomputeG2(g_tab[2], g_tq, g_Q[q2].p);
	components::millerLoop2(g_T[d], g_tab[1], g_P[p1].p, g_tab[2], g_P[p2].p);
	g_T[d].final_exp();
	seenT("pair2", d, { nm('Q', q1), nm('P', p1), nm('Q', q2), nm('P', p2) });
}
// ------------------------------------------------------------------ the value group
static void mulT(int d, int a, int b)
{
	startT("Fp12::mul");
	if (d == a && g_rng.chance(50)) g_T[d] *= g_T[b]; else if (g_rng.chance(50)) g_T[d] = g_T[a] * g_T[b]; else Fp12::mul(g_T[d], g_T[a], g_T[b]);
	seenT("Tmul", d, { nm('T', a), nm('T', b) });
}
static void powT(int d, int a, const mpz_class& k_)
{
	mpz_class k = fit(k_);
	startT("power");
	withInt(k, [&](const auto& s) { g_T[d] = mie::power(g_T[a], s); });
	seenT("Tpow", d, { nm('T', a) }, xk(k));
}
static void otherT(int d, int a)
{
	Str s = nm('T', a);
	switch (g_rng.below(9)) {
	case 0: { startT("inverse"); Fp12 x = g_T[a]; x.inverse(); g_T[d] = x; seenT("Tinv", d, { s }); break; }
	case 1: startT("conjugate"); Fp6::neg(g_T[d].b_, g_T[a].b_); if (d != a) g_T[d].a_ = g_T[a].a_; seenT("Tconj", d, { s }); break;
	case 2: { startT("square"); Fp12 x = g_T[a]; Fp12::square(x); g_T[d] = x; seenT("Tsqr", d, { s }); break; }
	case 3: { startT("sqru"); Fp12 x = g_T[a]; if (g_rng.chance(50)) x.sqru(); else g_T[a].sqru(x); g_T[d] = x; seenT("Tsqr", d, { s }); break; }
	case 4: { startT("Frobenius"); Fp12 x; g_T[a].Frobenius(x); g_T[d] = x; seenT("Tfrob", d, { s }, xi_(1)); break; }
	case 5: { startT("Frobenius2"); Fp12 x; g_T[a].Frobenius2(x); g_T[d] = x; seenT("Tfrob", d, { s }, xi_(2)); break; }
	case 6: { startT("Frobenius3"); Fp12 x; g_T[a].Frobenius3(x); g_T[d] = x; seenT("Tfrob", d, { s }, xi_(3)); break; }
	case 7: { startT("final_exp"); Fp12 x = g_T[a]; x.final_exp(); g_T[d] = x; seenT("Tfinal", d, { s }); break; }
	case 8: {
#ifndef BN_SUPPORT_SNARK
		Fp12 x, y = g_T[a];
		if (g_rng.chance(50)) { startT("fixed_power"); Compress::fixed_power(x, y); g_T[d] = x; seenT("Tz", d, { s }); }
		else { int n = 1 + g_rng.below(70); startT("square_n"); Compress c(x, y); if (g_rng.chance(70)) Compress::square_n(c, n); else Compress::square_nC(c, n); c.decompress(); g_T[d] = x; seenT("Tsqrn", d, { s }, xi_(n)); }
#endif
		break; }
	}
}
// ------------------------------------------------------------------ histories in which coincidences are due
template<class EC> static void recipeGroup()
{
	int n = Regs<EC>::n, a = anyR<EC>(), d = anyR<EC>(), e = (d + 1 + g_rng.below(n - 1)) % n;
	mpz_class k1 = bitsScalar(), k2 = bitsScalar();
	switch (g_rng.below(8)) {
	case 0: // (k1+k2)A = k1 A + k2 A
		if (a == d || a == e) return;
		mulR<EC>(d, a, k1); mulR<EC>(e, a, k2); addR<EC>(d, d, e); mulR<EC>(e, a, k1 + k2); break;
	case 1: // k1 k2 A, reduced or not
		if (a == e) return;
		if (a == d) { otherR<EC>(d, a); return; }
		mulR<EC>(d, a, k1); mulR<EC>(d, d, k2); mulR<EC>(e, a, g_rng.chance(50) ? mpz_class(k1 * k2 % ORD_) : k1 * k2); break;
	case 2: // r A = 0, (r-1) A = -A
		if (a == d || a == e) return;
		mulR<EC>(d, a, ORD_ - 1); addR<EC>(e, d, a); subR<EC>(e, e, a); break;
	case 3: // distributivity over points
		{ int b = anyR<EC>(); if (a == d || b == d || a == e || b == e) return;
		addR<EC>(d, a, b); mulR<EC>(d, d, k1); mulR<EC>(e, a, k1); int g = 0; while (g == a || g == b || g == d || g == e) g++;
		mulR<EC>(g, b, k1); addR<EC>(e, e, g); break; }
	case 4: // equal and opposite operands with different representatives
		if (a == d) return;
		mulR<EC>(d, a, g_rng.chance(50) ? mpz_class(1) : ORD_ + 1); if (g_rng.chance(60)) rescale<EC>(d);
		if (g_rng.chance(50)) addR<EC>(e, d, a); else subR<EC>(e, d, a);
		break;
	case 5: // doubling chains
		if (a == d) return;
		{ int m = 1 + g_rng.below(12); mulR<EC>(d, a, mpz_class(1) << m); if (e == a) return; otherR<EC>(e, a); for (int i = 0; i < 3; i++) addR<EC>(e, e, e); break; }
	case 6: baseR<EC>(d, 1 + g_rng.below(Regs<EC>::low == 'p' ? 3 : 2)); mulR<EC>(d, d, bitsScalar()); break;
	default: if (g_rng.chance(15)) zeroR<EC>(d); else if (g_rng.chance(50)) addR<EC>(d, a, anyR<EC>()); else if (g_rng.chance(50)) subR<EC>(d, a, anyR<EC>()); else otherR<EC>(d, a);
	}
}
static void recipePair()
{
	int a = anyR<Ec1>(), b = anyR<Ec1>(), c = anyR<Ec2>(), d = anyR<Ec2>(), t = anyT(), u = (t + 1 + g_rng.below(AT - 1)) % AT, v = t;
	while (v == t || v == u) v = anyT();
	mpz_class k = bitsScalar();
	switch (g_rng.below(7)) {
	case 0: pairR(t, c, a); pairR(u, c, a); break; // two entry points
	case 1: // e(kA, C) = e(A, kC) = e(A, C)^k
		if (a == b || c == d) return;
		mulR<Ec1>(b, a, k); mulR<Ec2>(d, c, k); pairR(t, c, b); pairR(u, d, a); pairR(v, c, a); powT(v, v, k); break;
	case 2: { // e(A + B, C) = e(A, C) e(B, C)
		int x = 0; while (x == a || x == b) x++;
		addR<Ec1>(x, a, b); pairR(t, c, x); pairR(u, c, a); pairR(v, c, b); mulT(u, u, v); break; }
	case 3: { int x = 0; while (x == c || x == d) x++;
		addR<Ec2>(x, c, d); pairR(t, x, a); pairR(u, c, a); pairR(v, d, a); mulT(u, u, v); break; }
	case 4: pair2R(t, c, a, d, b); pairR(u, c, a); pairR(v, d, b); mulT(u, u, v); break;
	case 5: { // e(A, C) e(-A, C) = 1 by the two-pair path
		if (a == b) return;
		startT("neg"); Ec1::neg(g_P[b], g_P[a]); seen<Ec1>("neg", b, { nm('P', a) }); pair2R(t, c, a, c, b); pairR(u, c, b); break; }
	default: if (g_rng.chance(50)) recipeGroup<Ec1>(); else recipeGroup<Ec2>();
	}
}
static void recipeT()
{
	int a = anyT(), t = anyT(), u = (t + 1 + g_rng.below(AT - 1)) % AT;
	mpz_class k = bitsScalar(), j = bitsScalar();
	switch (g_rng.below(8)) {
	case 0: if (a == t || a == u) return; powT(t, a, k); powT(u, a, j); mulT(t, t, u); powT(u, a, k + j); break;
	case 1: if (a == t || a == u) return; powT(t, a, k); powT(t, t, j); powT(u, a, k * j); break;
	case 2: powT(t, a, ORD_); break;
	case 3: if (a == t || a == u) return; powT(t, a, 2); otherT(u, a); break;
	case 4: pairR(t, anyR<Ec2>(), anyR<Ec1>()); break;
	case 5: mulT(t, a, anyT()); break;
	default: otherT(t, a);
	}
}
int main(int argc, char **argv)
{
	if (argc < 8) { fprintf(stderr, "usage: drv_api OUT PROFILE SEED STEPS B MODE MULX\n"); return 3; }
	int b = atoi(argv[5]), mode = atoi(argv[6]);
	bool mulx = atoi(argv[7]) != 0;
#ifdef BN_SUPPORT_SNARK
	Param::init(b == 82 ? CurveSNARK2 : CurveSNARK1, mode == 2 ? -1 : mode, mulx);
#else
	Param::init(CurveFp254BNb, mode == 2 ? -1 : mode, mulx);
#endif
	if (mode == 2) usePortable();
	openTrace("/dev/null");
	if (runField("fp", strtoull(argv[3], 0, 10), 1, b)) return 3; // sets up curve constants and base points
	closeTrace();
	Str prof = argv[2];
	g_rng = Rng(strtoull(argv[3], 0, 10) * 7919 + prof[0] * 131 + prof[1]);
	Zr::setModulo(toVuint(ORD_));
	g_base1[0] = rndG1(); // often of special shape
	do { g_base1[1] = rndG1(); } while (zpAdd(g_base1[0], g_base1[1]).inf || zeq(g_base1[0].x, g_base1[1].x));
	{ mpz_class k = rndMpzBits(200) + 2; ZP s; // a third, generic one
	do { mpz_class x = rndMpzBits(250), v = modp(x * x * x + g_b, P_); if (!legendreOne(v)) continue; s.inf = false; s.x = z2(x, 0); s.y = z2(sqrtp(v), 0); break; } while (true);
	g_base1[2] = zpMul(s, k); }
	g_base2[1] = zpInf();
	while (g_base2[1].inf) g_base2[1] = zpMul(rndTwist(), 2 * P_ - ORD_);
	openTrace(argv[1]);
	// until every register is set, comparisons see only values the specification knows
	for (int i = 0; i < AP; i++) g_P[i].clear();
	for (int i = 0; i < AQ; i++) g_Q[i].clear();
	for (int i = 0; i < AT; i++) g_T[i] = 1;
	emit("{\"o\":\"start\",\"d\":\"\",\"s\":[]}"); g_mute = true;
	for (int i = 0; i < 3; i++) baseR<Ec1>(i, i + 1);
	for (int i = 0; i < 2; i++) baseR<Ec2>(i, i + 1);
	uint64_t limit = g_events + atoi(argv[4]);
	for (int i = 3; i < AP; i++) mulR<Ec1>(i, i % 3, bitsScalar());
	for (int i = 2; i < AQ; i++) mulR<Ec2>(i, i % 2, bitsScalar());
	if (prof == "gt" || prof == "pair") for (int i = 0; i < 4; i++) pairR(i, i % 2, i % 3);
	while (g_events < limit) {
		if (prof == "scalar") { if (g_rng.chance(60)) recipeGroup<Ec1>(); else recipeGroup<Ec2>(); }
		else if (prof == "pair") recipePair();
		else if (prof == "gt") recipeT();
		else return 3;
	}
	closeTrace();
	return 0;
}
