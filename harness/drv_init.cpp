// Histories of initialisation calls: after each call the whole parameter table is recorded, and after each accepted
// call a short random program for the curve that must now be in force.
//   drv_init OUT SEED STEPS CALL...        CALL = z:b:xa:xb:mode:mulx (z decimal)
// writes OUT (parameter events) and OUT.ops.<b>.<k> (programs); with STEPS negative only digests of the programs, in OUT.dig
#define DRV_FIELD_NO_MAIN
#include "drv_field.cpp"
static Str fpv(const Fp& x) { uint64_t t[4]; memcpy(t, &x, 32); return q(hexLimbs(t, 4)); }
static Str f2v(const Fp2& x) { return "[" + fpv(x.a_) + "," + fpv(x.b_) + "]"; }
static Str f2list(const Fp2 *x, int n) { Str r = "["; for (int i = 0; i < n; i++) r += (i ? "," : "") + f2v(x[i]); return r + "]"; }
static Str digits(const Param::SignVec& v) { Str r = "["; for (size_t i = 0; i < v.size(); i++) r += fmt(i ? ",%d" : "%d", (int)v[i]); return r + "]"; }
static Str vu(const Vuint& x) { std::vector<uint64_t> t; for (size_t i = 0; i < x.size(); i++) t.push_back(x[i]); return q(hexLimbs(&t[0], t.size())); }
static Str vs(const Vsint& x) { Str s = vu(x.get()); if (x.isNegative()) s.insert(1, 1, '-'); return s; }
static Str params()
{
	return "{\"z\":" + vs(Param::z) + ",\"p\":" + vu(Param::p) + ",\"r\":" + vu(Param::r) + ",\"t\":" + vu(Param::t) + ",\"c\":" + vs(Param::largest_c)
		+ ",\"Z\":" + fpv(Param::Z) + ",\"w2\":" + f2v(Param::W2p) + ",\"w3\":" + f2v(Param::W3p)
		+ ",\"g1\":" + f2list(Param::gammar, 5) + ",\"g2\":" + f2list(Param::gammar2, 5) + ",\"g3\":" + f2list(Param::gammar3, 5)
		+ ",\"i0\":" + fpv(Param::i0) + ",\"i1\":" + fpv(Param::i1) + fmt(",\"b\":%d", Param::b) + ",\"binv\":" + f2v(Param::b_invxi)
		+ ",\"half\":" + fpv(Param::half) + ",\"si\":" + digits(Param::siTbl) + fmt(",\"naf\":%d", (int)Param::useNAF)
#ifdef BN_SUPPORT_SNARK
		+ ",\"zr\":" + digits(Param::zReplTbl)
#endif
		+ ",\"m\":" + vu(Fp::getModulo()) + ",\"one\":" + fpv(Fp(1)) + "}";
}
int main(int argc, char **argv)
{
	if (argc < 5) return 3;
	Str out = argv[1];
	uint64_t seed = strtoull(argv[2], 0, 10);
	int steps = atoi(argv[3]);
	std::vector<Str> events;
	Str g = "{\"o\":\"start\"}";
	events.push_back(g);
	bool any = false;
	for (int i = 4; i < argc; i++) {
		long long z; int b, xa, xb, mode, mulx;
		if (sscanf(argv[i], "%lld:%d:%d:%d:%d:%d", &z, &b, &xa, &xb, &mode, &mulx) != 6) return 3;
		bn::CurveParam cp = { (int64_t)z, b, xa, xb };
		setLastOp("init");
		int form = 0;
		const char *how = guarded([&] {
#ifdef BN_SUPPORT_SNARK
			if (cp == CurveSNARK1 && i % 2) form = 1;
#else
			if (cp == CurveFp254BNb && i % 2) form = 1;
#endif
			if (form) Param::init(mode, mulx != 0); else Param::init(cp, mode, mulx != 0);
		});
		if (!*how) any = true;
		Str zh = mpzHex(mpz_class(std::to_string(z)));
		events.push_back("{\"o\":\"init\",\"z\":" + q(zh) + fmt(",\"b\":%d,\"xa\":%d,\"xb\":%d,\"mode\":%d,\"mulx\":%d,\"fm\":%d", b, xa, xb, mode, mulx, form)
			+ (*how ? ",\"x\":" + q(how) : Str()) + (any ? ",\"P\":" + params() : Str()) + "}");
		if (!*how && steps < 0) {
			g_digestOnly = true;
			g_digest = 0;
			openTrace("/dev/null");
			int r = runField("short", seed, -steps, b);
			closeTrace();
			if (r) return r;
			FILE *fp = fopen((out + ".dig").c_str(), "a");
			if (!fp) return 3;
			fprintf(fp, "%d %d %016llx\n", i - 4, b, (unsigned long long)g_digest);
			fclose(fp);
			g_digestOnly = false;
		}
		if (!*how && steps > 0) {
			openTrace((out + fmt(".ops.%d.%d", b, i)).c_str());
			int r = runField("short", seed, steps, b);
			closeTrace();
			if (r) return r;
			events.push_back("{\"o\":\"after\"" + (",\"P\":" + params()) + "}"); // use leaves the parameters alone
		}
	}
	openTrace(out.c_str());
	for (auto& e : events) emit(e);
	closeTrace();
	return 0;
}
