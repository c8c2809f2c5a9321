// Which programs are worth recording?  A quick second opinion on each call, in GMP, used only to select programs:
// a program this file finds suspicious is run again, recorded in full and judged by the specification.
#pragma once
static std::vector<mpz_class> regRaw(const void *base, const Str& name)
{
	std::vector<mpz_class> r;
	for (size_t i = 0; i < g_desc.size(); i++) {
		const Desc& x = g_desc[i];
		if (x.type != name[0] || x.idx != atoi(name.c_str() + 1)) continue;
		const uint64_t *b = (const uint64_t*)((const char*)base + x.off) + 2;
		size_t unit = isDbl(x.type) ? 8 : 4;
		for (size_t j = 0; j < x.size / 8; j += unit) r.push_back(mpzOfLimbs(b + j, unit));
	}
	return r;
}
typedef std::vector<mpz_class> VM;
static VM vals(const VM& x) { VM r; for (size_t i = 0; i < x.size(); i++) r.push_back(ofRaw(x[i])); return r; }
static Z2 xiZ()
{
#ifdef BN_SUPPORT_SNARK
	return z2(9, 1);
#else
	return z2(1, 1);
#endif
}
// elements as polynomials over Fp2 in w, w^6 = xi
struct W6 { mpz_class a[6], b[6]; };
static W6 wOf(const VM& v) // values of an Fp12: a_ = even powers, b_ = odd powers
{
	W6 r;
	for (int i = 0; i < 6; i++) { int k = i < 3 ? 2 * i : 2 * (i - 3) + 1; r.a[k] = v[2 * i]; r.b[k] = v[2 * i + 1]; }
	return r;
}
static W6 wMul(const W6& x, const W6& y)
{
	mpz_class A[11], B[11];
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
		A[i + j] += x.a[i] * y.a[j] - x.b[i] * y.b[j];
		B[i + j] += x.a[i] * y.b[j] + x.b[i] * y.a[j];
	}
	Z2 xi = xiZ();
	W6 r;
	for (int i = 0; i < 6; i++) {
		r.a[i] = A[i]; r.b[i] = B[i];
		if (i < 5) { r.a[i] += xi.a * A[i + 6] - xi.b * B[i + 6]; r.b[i] += xi.a * B[i + 6] + xi.b * A[i + 6]; }
		r.a[i] = modp(r.a[i], P_); r.b[i] = modp(r.b[i], P_);
	}
	return r;
}
static bool wEq(const W6& x, const W6& y) { for (int i = 0; i < 6; i++) if (x.a[i] != y.a[i] || x.b[i] != y.b[i]) return false; return true; }
static W6 wOne() { W6 r; r.a[0] = 1; return r; }
static TLS Z2 g_gam[6];
static TLS int g_gamFor;
static W6 wFrob(const W6& x)
{
	if (g_gamFor != g_b) {
		Z2 g = z2(1, 0), xi = xiZ();
		mpz_class e = (P_ - 1) / 6;
		for (int i = (int)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { g = zmul(g, g); if (mpz_tstbit(e.get_mpz_t(), i)) g = zmul(g, xi); }
		g_gam[0] = z2(1, 0);
		for (int i = 1; i < 6; i++) g_gam[i] = zmul(g_gam[i - 1], g);
		g_gamFor = g_b;
	}
	W6 r;
	for (int i = 0; i < 6; i++) { Z2 c = zmul(z2(x.a[i], -x.b[i]), g_gam[i]); r.a[i] = c.a; r.b[i] = c.b; }
	return r;
}
static VM pad12(VM v, bool line = false) // Fp6, or a line a + b w^3 + c w^4, as an Fp12
{
	if (!line) { v.resize(12); return v; }
	VM r(12);
	r[0] = v[0]; r[1] = v[1]; r[4] = v[4]; r[5] = v[5]; r[8] = v[2]; r[9] = v[3];
	return r;
}
static ZP zpOf(const VM& raw, bool hom)
{
	VM v = vals(raw);
	ZP r = zpInf();
	int n = v.size() / 3;
	Z2 c[3];
	for (int i = 0; i < 3; i++) c[i] = n == 1 ? z2(v[i], 0) : z2(v[2 * i], v[2 * i + 1]);
	if (c[2].a == 0 && c[2].b == 0) return r;
	r.inf = false;
	if (c[2].a == 1 && c[2].b == 0) { r.x = c[0]; r.y = c[1]; return r; }
	Z2 i = zinv(c[2]), i2 = hom ? i : zmul(i, i);
	r.x = zmul(c[0], i2); r.y = zmul(c[1], hom ? i : zmul(i2, i));
	return r;
}
static bool zpSame(const ZP& x, const ZP& y) { return x.inf == y.inf && (x.inf || (zeq(x.x, y.x) && zeq(x.y, y.y))); }
static ZP zpNeg(const ZP& x) { ZP r = x; if (!r.inf) r.y = zsub(z2(0, 0), r.y); return r; }
static Str outOf(const char *k)
{
	Str key = Str(",\"") + k + "\":";
	size_t i = g_extra.find(key);
	if (i == Str::npos) return "";
	i += key.size();
	size_t e = i;
	if (g_extra[i] == '"') { i++; e = g_extra.find('"', i); }
	else if (g_extra[i] == '[') e = g_extra.find(']', i) + 1;
	else while (e < g_extra.size() && g_extra[e] != ',') e++;
	return g_extra.substr(i, e - i);
}
static Str cmpOut(bool eq, bool zero) { return fmt("[%d,%d,%d]", (int)eq, (int)!eq, (int)zero); }
static bool onCurve(const ZP& p, bool g1) { return p.inf || zeq(zmul(p.y, p.y), zadd(zmul(zmul(p.x, p.x), p.x), g1 ? z2(g_b, 0) : g_twistB)); }
static bool dblIs(const mpz_class& got, const mpz_class& want) { return got < PN_ && modp(got - want, P_) == 0; }

static bool plausible(const Str& o, const Str& d, const std::vector<Str>& s)
{
	if (g_extra.find(",\"x\":") != Str::npos || g_extra.find("\"tab\"") != Str::npos || g_abi) { if (o.substr(2, 4) != "read" && o.substr(2, 5) != "parse") return false; }
	bool renorm = o == "P.eq" || o == "Q.eq" || o == "e.ec" || o == "P.print" || o == "Q.print";
	for (size_t i = 0; i < g_desc.size(); i++) { // frame and canonical form
		const Desc& x = g_desc[i];
		const char *a = (const char*)&g_mem + x.off, *b = (const char*)&g_snap + x.off;
		if (memcmp(a, b, x.size + 32) == 0) continue;
		if (memcmp(a, b, 16) || memcmp(a + 16 + x.size, b + 16 + x.size, 16)) return false;
		Str nm = regName(x);
		VM now = regRaw(&g_mem, nm);
		bool inf = (x.type == 'p' || x.type == 'u') && now[2] == 0;
		if ((x.type == 'q' || x.type == 'v') && now[4] == 0 && now[5] == 0) inf = true;
		if (!isDbl(x.type) && x.type != 'n' && x.type != 'm' && !inf)
			for (size_t j = 0; j < (x.type == 'y' ? 4 : now.size()); j++) if (now[j] >= P_) return false;
		if (nm == d || (o.substr(0, 2) == "l." && nm == s[0]) || (o == "e.pre" && nm == s[1]) || (o == "t.cyclo" && nm == s[0])) continue;
		if (!renorm || (x.type != 'p' && x.type != 'q') || !zpSame(zpOf(now, false), zpOf(regRaw(&g_snap, nm), false))) return false;
	}
	char t = o[0];
	Str f = o.substr(2);
	VM N, S[4], r;
	if (!d.empty() && d[0] != 'c') N = regRaw(&g_mem, d);
	for (size_t i = 0; i < s.size() && i < 4; i++) if (s[i][0] != 'c') S[i] = regRaw(&g_snap, s[i]);
	if (t == 'f' || t == 'g' || t == 's' || t == 't') {
		if (f == "add" || f == "sub") { for (size_t i = 0; i < N.size(); i++) if (N[i] != (f == "add" ? modp(S[0][i] + S[1][i], P_) : modp(S[0][i] - S[1][i], P_))) return false; return true; }
		if (f == "neg") { for (size_t i = 0; i < N.size(); i++) if (N[i] != modp(-S[0][i], P_)) return false; return true; }
		if (f == "half" || f == "quarter") { for (size_t i = 0; i < N.size(); i++) if (modp(N[i] * (f == "half" ? 2 : 4) - S[0][i], P_) != 0) return false; return true; }
		if (f == "copy") return N == S[0];
	}
	if (t == 'f') {
		if (f == "mul") return modp(N[0] * R_ - S[0][0] * S[1][0], P_) == 0;
		if (f == "sqr") return modp(N[0] * R_ - S[0][0] * S[0][0], P_) == 0;
		if (f == "inv") return modp(N[0] * S[0][0] - R_ * R_, P_) == 0;
		if (f == "div") return modp(N[0] * S[1][0] - R_ * S[0][0], P_) == 0;
		if (f == "toMont") return modp(N[0] - S[0][0] * R_, P_) == 0;
		if (f == "fromMont") return modp(N[0] * R_ - S[0][0], P_) == 0;
		if (f == "z2x3") return modp(N[0] - 2 * S[0][0] - 3 * S[1][0], P_) == 0;
		if (f == "sqrt") return outOf("b") == "1" ? modp(N[0] * N[0] - S[0][0] * R_, P_) == 0 : !legendreOne(ofRaw(S[0][0]));
		if (f == "seti") return N[0] == toRaw(mpz_class(outOf("i"), 16));
		if (f == "pow") return ofRaw(N[0]) == powm(ofRaw(S[0][0]), mpz_class(outOf("i"), 16), P_);
		if (f == "get") return mpz_class(outOf("i"), 16) == ofRaw(S[0][0]);
		if (f == "cmp") { int c = cmp(S[0][0], S[1][0]); c = c < 0 ? -1 : c > 0; return outOf("r") == fmt("[%d,%d,%d,%d,%d,%d,%d,%d]", c, c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0, S[0][0] == 0); }
		return true;
	}
	if (t == 'n' || t == 'm') {
		for (size_t i = 0; i < N.size(); i++) {
			if (f == "addNC" && N[i] != S[0][i] + S[1][i]) return false;
			if (f == "subNC" && N[i] != S[0][i] - S[1][i]) return false;
			if (f == "shr1" && N[i] != (S[0][i] >> 1)) return false;
			if (f == "shr2" && N[i] != (S[0][i] >> 2)) return false;
			if (f == "fastmod" && N[i] != modp(S[0][i], P_)) return false;
		}
		return true;
	}
	if (t == 'd' || t == 'h' || t == 'k') {
		for (size_t i = 0; i < N.size(); i++) {
			if (f == "add" && !dblIs(N[i], S[0][i] + S[1][i])) return false;
			if (f == "sub" && !dblIs(N[i], S[0][i] - S[1][i])) return false;
			if (f == "subOpt1" && (!dblIs(N[i], S[0][i] - S[1][i]) || 2 * N[i] >= PN_)) return false;
			if (f == "neg" && !dblIs(N[i], -S[0][i])) return false;
			if (f == "addNC" && N[i] != S[0][i] + S[1][i]) return false;
			if (f == "subNC" && N[i] != S[0][i] - S[1][i]) return false;
			if (f == "mod" && (N[i] >= P_ || modp(N[i] * R_ - S[0][i], P_) != 0)) return false;
		}
		if (t == 'd' && f == "mul") return N[0] == S[0][0] * S[1][0];
		if (t == 'h') {
			Z2 xi = xiZ();
			if (f == "mul_xi") return dblIs(N[0], S[0][0] * xi.a - S[0][1] * xi.b) && dblIs(N[1], S[0][0] * xi.b + S[0][1] * xi.a);
			const VM& y = f == "square" ? S[0] : S[1];
			if (f == "square" || f == "mulOpt1" || f == "mulOpt2") {
				mpz_class im = S[0][0] * y[1] + S[0][1] * y[0];
				if (!dblIs(N[0], S[0][0] * y[0] - S[0][1] * y[1])) return false;
				if (f == "mulOpt1" && 2 * N[0] >= PN_) return false;
				return f == "square" ? dblIs(N[1], im) : N[1] == im;
			}
		}
		if (t == 'k' && f == "mul") {
			W6 w = wMul(wOf(pad12(S[0])), wOf(pad12(S[1])));
			for (int i = 0; i < 3; i++) if (!dblIs(N[2 * i], w.a[2 * i]) || !dblIs(N[2 * i + 1], w.b[2 * i])) return false;
		}
		return true;
	}
	if (t == 'g') {
		Z2 x, y, n;
		if (S[0].size() == 2) x = z2(ofRaw(S[0][0]), ofRaw(S[0][1]));
		if (S[1].size() == 2) y = z2(ofRaw(S[1][0]), ofRaw(S[1][1]));
		if (N.size() == 2) n = z2(ofRaw(N[0]), ofRaw(N[1]));
		if (f == "mul") return zeq(n, zmul(x, y));
		if (f == "sqr") return zeq(n, zmul(x, x));
		if (f == "mul_xi") return zeq(n, zmul(x, xiZ()));
		if (f == "mulfp0") return zeq(n, zmul(x, z2(ofRaw(S[1][0]), 0)));
		if (f == "mulfp1") return zeq(n, zmul(x, z2(0, ofRaw(S[1][0]))));
		if (f == "mul_x") return zeq(n, zmul(x, z2(0, 1)));
		if (f == "inv") return zeq(zmul(n, x), z2(1, 0));
		if (f == "eq") return outOf("r") == cmpOut(zeq(x, y), x.a == 0 && x.b == 0);
		return true;
	}
	if (t == 's') {
		if (f == "mul" || f == "sqr" || f == "inv") {
			W6 x = wOf(pad12(vals(S[0]))), n = wOf(pad12(vals(N)));
			if (f == "mul") return wEq(n, wMul(x, wOf(pad12(vals(S[1])))));
			return f == "sqr" ? wEq(n, wMul(x, x)) : wEq(wMul(n, x), wOne());
		}
		if (f == "eq") return outOf("r") == cmpOut(S[0] == S[1], S[0] == VM(6));
		return true;
	}
	if (t == 't') {
		if (f == "eq") return outOf("r") == cmpOut(S[0] == S[1], S[0] == VM(12));
		if (f == "mul" || f == "sqr" || f == "sqru" || f == "inv" || f == "mul024" || f == "frob" || f == "frob2" || f == "frob3") {
			W6 x = wOf(vals(S[0])), n = wOf(vals(N));
			if (f == "mul") return wEq(n, wMul(x, wOf(vals(S[1]))));
			if (f == "mul024") return wEq(n, wMul(x, wOf(pad12(vals(S[1]), true))));
			if (f == "inv") return wEq(wMul(n, x), wOne());
			if (f[0] == 's') return wEq(n, wMul(x, x));
			x = wFrob(x);
			if (f != "frob") x = wFrob(x);
			if (f == "frob3") x = wFrob(x);
			return wEq(n, x);
		}
		if (f == "mul024x2") return wEq(wOf(vals(N)), wMul(wOf(pad12(vals(S[0]), true)), wOf(pad12(vals(S[1]), true))));
		if (f == "csqn") { W6 x = wOf(vals(S[0])); for (long i = strtol(outOf("i").c_str(), 0, 16); i > 0; i--) x = wMul(x, x); return wEq(wOf(vals(N)), x); }
		return true;
	}
	if (t == 'P' || t == 'Q') {
		bool g1 = t == 'P';
		if (f == "copy") return N == S[0];
		if (f == "clear") return zpOf(N, false).inf;
		if (f == "isHom2" || f == "set2" || f == "set3") {
			VM v;
			if (f == "isHom2") v = S[0];
			else for (int i = 0; i < (f == "set2" ? 2 : 3); i++) v.insert(v.end(), S[i].begin(), S[i].end());
			size_t n = g1 ? 1 : 2;
			if (f != "set3") { v.resize(3 * n); v[2 * n] = R_; if (!g1) v[5] = 0; }
			ZP w = zpOf(v, false);
			bool ok = onCurve(w, g1);
			return outOf("b") == (ok ? "1" : "0") && (f == "isHom2" || !ok || zpSame(zpOf(N, false), w));
		}
		bool hom = f == "nhom" || f == "isHom3";
		ZP a = zpInf(), b = zpInf();
		if (S[0].size() == (g1 ? 3u : 6u)) a = zpOf(S[0], hom);
		if (S[1].size() == (g1 ? 3u : 6u)) b = zpOf(S[1], hom);
		if (f == "add") return zpSame(zpOf(N, false), zpAdd(a, b));
		if (f == "sub") return zpSame(zpOf(N, false), zpAdd(a, zpNeg(b)));
		if (f == "dbl") return zpSame(zpOf(N, false), zpAdd(a, a));
		if (f == "neg") return zpSame(zpOf(N, false), zpNeg(a));
		if (f == "norm" || f == "njac" || f == "nfree") return zpSame(zpOf(N, false), a);
		if (f == "nhom") return zpSame(zpOf(N, false), a);
		if (f == "eq") { bool e = zpSame(a, b); return outOf("r") == fmt("[%d,%d,%d,%d]", (int)e, (int)!e, (int)a.inf, (int)b.inf); }
		if (f == "isValid" || f == "isHom3") return outOf("b") == (onCurve(a, g1) ? "1" : "0");
		if (f == "mul" && g_events % 4 == 0) {
			mpz_class k(outOf("i"), 16);
			ZP w = zpMul(k < 0 ? zpNeg(a) : a, abs(k));
			return zpSame(zpOf(N, false), w);
		}
		return true;
	}
	if (o == "l.mul01" || o.substr(0, 6) == "l.frob" || t == 'e' || t == 'b') return true;
	if (t == 'l') { // the running point
		ZP a = zpOf(S[0], true);
		ZP w = f[0] == 'd' ? zpAdd(a, a) : zpAdd(a, zpOf(S[1], false));
		return zpSame(zpOf(regRaw(&g_mem, s[0]), true), w);
	}
	return true;
}
