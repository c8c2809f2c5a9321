// Text forms of field elements and points.
#pragma once
static Str codes(const Str& s) { Str r = "["; for (size_t i = 0; i < s.size(); i++) r += fmt(i ? ",%d" : "%d", (int)(unsigned char)s[i]); return r + "]"; }
static Str genFpText()
{
	mpz_class v = g_rng.chance(15) ? mpz_class(g_rng.below(20)) : g_rng.chance(60) ? ofRaw(genRaw()) : modp(rndMpzBits(300), P_);
	if (g_rng.chance(25)) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, 9 * g_rng.below(9)); v = modp(g_rng.chance(50) ? v - v % t : mpz_class(t * (1 + g_rng.below(3)) + (int)g_rng.below(3) - 1), P_); }
	if (g_rng.chance(8)) v = P_ + (int)g_rng.below(4) - 2;
	if (g_rng.chance(5)) v = rndMpzBits(600);
	Str s = g_rng.chance(60) ? "0x" + v.get_str(16) : v.get_str(10);
	if (g_rng.chance(4)) { size_t k = s.compare(0, 2, "0x") == 0 ? 2 : 0; s.insert(k, 1, '0'); }
	return s;
}
static Str blank(bool free) { static const char *w[] = { " ", "\n", "\t", "\n ", "  " }; return free && g_rng.chance(25) ? w[g_rng.below(5)] : ""; }
static Str genElemText(char t, bool free)
{
	if (t == 'f') return genFpText();
	char part = t == 'g' ? 'f' : t == 's' ? 'g' : 's';
	int n = t == 's' ? 3 : 2;
	Str s = blank(free && t != 'g') + "[";
	for (int i = 0; i < n; i++) s += (i ? "," : "") + blank(free) + genElemText(part, free) + blank(free);
	return s + "]";
}
static void damage(Str& s)
{
	static const char bad[] = "xg-+ .,[]_0a9:\n\0z";
	if (g_rng.chance(35)) { // one delimiter for something else
		std::vector<size_t> at;
		for (size_t f = 0; (f = s.find_first_of("[],_", f)) != Str::npos; f++) at.push_back(f);
		if (!at.empty()) { s[g_rng.chance(40) ? at[at.size() / 2] : at[g_rng.below(at.size())]] = g_rng.chance(50) ? "[],_"[g_rng.below(4)] : g_rng.chance(50) ? ' ' : (char)(33 + g_rng.below(94)); return; }
	}
	int k = 1 + g_rng.below(2);
	while (k--) {
		size_t pos = g_rng.below(s.size() + 1);
		if (g_rng.chance(30)) { // at a delimiter
			size_t f = s.find_first_of("[],_", pos);
			if (f != Str::npos) pos = f + g_rng.below(2);
		}
		char c = bad[g_rng.below(sizeof(bad) - 1)];
		switch (g_rng.below(5)) {
		case 0: case 1: s.insert(pos, 1, c); break;
		case 2: if (pos < s.size()) s[pos] = c; break;
		case 3: if (pos < s.size()) s.erase(pos, 1 + g_rng.below(3)); break;
		default: s.resize(pos);
		}
	}
}
template<class T> static void textReg(char t, Slot<T> *r)
{
	Str up = t == 'p' ? "P" : t == 'q' ? "Q" : Str(1, t);
	bool pt = t == 'p' || t == 'q';
	int d = idx(t), a = idx(t);
	if (g_rng.chance(60)) { if (pt) loadPoint(t, a, pickPoint(t)); else loadField(t, a); }
	int base = pt ? 16 : g_rng.chance(50) ? 10 : 16;
	auto out = [&](const Str& s) { g_extra += fmt(",\"base\":%d", base) + ",\"txt\":" + jsonStr(s); };
	auto print = [&](int i) {
		Str s;
		rec((up + ".print").c_str(), "", { nm(t, i) }, [&] {
			std::ostringstream os;
			if (base == 16) os << std::hex;
			os << r[i].v;
			s = os.str();
			out(s);
		});
		return s;
	};
	int kind = g_rng.below(10);
	g_form = 0;
	if (kind < 3) { print(a); return; }
	Str s;
	int n = 1 + g_rng.below(3);
	for (int i = 0; i < n; i++) {
		Str x;
		if (g_rng.chance(30)) x = print(idx(t));
		else if (!pt) x = genElemText(t, g_rng.chance(40));
		else if (g_rng.chance(12)) x = "0";
		else x = genElemText(t == 'p' ? 'f' : 'g', false) + "_" + genElemText(t == 'p' ? 'f' : 'g', false);
		if (g_rng.chance(25)) damage(x);
		if (i) s += g_rng.chance(85) ? " " : g_rng.chance(50) ? "\n" : "";
		s += x;
	}
	if (g_rng.chance(20)) s += g_rng.chance(50) ? " " : "\n";
	std::istringstream is(s);
	Str left = s;
	for (int i = 0; i <= n; i++) {
		int k = idx(t);
		bool gone = false;
		rec((up + ".read").c_str(), nm(t, k), {}, [&] {
			const char *how = guarded([&] { is >> r[k].v; });
			if (!*how && is.fail()) how = "fail";
			g_extra += ",\"t\":" + codes(left);
			if (*how) { g_extra += ",\"x\":" + q(how); gone = true; return; }
			std::streamoff p = is.eof() ? (std::streamoff)-1 : (std::streamoff)is.tellg();
			left = p < 0 ? Str() : s.substr(p);
			g_extra += ",\"rest\":" + codes(left);
		});
		if (gone) break;
	}
	(void)d;
}
template<class T> static void parseText(char t, Slot<T> *r)
{
	int d = idx(t);
	Str s = genElemText(t, t == 'g' && g_rng.chance(40));
	if (g_rng.chance(30)) damage(s);
	g_form = g_rng.below(2);
	rec((Str(1, t) + ".parse").c_str(), nm(t, d), {}, [&] {
		const char *how = guarded([&] { r[d].v.set(s); });
		g_extra += ",\"t\":" + codes(s);
		if (*how) g_extra += ",\"x\":" + q(how);
	});
}
static void opText()
{
	switch (g_rng.below(10)) {
	case 0: case 1: textReg('f', M.f); break;
	case 2: textReg('g', M.g); break;
	case 3: textReg('s', M.s); break;
	case 4: textReg('t', M.t); break;
	case 5: case 6: textReg('p', M.p); break;
	case 7: case 8: textReg('q', M.q); break;
	default: {
		switch (g_rng.below(5)) {
		case 0: case 1: parseText('f', M.f); break;
		case 2: case 3: parseText('g', M.g); break;
		default: {
			int i = idx('f'), base = g_rng.chance(50) ? 10 : 16;
			g_form = 1;
			rec("f.print", "", { nm('f', i) }, [&] { g_extra += fmt(",\"base\":%d", base) + ",\"txt\":" + jsonStr(M.f[i].v.toString(base)); });
			int j = idx('g');
			rec("g.print", "", { nm('g', j) }, [&] { g_extra += fmt(",\"base\":%d", base) + ",\"txt\":" + jsonStr(M.g[j].v.toString(base)); });
			int e = idx('d');
			loadWide('d', e, PN_);
			rec("d.print", "", { nm('d', e) }, [&] { g_extra += fmt(",\"base\":%d", base) + ",\"txt\":" + jsonStr(M.d[e].v.toString(base)); });
		}
		}
	}
	}
}
