// Drives the Java classes that swig makes of java/bn254_if.hpp: the same random histories of in-place calls as drv_bind.cpp,
// through the generated glue.  Objects are observed only through their own methods (toString, getA, getX, ...).
//   java Drv OUT PROFILE SEED STEPS
import java.io.*;
import java.math.BigInteger;
import java.util.*;
import mcl.bn254.*;

public class Drv {
	static final BigInteger P = new BigInteger("2523648240000001ba344d80000000086121000000000013a700000000000013", 16);
	static final BigInteger ORD = new BigInteger("16798108731015832284940804142231733909759579603404752749028378864165570215949");
	static final BigInteger R = BigInteger.ONE.shiftLeft(256).mod(P);
	static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
	static final int NF = 5, NG = 5, NT = 4, NP = 4, NQ = 4, NZ = 5;
	static Fp[] f = new Fp[NF];
	static Fp2[] g = new Fp2[NG];
	static Fp12[] t = new Fp12[NT];
	static Ec1[] p = new Ec1[NP];
	static Ec2[] q = new Ec2[NQ];
	static Mpz[] z = new Mpz[NZ];
	static Random rng;
	static PrintWriter out;
	static long events;
	static boolean chance(int c) { return rng.nextInt(100) < c; }
	static int below(int n) { return rng.nextInt(n); }

	// ---------------------------------------------------------------- observing
	static Map<String, String[]> shadow = new LinkedHashMap<>();
	static BigInteger num(String s) { return s.startsWith("0x") ? new BigInteger(s.substring(2), 16) : new BigInteger(s); }
	static String raw(BigInteger v) { return v.multiply(R).mod(P).toString(16); }
	static BigInteger unraw(String h) { return new BigInteger(h, 16).multiply(R.modInverse(P)).mod(P); }
	static String val(Fp x) { return raw(num(x.toString())); }
	static String[] nums(String s) // every number of a printed element
	{
		String[] a = s.replaceAll("[\\[\\]]", "").split(",");
		for (int i = 0; i < a.length; i++) a[i] = raw(num(a[i].trim()));
		return a;
	}
	static String[] read(String r)
	{
		int i = Integer.parseInt(r.substring(1));
		switch (r.charAt(0)) {
		case 'f': return new String[] { val(f[i]) };
		case 'g': return new String[] { val(g[i].getA()), val(g[i].getB()) };
		case 't': return nums(t[i].toString());
		case 'p': return new String[] { val(p[i].getX()), val(p[i].getY()), val(p[i].getZ()) };
		case 'q': { Fp2 x = q[i].getX(), y = q[i].getY(), w = q[i].getZ(); return new String[] { val(x.getA()), val(x.getB()), val(y.getA()), val(y.getB()), val(w.getA()), val(w.getB()) }; }
		default: return new String[] { new BigInteger(z[i].toString()).toString(16) };
		}
	}
	static String js(String r, String[] v)
	{
		StringBuilder s = new StringBuilder("[\"" + r + "\",\"" + r.charAt(0) + "\",[");
		for (int i = 0; i < v.length; i++) s.append(i > 0 ? ",\"" : "\"").append(v[i]).append('"');
		return s + "]]";
	}
	static String changed()
	{
		StringBuilder w = new StringBuilder();
		for (String r : shadow.keySet()) {
			String[] v = read(r);
			if (Arrays.equals(v, shadow.get(r))) continue;
			shadow.put(r, v);
			if (w.length() > 0) w.append(',');
			w.append(js(r, v));
		}
		return "[" + w + "]";
	}
	static String extra;
	interface Call { void run() throws Exception; }
	static String list(String... s) { StringBuilder b = new StringBuilder(); for (String x : s) b.append(b.length() > 0 ? ",\"" : "\"").append(x).append('"'); return "[" + b + "]"; }
	static void emit(String s) { out.println(s); events++; }
	static boolean rec(String o, String d, String[] s, Call c)
	{
		extra = "";
		boolean ok = true;
		if (o.contains("parse")) pending(o, d, s);
		try { c.run(); } catch (Exception e) { ok = false; extra += ",\"x\":\"throw\""; }
		emit("{\"o\":\"" + o + "\",\"d\":\"" + d + "\",\"s\":" + list(s) + ",\"w\":" + changed() + ",\"fm\":0" + extra + "}");
		return ok;
	}
	// The library refuses some texts by ending the process: what would have to be recorded then
	static String pendFile, pendText;
	static void pending(String o, String d, String[] s)
	{
		out.flush();
		try (PrintWriter w = new PrintWriter(new FileWriter(pendFile))) {
			w.println("{\"o\":\"" + o + "\",\"d\":\"" + d + "\",\"s\":" + list(s) + ",\"w\":[],\"fm\":0" + pendText + ",\"x\":\"exit\"}");
		} catch (IOException e) { throw new Error(e); }
	}
	static String[] a(String... s) { return s; }
	static void load(String r, String[] v) // tell the trace what the register now is
	{
		shadow.put(r, v);
		emit("{\"o\":\"" + (r.charAt(0) == 'z' ? "z.ld" : "ld") + "\",\"d\":\"" + r + "\",\"s\":[],\"w\":[" + js(r, v) + "],\"fm\":0}");
	}
	static String codes(String s) { StringBuilder b = new StringBuilder(); for (int i = 0; i < s.length(); i++) b.append(i > 0 ? "," : "").append((int)s.charAt(i)); return "[" + b + "]"; }

	// ---------------------------------------------------------------- values
	static BigInteger bits(int n) { return new BigInteger(n, rng); }
	static BigInteger fp()
	{
		switch (below(8)) {
		case 0: return ZERO;
		case 1: return BigInteger.valueOf(below(4));
		case 2: return P.subtract(BigInteger.valueOf(1 + below(4)));
		case 3: return unraw(bits(64 * (1 + below(4))).mod(P).toString(16));
		case 4: return ONE.shiftLeft(below(254)).subtract(BigInteger.valueOf(below(2))).mod(P);
		default: return bits(320).mod(P);
		}
	}
	static BigInteger integer()
	{
		BigInteger v;
		switch (below(7)) {
		case 0: v = BigInteger.valueOf(below(5)); break;
		case 1: v = ORD.multiply(BigInteger.valueOf(below(3))).add(BigInteger.valueOf(below(5) - 2)); break;
		case 2: v = ONE.shiftLeft(below(300)).subtract(BigInteger.valueOf(below(2))); break;
		case 3: v = bits(1 + below(600)); break;
		case 4: v = bits(64); break;
		default: v = bits(256);
		}
		return chance(25) ? v.negate() : v;
	}
	static BigInteger power()
	{
		BigInteger v;
		switch (below(6)) {
		case 0: v = BigInteger.valueOf(below(5)); break;
		case 1: v = ORD.add(BigInteger.valueOf(below(5) - 2)); break;
		case 2: v = ONE.shiftLeft(below(300)); break;
		case 3: v = bits(64 * (1 + below(6))); break;
		case 4: v = P.multiply(P).subtract(ONE).shiftRight(below(3)); break;
		default: v = bits(256);
		}
		return chance(15) ? v.negate() : v;
	}
	static int small()
	{
		int[] iv = { 0, 1, -1, 2, -2, 3, 7, -9, 0x7fffffff, -0x7fffffff, 0x40000000, 65537, -65536, 0x80000000 };
		return chance(60) ? iv[below(iv.length)] : rng.nextInt();
	}
	static String hex(long v) { return BigInteger.valueOf(v).toString(16); }
	static String text(BigInteger v) { return chance(50) ? v.toString() : "0x" + v.toString(16); }
	static String fpText() { BigInteger v = chance(90) ? fp() : bits(270); return text(v); }
	static String damage(String s) // mostly not into forms the library refuses by ending the process
	{
		for (;;) { String r = damage1(s); if (!r.matches("(?s)(.*[^0-9a-fx])?0[^x,\\]_].*") || chance(2)) return r; }
	}
	static String damage1(String s)
	{
		StringBuilder b = new StringBuilder(s);
		for (int k = 0; k <= below(2); k++) {
			int at = below(b.length() + 1);
			String al = "0123456789abcdefx[],-_ ghG";
			char c = al.charAt(below(al.length()));
			switch (below(3)) {
			case 0: b.insert(at, c); break;
			case 1: if (at < b.length()) b.deleteCharAt(at); break;
			default: if (at < b.length()) b.setCharAt(at, c);
			}
		}
		return b.toString();
	}
	static void loadF(int i) { BigInteger v = fp(); f[i] = new Fp(v.toString()); load("f" + i, a(raw(v))); }
	static void loadG(int i) { BigInteger v = fp(), w = chance(25) ? ZERO : fp(); g[i] = new Fp2(new Fp(v.toString()), new Fp(w.toString())); load("g" + i, a(raw(v), raw(w))); }
	static String elem12(BigInteger[] v)
	{
		StringBuilder s = new StringBuilder("[");
		for (int i = 0; i < 12; i++) {
			if (i == 6) s.append(",\n");
			if (i % 6 == 0) s.append("[");
			if (i % 2 == 0) s.append(i % 6 == 0 ? "[" : ",\n[");
			s.append(text(v[i]));
			s.append(i % 2 == 0 ? "," : "]");
			if (i % 6 == 5) s.append("]");
		}
		return s + "]";
	}
	static BigInteger[] twelve() { BigInteger[] v = new BigInteger[12]; int m = below(3); for (int i = 0; i < 12; i++) v[i] = m == 0 && chance(70) ? ZERO : fp(); return v; }
	static void loadT(int i)
	{
		BigInteger[] v = twelve();
		t[i] = new Fp12();
		t[i].set(elem12(v));
		String[] w = new String[12];
		for (int j = 0; j < 12; j++) w[j] = raw(v[j]);
		load("t" + i, w);
	}
	static void loadZ(int i, BigInteger v) { z[i] = new Mpz(v.toString()); load("z" + i, a(v.toString(16))); }
	// arithmetic of coordinates
	static BigInteger mul(BigInteger x, BigInteger y) { return x.multiply(y).mod(P); }
	static BigInteger[] mul(BigInteger[] x, BigInteger[] y) { return new BigInteger[] { x[0].multiply(y[0]).subtract(x[1].multiply(y[1])).mod(P), x[0].multiply(y[1]).add(x[1].multiply(y[0])).mod(P) }; }
	static Fp F(BigInteger v) { return new Fp(v.toString()); }
	static Fp2 G(BigInteger[] v) { return new Fp2(F(v[0]), F(v[1])); }
	static BigInteger[] pt1() // a point of the curve y^2 = x^3 + 2
	{
		for (;;) {
			BigInteger x = fp(), w = x.multiply(x).multiply(x).add(BigInteger.valueOf(2)).mod(P), y = w.modPow(P.add(ONE).shiftRight(2), P);
			if (mul(y, y).equals(w)) return new BigInteger[] { x, chance(50) ? y : P.subtract(y).mod(P) };
		}
	}
	static void loadP(int i)
	{
		BigInteger[] v = pt1();
		BigInteger w = chance(50) ? ONE : fp();
		if (chance(8) || w.signum() == 0) { p[i] = new Ec1(); load("p" + i, read("p" + i)); return; }
		BigInteger w2 = mul(w, w);
		BigInteger X = mul(v[0], w2), Y = mul(v[1], mul(w2, w));
		p[i] = new Ec1(F(X), F(Y), F(w));
		load("p" + i, a(raw(X), raw(Y), raw(w)));
	}
	static void scaleQ(int i) // another representation of the same point
	{
		String[] c = read("q" + i);
		BigInteger[][] v = new BigInteger[3][];
		for (int j = 0; j < 3; j++) v[j] = new BigInteger[] { unraw(c[2 * j]), unraw(c[2 * j + 1]) };
		BigInteger[] l = { fp(), chance(30) ? ZERO : fp() };
		if (l[0].signum() == 0 && l[1].signum() == 0) return;
		if (v[2][0].signum() == 0 && v[2][1].signum() == 0) return;
		BigInteger[] l2 = mul(l, l);
		v[0] = mul(v[0], l2); v[1] = mul(v[1], mul(l2, l)); v[2] = mul(v[2], l);
		q[i] = new Ec2(G(v[0]), G(v[1]), G(v[2]));
		String[] w = new String[6];
		for (int j = 0; j < 6; j++) w[j] = raw(v[j / 2][j % 2]);
		load("q" + i, w);
	}
	// ---------------------------------------------------------------- calls
	static void opZ()
	{
		int d = below(NZ), x = chance(25) ? d : below(NZ);
		if (chance(40)) loadZ(chance(50) ? x : d, integer());
		String nd = "z" + d, na = "z" + x;
		boolean fm = chance(50);
		switch (below(12)) {
		case 0: rec("z.new", nd, a(), () -> { z[d] = new Mpz(); }); break;
		case 1: rec("z.copy", nd, a(na), () -> { z[d] = new Mpz(z[x]); }); break;
		case 2: { int v = small(); rec("z.seti", nd, a(), () -> { extra += ",\"i\":\"" + hex(v) + "\""; if (fm) z[d].set(v); else z[d] = new Mpz(v); }); break; }
		case 3: case 4: {
			BigInteger v = integer();
			String s0 = chance(70) ? v.toString() : (v.signum() < 0 ? "-0x" : "0x") + v.abs().toString(16), s = chance(30) ? damage(s0) : s0;
			rec("z.set", nd, a(), () -> { extra += ",\"t\":" + codes(s); if (fm) z[d].set(s); else z[d] = new Mpz(s); });
			break; }
		case 5: rec("z.print", "", a(na), () -> { extra += ",\"txt\":\"" + z[x].toString() + "\""; }); break;
		case 6: rec("z.cmp", "", a(nd, na), () -> { int c = z[d].compareTo(z[x]); extra += ",\"r\":[" + (eq(z[d], z[x]) ? 1 : 0) + "," + Integer.signum(c) + "]"; }); break;
		case 7: rec("z.add", nd, a(nd, na), () -> z[d].add(z[x])); break;
		case 8: rec("z.sub", nd, a(nd, na), () -> z[d].sub(z[x])); break;
		case 9: rec("z.mul", nd, a(nd, na), () -> z[d].mul(z[x]));
			if (new BigInteger(z[d].toString()).bitLength() > 2000) loadZ(d, integer());
			break;
		case 10: rec("z.mod", nd, a(nd, na), () -> z[d].mod(z[x])); break;
		case 11: if (chance(20)) rec("z.order", nd, a(), () -> { z[d] = new Mpz(BN254.GetParamR()); }); break;
		}
	}
	// equality as a user of collections sees it
	static boolean eq(Object x, Object y)
	{
		boolean r = x.equals(y);
		if (x.equals(null) || x.equals("0") || !x.equals(x)) throw new Error("equals");
		return r;
	}
	static void bool(boolean b) { extra += ",\"b\":" + (b ? 1 : 0); }
	static void pow(String o, String nd, Call c, int k, boolean any)
	{
		if (any || chance(70)) loadZ(k, power());
		if (new BigInteger(z[k].toString()).bitLength() > 700) return;
		rec(o, nd, a(nd, "z" + k), c);
	}
	static void opF()
	{
		int d = below(NF), x = chance(25) ? d : below(NF), k = below(NZ);
		if (chance(30)) loadF(d);
		if (chance(30)) loadF(x);
		if (chance(10)) { f[d] = new Fp(f[x]); load("f" + d, shadow.get("f" + x)); }
		String nd = "f" + d, na = "f" + x;
		boolean fm = chance(50);
		switch (below(11)) {
		case 0: { int v = small(); rec("f.seti", nd, a(), () -> { extra += ",\"i\":\"" + hex(v) + "\""; if (fm) f[d].set(v); else f[d] = new Fp(v); }); break; }
		case 1: case 2: { String s0 = fpText(), s = chance(40) ? damage(s0) : s0;
			pendText = ",\"t\":" + codes(s);
			boolean ok = rec("f.parse", nd, a(), () -> { extra += pendText; if (fm) f[d].set(s); else f[d] = new Fp(s); });
			if (!ok) loadF(d);
			break; }
		case 3: rec("f.print", "", a(nd), () -> { extra += ",\"base\":10,\"txt\":\"" + f[d].toString() + "\""; }); break;
		case 4: case 5: rec("f.add", nd, a(nd, na), () -> f[d].add(f[x])); break;
		case 6: rec("f.sub", nd, a(nd, na), () -> f[d].sub(f[x])); break;
		case 7: rec("f.mul", nd, a(nd, na), () -> f[d].mul(f[x])); break;
		case 8: rec("b.eqf", "", a(nd, na), () -> bool(eq(f[d], f[x]))); break;
		case 9: rec("b.copyf", nd, a(na), () -> { f[d] = new Fp(f[x]); }); break;
		case 10: pow("b.powf", nd, () -> f[d].power(z[k]), k, false); if (f[d] == null) loadF(d); break;
		}
	}
	static void opG()
	{
		int d = below(NG), x = chance(25) ? d : below(NG), k = below(NZ), u = below(NF), v = below(NF);
		if (chance(30)) loadG(d);
		if (chance(30)) loadG(x);
		if (chance(30)) loadF(u);
		if (chance(10)) { g[d] = new Fp2(g[x]); load("g" + d, shadow.get("g" + x)); }
		String nd = "g" + d, na = "g" + x, nu = "f" + u, nv = "f" + v;
		boolean fm = chance(50);
		switch (below(14)) {
		case 0: { int i = small(); rec("b.setg1", nd, a(), () -> { extra += ",\"i\":\"" + hex(i) + "\""; g[d] = new Fp2(i); }); break; }
		case 1: { int i = small(), j = small(); rec("b.setg2", nd, a(), () -> { extra += ",\"i\":\"" + hex(i) + "\",\"j\":\"" + hex(j) + "\""; g[d] = new Fp2(i, j); }); break; }
		case 2: rec("b.setg", nd, a(nu, nv), () -> { g[d] = new Fp2(f[u], f[v]); }); break;
		case 3: { String s0 = "[" + fpText() + (chance(20) ? " , " : ",") + fpText() + "]", s = chance(40) ? damage(s0) : s0;
			pendText = ",\"t\":" + codes(s);
			if (!rec("g.parse", nd, a(), () -> { extra += pendText; g[d].set(s); })) loadG(d);
			break; }
		case 4: { String s = chance(20) ? damage(fpText()) : fpText(), w = chance(20) ? damage(fpText()) : fpText();
			pendText = ",\"t\":" + codes(s) + ",\"t2\":" + codes(w);
			rec("b.parseg2", nd, a(), () -> { extra += pendText; g[d] = new Fp2(s, w); });
			break; }
		case 5: rec("g.print", "", a(nd), () -> { extra += ",\"base\":10,\"txt\":\"" + g[d].toString() + "\""; }); break;
		case 6: rec(fm ? "b.getA" : "b.getB", nu, a(na), () -> { f[u] = new Fp(fm ? g[x].getA() : g[x].getB()); }); break;
		case 7: rec(fm ? "b.addA" : "b.addB", nd, a(nd, nu), () -> (fm ? g[d].getA() : g[d].getB()).add(f[u])); break;
		case 8: rec("g.add", nd, a(nd, na), () -> g[d].add(g[x])); break;
		case 9: rec("g.sub", nd, a(nd, na), () -> g[d].sub(g[x])); break;
		case 10: rec("g.mul", nd, a(nd, na), () -> g[d].mul(g[x])); break;
		case 11: rec("b.eqg", "", a(nd, na), () -> bool(eq(g[d], g[x]))); break;
		case 12: rec("b.copyg", nd, a(na), () -> { g[d] = new Fp2(g[x]); }); break;
		case 13: pow("b.powg", nd, () -> g[d].power(z[k]), k, false); break;
		}
	}
	static void opT()
	{
		int d = below(NT), x = chance(25) ? d : below(NT), k = below(NZ);
		if (chance(30)) loadT(d);
		if (chance(30)) loadT(x);
		if (chance(10)) { t[d] = new Fp12(t[x]); load("t" + d, shadow.get("t" + x)); }
		String nd = "t" + d, na = "t" + x;
		switch (below(9)) {
		case 0: { int v = small(); rec("b.sett1", nd, a(), () -> { extra += ",\"i\":\"" + hex(v) + "\""; t[d] = new Fp12(v); }); break; }
		case 1: { String s0 = elem12(twelve()), s = chance(40) ? damage(s0) : s0;
			pendText = ",\"t\":" + codes(s);
			if (!rec("b.parset", nd, a(), () -> { extra += pendText; t[d].set(s); })) loadT(d);
			break; }
		case 2: rec("t.print", "", a(nd), () -> { extra += ",\"base\":10,\"txt\":\"" + t[d].toString().replace("\n", "\\n") + "\""; }); break;
		case 3: rec("t.add", nd, a(nd, na), () -> t[d].add(t[x])); break;
		case 4: rec("t.sub", nd, a(nd, na), () -> t[d].sub(t[x])); break;
		case 5: rec("t.mul", nd, a(nd, na), () -> t[d].mul(t[x])); break;
		case 6: rec("b.eqt", "", a(nd, na), () -> bool(eq(t[d], t[x]))); break;
		case 7: rec("b.copyt", nd, a(na), () -> { t[d] = new Fp12(t[x]); }); break;
		case 8: if (chance(50)) pow("b.powt", nd, () -> t[d].power(z[k]), k, false); break;
		}
	}
	static void opP()
	{
		int d = below(NP), x = chance(25) ? d : below(NP), k = below(NZ), u = below(NF);
		if (chance(30)) loadP(d);
		if (chance(20)) loadP(x);
		String nd = "p" + d, na = "p" + x, nu = "f" + u;
		boolean fm = chance(50);
		switch (below(16)) {
		case 0: rec("P.clear", nd, a(), () -> { if (fm) p[d].clear(); else p[d] = new Ec1(); }); break;
		case 1: rec("P.copy", nd, a(na), () -> { p[d] = new Ec1(p[x]); }); break;
		case 2: case 3: rec("P.add", nd, a(nd, na), () -> p[d].add(p[x])); break;
		case 4: case 5: rec("P.sub", nd, a(nd, na), () -> p[d].sub(p[x])); break;
		case 6: rec("P.dbl", nd, a(nd), () -> p[d].dbl()); break;
		case 7: rec("P.neg", nd, a(nd), () -> p[d].neg()); break;
		case 8: pow("b.mulP", nd, () -> p[d].mul(z[k]), k, false); break;
		case 9: rec("b.eqP", "", a(nd, na), () -> bool(eq(p[d], p[x]))); break;
		case 10: rec("b.zeroP", "", a(nd), () -> bool(p[d].isZero())); break;
		case 11: rec("P.print", "", a(nd), () -> { extra += ",\"base\":16,\"txt\":\"" + p[d].toString() + "\""; }); break;
		case 12: { BigInteger[] v = pt1();
			if (chance(20)) v[1] = v[1].add(ONE).mod(P);
			String s0 = chance(10) ? "0" : text(v[0]) + "_" + text(v[1]), s = chance(25) ? damage(s0) : s0;
			pendText = ",\"t\":" + codes(s);
			if (!rec("b.parseP", nd, a(), () -> { extra += pendText; p[d].set(s); })) loadP(d);
			break; }
		case 13: { if (p[d].isZero()) return; String o = new String[] { "b.getXP", "b.getYP", "b.getZP" }[below(3)];
			rec(o, nu, a(nd), () -> { f[u] = new Fp(o.equals("b.getXP") ? p[d].getX() : o.equals("b.getYP") ? p[d].getY() : p[d].getZ()); });
			break; }
		case 14: case 15: { boolean three = chance(50);
			loadP(x);
			String[] c = shadow.get(na).clone();
			if (!three) { if (p[x].isZero()) return; BigInteger[] v = pt1(); c[0] = raw(v[0]); c[1] = raw(v[1]); }
			if (chance(40)) { int j = below(three ? 3 : 2); c[j] = raw(fp()); }
			for (int j = 0; j < 3; j++) { f[j] = F(unraw(c[j])); load("f" + j, a(c[j])); }
			String[] s = three ? a("f0", "f1", "f2") : a("f0", "f1");
			rec(three ? "P.set3" : "P.set2", nd, s, () -> {
				boolean ok = true;
				try { if (three) { if (fm) p[d].set(f[0], f[1], f[2]); else p[d] = new Ec1(f[0], f[1], f[2]); } else { if (fm) p[d].set(f[0], f[1]); else p[d] = new Ec1(f[0], f[1]); } }
				catch (RuntimeException e) { ok = false; }
				bool(ok);
			});
			if (extra.contains("\"b\":0")) loadP(d);
			break; }
		}
	}
	static void opQ()
	{
		int d = below(NQ), x = chance(25) ? d : below(NQ), k = below(NZ), u = below(NG);
		if (chance(30)) scaleQ(d);
		if (chance(20)) scaleQ(x);
		String nd = "q" + d, na = "q" + x, nu = "g" + u;
		boolean fm = chance(50);
		switch (below(16)) {
		case 0: if (chance(30)) rec("Q.clear", nd, a(), () -> { if (fm) q[d].clear(); else q[d] = new Ec2(); }); break;
		case 1: rec("Q.copy", nd, a(na), () -> { q[d] = new Ec2(q[x]); }); break;
		case 2: case 3: rec("Q.add", nd, a(nd, na), () -> q[d].add(q[x])); break;
		case 4: case 5: rec("Q.sub", nd, a(nd, na), () -> q[d].sub(q[x])); break;
		case 6: rec("Q.dbl", nd, a(nd), () -> q[d].dbl()); break;
		case 7: rec("Q.neg", nd, a(nd), () -> q[d].neg()); break;
		case 8: if (q[d].isZero()) { q[d] = gen2(); load(nd, read(nd)); } pow("b.mulQ", nd, () -> q[d].mul(z[k]), k, false); break;
		case 9: rec("b.eqQ", "", a(nd, na), () -> bool(eq(q[d], q[x]))); break;
		case 10: rec("b.zeroQ", "", a(nd), () -> bool(q[d].isZero())); break;
		case 11: rec("Q.print", "", a(nd), () -> { extra += ",\"base\":16,\"txt\":\"" + q[d].toString() + "\""; }); break;
		case 12: { String s0 = q[x].toString();
			boolean inf = s0.equals("0");
			changed();
			String[] w = read(na); load(na, w); // toString normalised it
			String s1 = !inf && chance(20) ? s0.substring(0, s0.length() - 2) + "1]" : s0, s = chance(25) ? damage(s1) : s1;
			pendText = ",\"t\":" + codes(s);
			if (!rec("b.parseQ", nd, a(), () -> { extra += pendText; q[d].set(s); })) { q[d] = gen2(); load(nd, read(nd)); }
			break; }
		case 13: { if (q[d].isZero()) return; String o = new String[] { "b.getXQ", "b.getYQ", "b.getZQ" }[below(3)];
			rec(o, nu, a(nd), () -> { g[u] = new Fp2(o.equals("b.getXQ") ? q[d].getX() : o.equals("b.getYQ") ? q[d].getY() : q[d].getZ()); });
			break; }
		case 14: case 15: { boolean three = chance(50);
			if (q[x].isZero()) return;
			String[] c = read(na);
			if (chance(40)) { int j = below(three ? 6 : 4); c[j] = raw(fp()); }
			for (int j = 0; j < 3; j++) { g[j] = G(new BigInteger[] { unraw(c[2 * j]), unraw(c[2 * j + 1]) }); load("g" + j, a(c[2 * j], c[2 * j + 1])); }
			String[] s = three ? a("g0", "g1", "g2") : a("g0", "g1");
			rec(three ? "Q.set3" : "Q.set2", nd, s, () -> {
				boolean ok = true;
				try { if (three) { if (fm) q[d].set(g[0], g[1], g[2]); else q[d] = new Ec2(g[0], g[1], g[2]); } else { if (fm) q[d].set(g[0], g[1]); else q[d] = new Ec2(g[0], g[1]); } }
				catch (RuntimeException e) { ok = false; }
				bool(ok);
			});
			if (extra.contains("\"b\":0")) { q[d] = gen2(); load(nd, read(nd)); }
			break; }
		}
	}
	static Ec2 gen2()
	{
		Fp aa = new Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441");
		Fp ab = new Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671");
		Fp ba = new Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736");
		Fp bb = new Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616");
		Ec2 r = new Ec2(new Fp2(aa, ab), new Fp2(ba, bb));
		r.mul(new Mpz(1 + below(1000000)));
		return r;
	}
	static void opE()
	{
		int d = below(NT), i = below(NP), j = below(NQ);
		if (chance(40)) loadP(i);
		if (chance(40)) scaleQ(j);
		rec("e.ec", "t" + d, a("q" + j, "p" + i), () -> t[d].pairing(q[j], p[i]));
	}
	public static void main(String[] av)
	{
		try { go(av); } catch (Throwable e) { e.printStackTrace(); out.flush(); System.exit(5); }
	}
	static void go(String[] av) throws Exception
	{
		pendFile = av[0] + ".pend";
		System.loadLibrary("bn254_if_wrap");
		out = new PrintWriter(new BufferedWriter(new FileWriter(av[0])));
		String prof = av[1];
		rng = new Random(Long.parseLong(av[2]) * 7919 + prof.hashCode());
		int steps = Integer.parseInt(av[3]);
		BN254.SystemInit();
		for (int i = 0; i < NF; i++) loadF(i);
		for (int i = 0; i < NG; i++) loadG(i);
		for (int i = 0; i < NT; i++) loadT(i);
		for (int i = 0; i < NP; i++) loadP(i);
		for (int i = 0; i < NQ; i++) { q[i] = gen2(); load("q" + i, read("q" + i)); }
		for (int i = 0; i < NZ; i++) loadZ(i, integer());
		long limit = events + steps;
		for (long n = 0; events < limit; n++) {
			if (n % 400 == 399) System.gc(); // objects that are gone must not take others with them
			if (prof.equals("pair")) { if (chance(60)) opE(); else if (chance(50)) opP(); else opQ(); continue; }
			switch (below(10)) {
			case 0: case 1: opZ(); break;
			case 2: opF(); break;
			case 3: case 4: opG(); break;
			case 5: opT(); break;
			case 6: case 7: opP(); break;
			default: opQ();
			}
		}
		out.close();
	}
}
