#!/usr/bin/env python3
"""Members of the cyclotomic subgroup with a vanishing compressed coordinate, for
harness/special_cyc.h (committed; this script only documents how it was made).

An element is a = (c+s)/(c-s), s = w^3, c = c0 + c1 v + c2 v^2 in Fp6 with
c0^2 - xi c1 c2 = -xi/3.  Requiring one coordinate to vanish is a polynomial in c1
once c2 is fixed; its roots are found in Fp2."""
import random, sys
CUR = {2: (-((1 << 62) + (1 << 55) + 1), (1, 1)), 3: (4965661367192848881, (9, 1)), 82: (4647714815446351873, (9, 1))}
def setup(b):
    global p, XI
    z, XI = CUR[b]
    p = 36*z**4 + 36*z**3 + 24*z**2 + 6*z + 1
def add(x, y): return ((x[0]+y[0]) % p, (x[1]+y[1]) % p)
def sub(x, y): return ((x[0]-y[0]) % p, (x[1]-y[1]) % p)
def neg(x): return (-x[0] % p, -x[1] % p)
def mul(x, y): return ((x[0]*y[0]-x[1]*y[1]) % p, (x[0]*y[1]+x[1]*y[0]) % p)
def inv(x):
    n = pow(x[0]*x[0]+x[1]*x[1], -1, p); return (x[0]*n % p, -x[1]*n % p)
Z = (0, 0); ONE = (1, 0)
# polynomials over Fp2, low degree first
def padd(a, b):
    n = max(len(a), len(b)); r = [add(a[i] if i < len(a) else Z, b[i] if i < len(b) else Z) for i in range(n)]
    return trim(r)
def trim(r):
    r = list(r)
    while r and r[-1] == Z: r.pop()
    return r
def pneg(a): return [neg(x) for x in a]
def pmul(a, b):
    if not a or not b: return []
    r = [Z]*(len(a)+len(b)-1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i+j] = add(r[i+j], mul(x, y))
    return trim(r)
def pmod(a, m):
    a = list(a); iv = inv(m[-1])
    while len(a) >= len(m):
        q = mul(a[-1], iv); k = len(a)-len(m)
        for i, y in enumerate(m): a[k+i] = sub(a[k+i], mul(q, y))
        a.pop()
    return trim(a)
def pdiv(a, m):
    a = list(a); iv = inv(m[-1]); q = [Z]*max(0, len(a)-len(m)+1)
    while len(a) >= len(m):
        t = mul(a[-1], iv); k = len(a)-len(m); q[k] = t
        for i, y in enumerate(m): a[k+i] = sub(a[k+i], mul(t, y))
        a.pop()
    return trim(q)
def pgcd(a, b):
    while b: a, b = b, pmod(a, b)
    return [mul(x, inv(a[-1])) for x in a] if a else a
def ppow(a, e, m):
    r = [ONE]
    for c in bin(e)[2:]:
        r = pmod(pmul(r, r), m)
        if c == '1': r = pmod(pmul(r, a), m)
    return r
def roots(f):
    f = trim(f)
    if len(f) <= 1: return []
    g = pgcd(f, padd(ppow([Z, ONE], p*p, f), [Z, neg(ONE)])) if len(f) > 2 else f
    out = []
    def split(g):
        if len(g) <= 1: return
        if len(g) == 2: out.append(neg(mul(g[0], inv(g[1])))); return
        while True:
            s = [(random.randrange(p), random.randrange(p)), ONE]
            h = pgcd(g, padd(ppow(s, (p*p-1)//2, g), [neg(ONE)]))
            if 1 < len(h) < len(g): split(h); split(pdiv(g, h)); return
    split(g); return out
# quadratic extension in c0: pairs (A, B) of polynomials in c1, c0^2 = S(c1)
def qadd(x, y): return (padd(x[0], y[0]), padd(x[1], y[1]))
def qneg(x): return (pneg(x[0]), pneg(x[1]))
def make(S):
    def qmul(x, y):
        return (padd(pmul(x[0], y[0]), pmul(S, pmul(x[1], y[1]))), padd(pmul(x[0], y[1]), pmul(x[1], y[0])))
    return qmul
def k(n): return (n % p, 0)
# Fp6 / Fp12 arithmetic for the final value
def m6(x, y):
    t = [Z]*5
    for i in range(3):
        for j in range(3): t[i+j] = add(t[i+j], mul(x[i], y[j]))
    return [add(t[0], mul(XI, t[3])), add(t[1], mul(XI, t[4])), t[2]]
def a6(x, y): return [add(i, j) for i, j in zip(x, y)]
def n6(x): return [neg(i) for i in x]
def i6(d):
    a = [sub(mul(d[0], d[0]), mul(XI, mul(d[1], d[2]))), sub(mul(XI, mul(d[2], d[2])), mul(d[0], d[1])), sub(mul(d[1], d[1]), mul(d[0], d[2]))]
    n = add(mul(d[0], a[0]), mul(XI, add(mul(d[1], a[2]), mul(d[2], a[1]))))
    v = inv(n); return [mul(x, v) for x in a]
V6 = [Z, ONE, Z]
def m12(x, y):
    a, b = x; c, d = y
    return (a6(m6(a, c), m6(V6, m6(b, d))), a6(m6(a, d), m6(b, c)))
def pow12(x, e):
    r = ([ONE, Z, Z], [Z, Z, Z])
    for ch in bin(e)[2:]:
        r = m12(r, r)
        if ch == '1': r = m12(r, x)
    return r
def find(which):
    while True:
        c2 = (random.randrange(p), random.randrange(p)) if random.random() < .7 else (random.randrange(p), 0)
        S = trim([mul(XI, k(-pow(3, -1, p))), mul(XI, c2)])
        q = make(S)
        C0 = ([], [ONE]); C1 = ([Z, ONE], []); C2 = ([c2], [])
        con = lambda v: ([v], [])
        X = con(XI)
        d0 = qadd(q(q(con(mul(k(3), XI)), C1), C2), con(mul(XI, k(-4*pow(3, -1, p)))))
        d1 = qadd(q(con(k(2)), q(C0, C1)), q(X, q(C2, C2)))
        d2 = qadd(q(C1, C1), q(con(k(2)), q(C0, C2)))
        A0 = qadd(q(d0, d0), qneg(q(X, q(d1, d2))))
        A1 = qadd(q(X, q(d2, d2)), qneg(q(d0, d1)))
        A2 = qadd(q(d1, d1), qneg(q(d0, d2)))
        e0 = qadd(q(C0, A0), q(X, qadd(q(C1, A2), q(C2, A1))))
        e1 = qadd(qadd(q(C0, A1), q(C1, A0)), q(X, q(C2, A2)))
        e2 = qadd(qadd(q(C0, A2), q(C1, A1)), q(C2, A0))
        t = {'g2': e2, 'g3': A2, 'g4': A1, 'g5': e1, 'g1': e0}[which]
        f = padd(pmul(t[0], t[0]), pneg(pmul(S, pmul(t[1], t[1]))))
        ev = lambda P, x: eval_(P, x)
        for c1 in roots(f):
            B = ev(t[1], c1)
            if B == Z: continue
            c0 = neg(mul(ev(t[0], c1), inv(B)))
            if mul(c0, c0) != ev(S, c1): continue
            c = [c0, c1, c2]
            cc = m6(c, c); xi6 = [XI, Z, Z]
            D = a6(cc, n6(xi6))
            Di = i6(D)
            even = m6(a6(cc, xi6), Di); odd = m6(m6([mul(k(2), y) for y in c], V6), Di)
            el = (even, odd)
            pos = {'g2': odd[0], 'g3': even[2], 'g4': even[1], 'g5': odd[2], 'g1': odd[1]}[which]
            if pos != Z: continue
            assert pow12(el, p**4 - p*p + 1) == ([ONE, Z, Z], [Z, Z, Z])
            return el
def eval_(P, x):
    r = Z
    for c in reversed(P): r = add(mul(r, x), c)
    return r
def main():
    random.seed(7)
    print("// generated by bin/gen_special.py: cyclotomic elements with a vanishing compressed coordinate")
    for b in (2, 3):  # no such element is found for 82 in reasonable time
        setup(b)
        els = []
        for w in ('g2', 'g5'):
            e = find(w); els.append(e)
            if w == 'g2':
                N = p**4 - p*p + 1
                for n in (1, 2, 55, 62): els.append(pow12(e, pow(pow(2, -1, N), n, N)))
        print("static const int nspecial_%d = %d;\nstatic const char *const special_%d[][12] = {" % (b, len(els), b))
        for e in els: print("\t{" + ", ".join('"%x","%x"' % c for h in e for c in h) + "},")
        print("};")
if __name__ == "__main__":
    main()
