// Shared by all drivers: seeded randomness, biased values, trace output.
#pragma once
#include <gmpxx.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { s[0] = seed * 0x9E3779B97F4A7C15ull + 1; s[1] = seed ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 20; i++) next(); }
	uint64_t next()
	{
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
		return s[1] + b;
	}
	uint32_t below(uint32_t n) { return (uint32_t)((next() >> 11) % n); }
	bool chance(int percent) { return (int)below(100) < percent; }
};

#ifdef DRV_THREADS
#define TLS thread_local
#else
#define TLS
#endif
static TLS Rng g_rng;
static TLS FILE *g_out;
static TLS uint64_t g_events;

static TLS char g_lastOp[64] = "start";
static inline void setLastOp(const char *o) { strncpy(g_lastOp, o, sizeof(g_lastOp) - 1); }
static inline void sayLast(const char *msg)
{
	ssize_t r = write(2, msg, strlen(msg));
	r = write(2, g_lastOp, strlen(g_lastOp));
	r = write(2, "\n", 1);
	(void)r;
}
static void onAlarm(int)
{
	sayLast("driver: a library call did not return in time: ");
	_exit(77);
}
static void onCrash(int s)
{
	sayLast("driver: the process was killed by a signal inside ");
	signal(s, SIG_DFL);
	raise(s);
}

static inline void openTrace(const char *path)
{
	g_out = path && strcmp(path, "-") ? fopen(path, "w") : stdout;
	if (!g_out) { perror(path); exit(3); }
	setvbuf(g_out, 0, _IOFBF, 1 << 20);
	signal(SIGALRM, onAlarm);
	signal(SIGSEGV, onCrash); signal(SIGFPE, onCrash); signal(SIGILL, onCrash); signal(SIGBUS, onCrash); signal(SIGABRT, onCrash);
	alarm(120);
}
static inline void flushTrace() { fflush(g_out); }
static inline void closeTrace() { fclose(g_out); }

typedef std::string Str;
static inline Str fmt(const char *f, ...)
{
	char buf[512];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	return buf;
}
// limbs (least significant first) -> lower-case hex
static inline Str hexLimbs(const uint64_t *x, size_t n)
{
	while (n > 0 && x[n - 1] == 0) n--;
	if (n == 0) return "0";
	char buf[32];
	snprintf(buf, sizeof(buf), "%llx", (unsigned long long)x[n - 1]);
	Str s = buf;
	for (size_t i = n - 1; i-- > 0;) {
		snprintf(buf, sizeof(buf), "%016llx", (unsigned long long)x[i]);
		s += buf;
	}
	return s;
}
static inline Str q(const Str& s) { return "\"" + s + "\""; }
// arbitrary bytes as a JSON-safe string of hex pairs
static inline Str bytesHex(const Str& s)
{
	static const char *h = "0123456789abcdef";
	Str r;
	for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; r += h[c >> 4]; r += h[c & 15]; }
	return r;
}
static inline Str jsonStr(const Str& s)
{
	Str r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
		else r += c;
	}
	return r + "\"";
}
static TLS bool g_mute;
static TLS bool g_digestOnly; // no trace: only a digest of it
static TLS uint64_t g_digest;
static inline void emit(const Str& line)
{
	if (g_mute) return;
	if (g_digestOnly) {
		for (size_t i = 0; i < line.size(); i += 8) {
			uint64_t v = 0;
			memcpy(&v, line.data() + i, line.size() - i < 8 ? line.size() - i : 8);
			g_digest = (g_digest ^ v) * 0x9E3779B97F4A7C15ull;
			g_digest ^= g_digest >> 29;
		}
	} else {
		fputs(line.c_str(), g_out);
		fputc('\n', g_out);
	}
	g_events++;
	if ((g_events & 255) == 0) alarm(120);
}
static inline Str mpzHex(const mpz_class& x) { return x.get_str(16); }

// biased 64-bit word
static inline uint64_t edgeWord(uint64_t ref = 0)
{
	switch (g_rng.below(12)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return ~0ull;
	case 3: return 1ull << 63;
	case 4: return (1ull << 63) - 1;
	case 5: return ref;
	case 6: return ref + 1;
	case 7: return ref - 1;
	case 8: return ~ref;
	case 9: return 1ull << g_rng.below(64);
	case 10: return (1ull << g_rng.below(64)) - 1;
	default: return g_rng.next();
	}
}
static inline mpz_class mpzOfLimbs(const uint64_t *x, size_t n)
{
	mpz_class r;
	mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, x);
	return r;
}
static inline void limbsOfMpz(uint64_t *x, size_t n, const mpz_class& v)
{
	memset(x, 0, 8 * n);
	size_t c;
	if (mpz_sizeinbase(v.get_mpz_t(), 2) > 64 * n) { fprintf(stderr, "limbsOfMpz overflow\n"); exit(3); }
	mpz_export(x, &c, -1, 8, 0, 0, v.get_mpz_t());
}
static inline mpz_class rndMpzBits(unsigned bits)
{
	mpz_class r = 0;
	for (unsigned i = 0; i < bits; i += 64) r = (r << 64) + mpz_class((unsigned long)g_rng.next());
	r >>= (bits % 64 ? 64 - bits % 64 : 0);
	return r;
}
static inline mpz_class modp(const mpz_class& x, const mpz_class& p)
{
	mpz_class r;
	mpz_mod(r.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t());
	return r;
}
static inline mpz_class powm(const mpz_class& b, const mpz_class& e, const mpz_class& p)
{
	mpz_class r;
	mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
	return r;
}
static inline mpz_class invm(const mpz_class& b, const mpz_class& p)
{
	mpz_class r;
	if (!mpz_invert(r.get_mpz_t(), b.get_mpz_t(), p.get_mpz_t())) return 0;
	return r;
}
