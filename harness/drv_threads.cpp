// Threads working on their own registers.
//   drv_threads OUT stress THREADS STEPS REPEAT SEED B MODE MULX     threads run concurrently, every call many times
//   drv_threads OUT sched SEED B MODE MULX ITEM...                    ITEM = famA:famB:octile:cold, one preemption each
// OUT gets one trace per thread behind another; "th" events start the trace of a thread.
#define DRV_THREADS
#define DRV_FIELD_NO_MAIN
#include "drv_field.cpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <map>

// ---------------------------------------------------------------- repeated calls
static TLS int g_mode;     // 0: plain, 1: repeat, 2: stepped
static TLS int g_repeat;
static TLS bool g_once;    // the call reads a stream: not repeatable
static TLS MU g_first;
static TLS std::vector<Fp6> g_cfirst[3];
static TLS std::string g_xfirst;
static void rewindCall() { memcpy(&g_mem, &g_snap, sizeof(g_mem)); for (int i = 0; i < 3; i++) if (!(g_c[i].empty() && g_csnap[i].empty())) g_c[i] = g_csnap[i]; g_extra.clear(); }
static void keepFirst() { memcpy(&g_first, &g_mem, sizeof(g_mem)); for (int i = 0; i < 3; i++) g_cfirst[i] = g_c[i]; g_xfirst = g_extra; }
static bool sameAsFirst()
{
	if (memcmp(&g_first, &g_mem, sizeof(g_mem)) || g_extra != g_xfirst) return false;
	for (int i = 0; i < 3; i++) if (g_c[i].size() != g_cfirst[i].size() || (g_c[i].size() && memcmp(&g_c[i][0], &g_cfirst[i][0], sizeof(Fp6) * g_c[i].size()))) return false;
	return true;
}
// the first outcome is recorded as a call whose effect is undone, the other one follows
static void emitFirst()
{
	MU *t = new MU;
	std::vector<Fp6> c[3];
	Str x = g_extra;
	memcpy(t, &g_mem, sizeof(g_mem)); memcpy(&g_mem, &g_first, sizeof(g_mem));
	for (int i = 0; i < 3; i++) { c[i] = g_c[i]; g_c[i] = g_cfirst[i]; }
	g_extra = g_xfirst;
	emitCall(",\"undo\":1");
	memcpy(&g_mem, t, sizeof(g_mem));
	for (int i = 0; i < 3; i++) g_c[i] = c[i];
	g_extra = x;
	delete t;
}
// ---------------------------------------------------------------- preemption at a chosen instruction
static std::atomic<int> g_req(0), g_ack(0);
static std::atomic<int> g_famB(0);
static TLS volatile long g_cnt, g_at, g_cap;
static uint64_t nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static long g_preempted, g_timeouts;
static void preempt()
{
	int r = g_req.load() + 1;
	g_req.store(r);
	uint64_t end = nowNs() + 30000000ull;
	while (g_ack.load() != r) { sched_yield(); if (nowNs() > end) { g_timeouts++; break; } } // the other thread may be blocked by this one: go on
	g_preempted++;
}
static void onStep(int, siginfo_t *, void *u)
{
	long c = ++g_cnt;
	if (c == g_at) preempt();
	if (c >= g_cap || c >= g_at) ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static inline __attribute__((always_inline)) void stepOn() { __asm__ volatile("lea -128(%%rsp),%%rsp\npushfq\norq $0x100,(%%rsp)\npopfq\nlea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void stepOff() { __asm__ volatile("lea -128(%%rsp),%%rsp\npushfq\nandq $~0x100,(%%rsp)\npopfq\nlea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static TLS int g_octile;
static TLS bool g_cold;
enum { CAP = 40000 };
template<class F> static __attribute__((noinline)) void stepped(F& f, long at)
{
	g_cnt = 0; g_at = at; g_cap = CAP;
	stepOn();
	f();
	stepOff();
	int r = g_req.load();
	uint64_t end = nowNs() + 60000000000ull;
	while (g_ack.load() != r) { sched_yield(); if (nowNs() > end) { sayLast("driver: the other thread never came back from "); _exit(78); } }
}
template<class F> static void runCall(F& f)
{
	if (g_mode == 0 || g_once) { f(); return; }
	if (g_mode == 1) {
		f();
		keepFirst();
		int n = g_repeat;
		for (int i = 0; i < n; i++) {
			rewindCall();
			f();
			if (!sameAsFirst()) { emitFirst(); return; }
		}
		return;
	}
	if (g_cold) { // the first call of its kind in this process
		long at = 1 + g_rng.below(1 + (1u << g_rng.below(13)));
		stepped(f, at);
		return;
	}
	f();
	keepFirst();
	rewindCall();
	stepped(f, CAP + 1);
	if (!sameAsFirst()) { emitFirst(); return; }
	long n = g_cnt;
	for (int i = 0; i < 2; i++) {
		rewindCall();
		stepped(f, 1 + n * g_octile / 8 + (long)(g_rng.next() % (1 + n / 8)));
		if (!sameAsFirst()) { emitFirst(); return; }
	}
}
// ---------------------------------------------------------------- inputs shared for reading
static Ec1 s_P; static Ec2 s_Q; static Fp12 s_E; static std::vector<Fp6> s_C;
static std::vector<Str> s_ld; // events that tell a trace of the shared registers
static void makeShared()
{
	MU *z = &g_mem; (void)z;
	loadPoint('p', 0, pickPoint('p', false), 0, true); loadPoint('q', 0, pickPoint('q', false), 0, true); loadField('t', 0);
	s_P = M.p[0].v; s_Q = M.q[0].v; s_E = M.t[0].v;
	Fp2 dummy[3];
	components::precomputeG2(s_C, dummy, s_Q.p);
	const char *names[] = { "p", "q", "t" };
	for (size_t j = 0; j < g_desc.size(); j++) for (int k = 0; k < 3; k++)
		if (g_desc[j].type == names[k][0] && g_desc[j].idx == 0)
			s_ld.push_back("{\"o\":\"ld\",\"d\":\"" + Str(names[k]) + "sh\",\"s\":[],\"w\":[[\"" + names[k] + "sh\",\"" + names[k] + "\"," + regVal(g_desc[j]) + "]],\"fm\":0}");
	s_ld.push_back("{\"o\":\"tab\",\"d\":\"csh\",\"s\":[\"qsh\"],\"w\":[],\"fm\":0}");
}
static void opShared()
{
	int p = idx('p'), q = idx('q'), d = idx('t');
	g_form = 0;
	switch (g_rng.below(7)) {
	case 0: rec("e.ec", nm('t', d), { "qsh", "psh" }, [&] { opt_atePairing(M.t[d].v, s_Q, s_P); }); break;
	case 1: rec("e.mil", nm('t', d), { "csh", "psh" }, [&] { components::millerLoop(M.t[d].v, s_C, s_P.p); }); break;
	case 2: { mpz_class k = genScalar(256); Vuint v = toVuint(k); rec("P.mul", nm('p', p), { "psh" }, [&] { outI("i", mpzHex(k)); Ec1::mul(M.p[p].v, s_P, v); }); break; }
	case 3: { mpz_class k = genScalar(256); Vuint v = toVuint(k); rec("Q.mul", nm('q', q), { "qsh" }, [&] { outI("i", mpzHex(k)); Ec2::mul(M.q[q].v, s_Q, v); }); g_ordR[q] = true; break; }
	case 4: rec("t.mul", nm('t', d), { nm('t', d), "tsh" }, [&] { Fp12::mul(M.t[d].v, M.t[d].v, s_E); }); g_cyc[d] = false; break;
	case 5: rec("P.add", nm('p', p), { nm('p', p), "psh" }, [&] { Ec1::add(M.p[p].v, M.p[p].v, s_P); }); break;
	default: rec("Q.add", nm('q', q), { nm('q', q), "qsh" }, [&] { Ec2::add(M.q[q].v, M.q[q].v, s_Q); }); break;
	}
}
enum { NFAM = 16 };
static void family(int k)
{
	g_once = false;
	int rep = g_repeat;
	static TLS int last;
	if (k == 6 && last != 6) for (int i = 0; i < NT; i++) g_cyc[i] = false; // the others do not keep track
	last = k;
	switch (k) {
	case 0: if (g_rng.chance(85)) opFp(); else opFpNC(); break;
	case 1: opDbl(); break;
	case 2: opDbl2(); break;
	case 3: opFp2(); break;
	case 4: opFp6(); break;
	case 5: opFp12(); break;
	case 6: opCyc(); break;
	case 7: opG1(); break;
	case 8: opG2(); break;
	case 9: if (g_rng.chance(50)) opValid<Ec1>(); else opValid<Ec2>(); break;
	case 10: opLine(); break;
	case 11: g_repeat = (rep + 9) / 10; if (g_rng.chance(50)) opScalar<Ec1>(); else opScalar<Ec2>(); break;
	case 12: g_repeat = (rep + 9) / 10; opPower(); break;
	case 13:
		g_once = true;
		opText();
		// the texts may have been of anything
		for (int i = 0; i < NT; i++) g_cyc[i] = false;
		for (int i = 0; i < NP; i++) loadPoint('p', i, pickPoint('p'));
		for (int i = 0; i < NQ; i++) loadPoint('q', i, pickPoint('q'));
		break;
	case 14: g_repeat = (rep + 19) / 20; opPairing(); if (g_rng.chance(30)) opFinalExp(); break;
	default: g_repeat = (rep + 19) / 20; opShared(); break;
	}
	g_once = false;
	g_repeat = rep;
}
static void startThreadTrace(const Str& file, uint64_t seed, int b)
{
	openTrace(file.c_str());
	emit("{\"o\":\"th\",\"d\":\"\",\"s\":[],\"w\":[],\"fm\":0}");
	for (auto& e : s_ld) emit(e);
	runField("fp", seed, 0, b);
	g_rng = Rng(seed * 31 + 7);
}
static int g_curve;
struct Job { int id, steps, repeat; uint64_t seed; Str file; int fam0; };
static pthread_barrier_t g_bar;
static void *stressThread(void *a)
{
	Job& j = *(Job*)a;
	startThreadTrace(j.file, j.seed + j.id, g_curve);
	g_mode = 1; g_repeat = j.repeat;
	uint64_t limit = g_events + j.steps;
	pthread_barrier_wait(&g_bar);
	while (g_events < limit) { // all threads are in the same family at about the same time
		int fam = (int)((limit - g_events) / 12 + j.fam0) % NFAM;
		family(g_rng.chance(80) ? fam : (int)g_rng.below(NFAM));
	}
	closeTrace();
	return 0;
}
static std::atomic<bool> g_quit(false);
static void *otherThread(void *a)
{
	Job& j = *(Job*)a;
	startThreadTrace(j.file, j.seed + 1000, g_curve);
	g_mode = 0;
	pthread_barrier_wait(&g_bar);
	int seen = 0;
	while (!g_quit.load()) {
		int r = g_req.load();
		if (r == seen) { sched_yield(); continue; }
		seen = r;
		uint64_t e = g_events;
		for (int i = 0; i < 3 || (g_events < e + 2 && i < 9); i++) family(g_famB.load());
		g_ack.store(r);
	}
	closeTrace();
	return 0;
}
static void appendFile(FILE *o, const Str& f)
{
	FILE *i = fopen(f.c_str(), "r");
	if (!i) exit(3);
	static char buf[1 << 16];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), i)) > 0) fwrite(buf, 1, n, o);
	fclose(i);
	unlink(f.c_str());
}
struct Item { int a, b, oct, cold; };
// one process: thread A runs its calls stepped, thread B runs its own whenever A is preempted
static void schedule(const Str& file, uint64_t seed, const std::vector<Item>& items)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = onStep;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGTRAP, &sa, 0);
	pthread_barrier_init(&g_bar, 0, 2);
	Job jb = { 1, 0, 0, seed, file + ".B", 0 };
	pthread_t tb;
	pthread_create(&tb, 0, otherThread, &jb);
	startThreadTrace(file + ".A", seed, g_curve);
	pthread_barrier_wait(&g_bar);
	for (const Item& it : items) {
		g_mode = 2; g_octile = it.oct; g_cold = it.cold != 0; g_famB.store(it.b);
		for (int i = 0; i < (it.cold ? 1 : 2); i++) family(it.a);
	}
	g_quit.store(true);
	closeTrace();
	pthread_join(tb, 0);
	fprintf(stderr, "preempted %ld timeouts %ld\n", g_preempted, g_timeouts);
}
static void init(int b, int mode, bool mulx)
{
	g_curve = b;
#ifdef BN_SUPPORT_SNARK
	Param::init(b == 82 ? CurveSNARK2 : CurveSNARK1, mode == 2 ? -1 : mode, mulx);
#else
	Param::init(CurveFp254BNb, mode == 2 ? -1 : mode, mulx);
#endif
	if (mode == 2) usePortable();
}
int main(int argc, char **argv)
{
	if (argc < 7) return 3;
	Str out = argv[1], kind = argv[2];
	bool stress = kind == "stress";
	char **v = argv + (stress ? 6 : 3);
	if (stress && argc < 10) return 3;
	uint64_t seed = strtoull(v[0], 0, 10);
	init(atoi(v[1]), atoi(v[2]), atoi(v[3]) != 0);
	openTrace("/dev/null");
	runField("fp", seed + 99, 0, g_curve);
	Zr::setModulo(toVuint(ORD_));
	FILE *o = fopen(out.c_str(), "w");
	if (!o) return 3;
	if (stress) {
		makeShared();
		closeTrace();
		int n = atoi(argv[3]);
		std::vector<Job> jobs(n);
		std::vector<pthread_t> th(n);
		pthread_barrier_init(&g_bar, 0, n);
		for (int i = 0; i < n; i++) { Job j = { i, atoi(argv[4]), atoi(argv[5]), seed * 100, out + fmt(".%d", i), (int)(seed * 5 % NFAM) }; jobs[i] = j; }
		for (int i = 0; i < n; i++) pthread_create(&th[i], 0, stressThread, &jobs[i]);
		for (int i = 0; i < n; i++) pthread_join(th[i], 0);
		for (int i = 0; i < n; i++) appendFile(o, jobs[i].file);
	} else {
		std::vector<std::vector<Item> > groups; // warm items together, each cold item in a process of its own
		std::vector<Item> warm;
		bool anyCold = false;
		for (char **a = v + 4; *a; a++) {
			Item it;
			if (sscanf(*a, "%d:%d:%d:%d", &it.a, &it.b, &it.oct, &it.cold) != 4) return 3;
			if (it.cold) { groups.push_back(std::vector<Item>(1, it)); anyCold = true; } else warm.push_back(it);
		}
		if (!warm.empty()) groups.push_back(warm);
		if (!anyCold) makeShared(); // makes library calls
		else s_ld.clear();
		closeTrace();
		for (size_t i = 0; i < groups.size(); i++) {
			if (groups[i][0].cold == 0 && s_ld.empty()) { openTrace("/dev/null"); makeShared(); closeTrace(); }
			fflush(0);
			pid_t p = fork();
			if (p == 0) { alarm(120); schedule(out + fmt(".%d", (int)i), seed * 100 + i, groups[i]); _exit(0); }
			int st;
			waitpid(p, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "schedule %d:%d:%d:%d ended with status %x\n", groups[i][0].a, groups[i][0].b, groups[i][0].oct, groups[i][0].cold, st); return 4; }
			appendFile(o, out + fmt(".%d.A", (int)i));
			appendFile(o, out + fmt(".%d.B", (int)i));
		}
	}
	fclose(o);
	return 0;
}
