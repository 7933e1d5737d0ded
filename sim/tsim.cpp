// Deterministic simulation of concurrent use.  The hashers are compiled with
// the compiler's thread instrumentation, but the run-time behind it is this
// file: every memory access of the library is a possible preemption point and
// an input of a vector-clock race detector.  Real threads are parked and
// released one at a time; the plan says after how many accesses the processor
// moves on and to whom.  In nested mode the "other thread" runs on top of the
// interrupted operation, as a signal handler would.
#include "ops.h"
#include "rng.h"
#include "../ref/ref.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using ref::Bytes;
typedef unsigned long uptr;
static const int MAXT = 4, MAIN = 4, NT = 5;

// ------------------------------------------------------------------ plan
enum Kind { K_NEW, K_FEED, K_FIN, K_READ, K_RESET, K_COPY, K_CASG, K_MOVE, K_DEL, K_EQ, K_SREAD, K_SCOPY, K_SEQ, K_XCHG, K_COUNT };
static const char *KN[K_COUNT] = {"new", "feed", "fin", "read", "reset", "copy", "casg", "move", "del", "eq", "sread", "scopy", "seq", "xchg"};
struct Op { int k = 0; uint64_t a = 0, s = 0, x = 0, y = 0, z = 0, w = 0; };
struct Sw { uint64_t n = 1, to = 0; };
struct Plan
{
	std::string profile;
	uint64_t nested = 0, fill = 0;
	bool hasShared = false; Op shared; uint64_t sharedFin = 1, sharedLen = 0;
	std::vector<Op> ops;
	std::vector<Sw> sw;
	std::string text() const
	{
		std::ostringstream o;
		o << "tsim 1\nprofile " << profile << "\nnested " << nested << "\nfill " << fill << "\n";
		if (hasShared) o << "shared x=" << shared.x << " y=" << shared.y << " z=" << shared.z << " w=" << shared.w << " fin=" << sharedFin << " len=" << sharedLen << "\n";
		for (const Op &p : ops) o << KN[p.k] << " a=" << p.a << " s=" << p.s << " x=" << p.x << " y=" << p.y << " z=" << p.z << " w=" << p.w << "\n";
		for (const Sw &s : sw) o << "sw n=" << s.n << " to=" << s.to << "\n";
		return o.str();
	}
	static Plan parse(std::istream &in)
	{
		Plan p;
		std::string line;
		while (std::getline(in, line))
		{
			std::istringstream l(line);
			std::string w;
			if (!(l >> w) || w[0] == '#' || w == "tsim") continue;
			if (w == "profile") { l >> p.profile; continue; }
			if (w == "nested") { l >> p.nested; continue; }
			if (w == "fill") { l >> p.fill; continue; }
			std::map<std::string, uint64_t> m;
			std::string kv;
			while (l >> kv) { const size_t e = kv.find('='); if (e != std::string::npos) m[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, nullptr, 10); }
			if (w == "sw") { Sw s; s.n = std::max<uint64_t>(1, m["n"]); s.to = m["to"]; p.sw.push_back(s); continue; }
			Op o; o.a = m["a"] % MAXT; o.s = m["s"] % 2; o.x = m["x"]; o.y = m["y"]; o.z = m["z"]; o.w = m["w"];
			if (w == "shared") { p.hasShared = true; p.shared = o; p.sharedFin = m["fin"]; p.sharedLen = m["len"] % 100000; continue; }
			bool ok = false;
			for (int i = 0; i < K_COUNT; ++i) if (w == KN[i]) { o.k = i; ok = true; }
			if (!ok) { fprintf(stderr, "bad plan line: %s\n", line.c_str()); exit(3); }
			p.ops.push_back(o);
		}
		return p;
	}
};

// ------------------------------------------------------------------ shared with the parent
struct Result { volatile int status; char cls[64]; char detail[1024]; uint64_t log; };
static const uint64_t MAPBITS = 1u << 23;
struct Shared
{
	Result r;
	uint64_t ops[K_COUNT], skipped, accesses, atomics, switches, midOp, nestedRuns, compared, algos[64], initGuards, locks, sharedGranules, deferred, interleaving, handed;
	uint8_t map[MAPBITS / 8];
};
static Shared *S;
static uint64_t g_log;
static void logv(uint64_t v) { g_log = mix64(g_log ^ v); }

// ------------------------------------------------------------------ scheduler
struct Th
{
	int futex = 0;
	bool exists = false, done = false, blocked = false;
	uint32_t vc[NT] = {};
	uptr lo = 0, hi = 0;        // own stack and thread-locals
	int op = -1, algo = 0;      // what it is doing (for reports and coverage)
	uint64_t opAccess = 0;
	pthread_t handle;
};
static Th g_th[NT];
static __thread int t_me = MAIN;
static __thread bool t_sim = false;      // inside simulator code: accesses are not the library's
static volatile bool g_active = false;
static bool g_nested = false;
static int g_cur = MAIN, g_depth = 0, g_critical = 0;
static long g_budget = LONG_MAX;
static const Plan *g_plan;
static size_t g_next = 0;
static const long QUANTUM = 200000;

[[noreturn]] static void violation(const char *cls, const std::string &detail)
{
	g_active = false;
	snprintf(S->r.cls, sizeof(S->r.cls), "%s", cls);
	snprintf(S->r.detail, sizeof(S->r.detail), "%s", detail.c_str());
	logv(hashStr(cls));
	S->r.log = g_log;
	S->r.status = 2;
	_exit(0);
}
static void fwait(int *f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void describe(std::ostringstream &o, int t)
{
	o << "thread " << t << " in ";
	if (g_th[t].op >= 0) o << KN[g_th[t].op] << " of " << ref::algoName(g_th[t].algo); else o << "no operation";
}
static void handoff(int to)
{
	const int me = g_cur;
	if (to == me) return;
	S->switches++;
	g_cur = to;
	fwake(&g_th[to].futex);
	fwait(&g_th[me].futex);
}
static int pick(uint64_t to)
{
	int run[MAXT], n = 0;
	for (int i = 0; i < MAXT; ++i) if (g_th[i].exists && !g_th[i].done && !g_th[i].blocked) run[n++] = i;
	if (!n) return -1;
	return run[to % uint64_t(n)];
}
static void nextBudget()
{
	if (g_next < g_plan->sw.size()) g_budget = long(std::min<uint64_t>(g_plan->sw[g_next].n, 1u << 30));
	else g_budget = g_nested ? LONG_MAX : QUANTUM;
}
static void noteSwitch(int from, int to)
{
	auto lg = [](uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; };
	uint64_t k = uint64_t(g_th[from].algo) | uint64_t(g_th[from].op + 1) << 8 | std::min<uint64_t>(g_th[from].opAccess, 4095) << 16 | uint64_t(g_th[to].algo) << 32 | uint64_t(g_th[to].op + 1) << 40 | uint64_t(lg(g_th[to].opAccess)) << 48 | uint64_t(g_nested) << 60;
	S->interleaving = mix64(S->interleaving ^ k);
	k = mix64(k) % MAPBITS;
	S->map[k / 8] |= uint8_t(1 << (k % 8));
	logv(uint64_t(from) << 56 ^ uint64_t(to) << 48 ^ g_th[from].opAccess);
}
static void runNested(int actor);
// the budget ran out inside the library: somebody else gets the processor
static void preempt()
{
	t_sim = true;
	uint64_t to = uint64_t(g_cur) + 1;
	const bool planned = g_next < g_plan->sw.size();
	if (g_nested)
	{
		if (g_critical > 0 || g_depth >= 2) { g_budget = 1; S->deferred++; t_sim = false; return; }
		if (planned) { to = g_plan->sw[g_next].to; ++g_next; }
		nextBudget();
		runNested(int(to));
		t_sim = false;
		return;
	}
	if (planned) { to = g_plan->sw[g_next].to; ++g_next; }
	nextBudget();
	const int t = pick(to);
	if (t >= 0 && t != g_cur)
	{
		noteSwitch(g_cur, t);
		if (g_th[g_cur].op >= 0 && g_th[g_cur].opAccess) S->midOp++;
		handoff(t);
	}
	t_sim = false;
}
static inline void point()
{
	g_th[g_cur].opAccess++;
	S->accesses++;
	if (--g_budget <= 0) preempt();
}
static void finishThread(int me)
{
	g_th[me].done = true;
	const int t = pick(uint64_t(me));
	if (t < 0)
	{
		for (int i = 0; i < MAXT; ++i) if (g_th[i].exists && !g_th[i].done) violation("deadlock", "every remaining thread waits for another one");
		g_cur = MAIN; fwake(&g_th[MAIN].futex);
		return;
	}
	logv(uint64_t(t) + 77);
	g_cur = t;
	fwake(&g_th[t].futex);
}
static void blockMe(const char *what)
{
	// caller re-checks its condition afterwards
	const int me = g_cur;
	g_th[me].blocked = true;
	const int t = pick(uint64_t(me) + 1);
	if (t < 0) { std::ostringstream o; describe(o, me); violation("deadlock", o.str() + " waits for " + what + " for ever"); }
	logv(uint64_t(t) + 99);
	handoff(t);
}
static void unblockAll() { for (auto &t : g_th) t.blocked = false; }

// ------------------------------------------------------------------ happens-before
struct SyncVar { const void *addr; uint32_t vc[NT]; int owner; int count; int readers; bool done, running; };
static SyncVar g_sync[512];
static SyncVar *syncOf(const volatile void *a)
{
	uint64_t h = mix64((uint64_t)(uptr)a) % 512;
	for (int i = 0; i < 512; ++i, h = (h + 1) % 512)
	{
		if (g_sync[h].addr == (const void *)a) return &g_sync[h];
		if (!g_sync[h].addr) { g_sync[h].addr = (const void *)a; g_sync[h].owner = -1; return &g_sync[h]; }
	}
	static SyncVar spill; spill.owner = -1; return &spill;
}
static void acquire(SyncVar *s) { for (int i = 0; i < NT; ++i) g_th[g_cur].vc[i] = std::max(g_th[g_cur].vc[i], s->vc[i]); }
static void release(SyncVar *s) { for (int i = 0; i < NT; ++i) s->vc[i] = std::max(s->vc[i], g_th[g_cur].vc[i]); g_th[g_cur].vc[g_cur]++; }

// ------------------------------------------------------------------ shadow memory
struct Cell { uptr key; uint32_t epoch; uint32_t wclk; int8_t wtid; uint8_t wmask; uint8_t rmask[NT]; uint32_t rclk[NT]; };
static const size_t CELLS = 1u << 17;
static Cell *g_cells;
static uint32_t g_epoch = 0;
static uptr g_roLo[8], g_roHi[8]; static int g_roN = 0;
static uint8_t *g_arena; static size_t g_arenaSize;

static Cell *cell(uptr g, bool create)
{
	size_t h = mix64(g) % CELLS;
	for (size_t i = 0; i < 64; ++i, h = (h + 1) % CELLS)
	{
		Cell &c = g_cells[h];
		if (c.epoch != g_epoch) { if (!create) return nullptr; memset(&c, 0, sizeof(c)); c.epoch = g_epoch; c.key = g; c.wtid = -1; return &c; }
		if (c.key == g) return &c;
	}
	return nullptr;
}
static void forget(const void *p, size_t n)
{
	if (!g_active || g_nested) return;
	for (uptr g = (uptr)p >> 3; g <= ((uptr)p + (n ? n - 1 : 0)) >> 3; ++g)
		if (Cell *c = cell(g, false)) { c->wtid = -1; c->wmask = 0; memset(c->rmask, 0, sizeof(c->rmask)); }
}
static std::string where(uptr a);
static void race(uptr a, int other, bool otherWrote, bool iWrite)
{
	std::ostringstream o;
	o << (iWrite ? "write" : "read") << " by "; describe(o, g_cur);
	o << " races with a " << (otherWrote ? "write" : "read") << " by "; describe(o, other);
	o << " at " << where(a);
	violation("data-race", o.str());
}
static void track(uptr a, size_t n, bool w)
{
	const int me = g_cur;
	if (a >= g_th[me].lo && a < g_th[me].hi) return;
	for (int i = 0; i < g_roN; ++i) if (a >= g_roLo[i] && a < g_roHi[i]) return;
	for (uptr p = a; p < a + n;)
	{
		const uptr g = p >> 3, e = std::min<uptr>((g + 1) << 3, a + n);
		const uint8_t mask = uint8_t(((1u << (e - p)) - 1) << (p & 7));
		Cell *c = cell(g, true);
		if (!c) { p = e; continue; }
		if (c->wtid >= 0 && c->wtid != me && (c->wmask & mask) && c->wclk > g_th[me].vc[int(c->wtid)]) race(p, c->wtid, true, w);
		if (w)
		{
			for (int t = 0; t < NT; ++t)
				if (t != me && (c->rmask[t] & mask) && c->rclk[t] > g_th[me].vc[t]) race(p, t, false, true);
			if (c->wtid == me && c->wclk == g_th[me].vc[me]) c->wmask |= mask;
			else { c->wtid = int8_t(me); c->wclk = g_th[me].vc[me]; c->wmask = mask; }
		}
		else
		{
			if (c->rclk[me] == g_th[me].vc[me]) c->rmask[me] |= mask;
			else { c->rclk[me] = g_th[me].vc[me]; c->rmask[me] = mask; }
		}
		p = e;
	}
}
static inline void access(void *a, size_t n, bool w)
{
	if (!g_active || t_sim) return;
	point();
	if (!g_nested) track((uptr)a, n, w);
}

// ------------------------------------------------------------------ instrumentation call-backs
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void *a) { access(a, N, false); } \
	void __tsan_write##N(void *a) { access(a, N, true); } \
	void __tsan_unaligned_read##N(void *a) { access(a, N, false); } \
	void __tsan_unaligned_write##N(void *a) { access(a, N, true); } \
	void __tsan_volatile_read##N(void *a) { access(a, N, false); } \
	void __tsan_volatile_write##N(void *a) { access(a, N, true); } \
	void __tsan_unaligned_volatile_read##N(void *a) { access(a, N, false); } \
	void __tsan_unaligned_volatile_write##N(void *a) { access(a, N, true); } \
	void __tsan_read_write##N(void *a) { access(a, N, false); access(a, N, true); } \
	void __tsan_unaligned_read_write##N(void *a) { access(a, N, false); access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void *a, uptr n) { if (n) access(a, n, false); }
void __tsan_write_range(void *a, uptr n) { if (n) access(a, n, true); }
void __tsan_vptr_update(void **v, void *) { access(v, 8, true); }
void __tsan_vptr_read(void **v) { access(v, 8, false); }
void *__tsan_memcpy(void *d, const void *s, uptr n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, uptr n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, uptr n) { if (n) access(d, n, true); return memset(d, v, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// atomics: executed one at a time, sequentially consistent values, ordering edges by memory order
static void atomicPoint() { if (g_active && !t_sim) { S->atomics++; point(); } }
static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void edges(const volatile void *a, int mo, bool ld, bool st)
{
	if (!g_active || t_sim || g_nested) return;
	SyncVar *s = syncOf(a);
	if (ld && isAcq(mo)) acquire(s);
	if (st && isRel(mo)) release(s);
	else if (st && !ld) memset(s->vc, 0, sizeof(s->vc));   // a relaxed store starts no release sequence
}
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *a, int mo) { atomicPoint(); edges(a, mo, true, false); return *a; } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, false, true); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(o & v); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(o | v); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(o ^ v); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { atomicPoint(); edges(a, mo, true, true); const T o = *a; *a = T(~(o & v)); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { atomicPoint(); if (*a == *c) { edges(a, mo, true, true); *a = v; return 1; } edges(a, fmo, true, false); *c = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#undef AT
void __tsan_atomic_thread_fence(int) { if (g_active && !t_sim && !g_nested) { static const char fence = 0; acquire(syncOf(&fence)); release(syncOf(&fence)); } }
void __tsan_atomic_signal_fence(int) {}

// function-local statics
int __cxa_guard_acquire(uint64_t *g)
{
	if (*(volatile uint8_t *)g) { if (g_active && !t_sim && !g_nested) acquire(syncOf(g)); return 0; }
	if (!g_active || t_sim) { ((uint8_t *)g)[1] = 1; return 1; }
	SyncVar *s = syncOf(g);
	S->initGuards++;
	point();
	while (s->owner >= 0)
	{
		if (s->owner == g_cur) violation("deadlock", "a function-local static is initialized recursively");
		blockMe("the initialization of a function-local static");
	}
	if (*(volatile uint8_t *)g) { acquire(s); return 0; }
	s->owner = g_cur;
	++g_critical;
	return 1;
}
void __cxa_guard_release(uint64_t *g)
{
	*(volatile uint8_t *)g = 1;
	if (!g_active || t_sim) return;
	SyncVar *s = syncOf(g);
	if (s->owner >= 0) { s->owner = -1; --g_critical; }
	release(s);
	unblockAll();
	point();
}
void __cxa_guard_abort(uint64_t *g)
{
	if (!g_active || t_sim) return;
	SyncVar *s = syncOf(g);
	if (s->owner >= 0) { s->owner = -1; --g_critical; }
	unblockAll();
}

// locks: simulated, so that a parked owner never blocks the process
static int lockIt(void *m, bool tryOnly, bool recursive)
{
	if (!g_active || t_sim) return 0;
	SyncVar *s = syncOf(m);
	S->locks++;
	point();
	while ((s->owner >= 0 && !(s->owner == g_cur && recursive)) || s->readers)
	{
		if (tryOnly) return EBUSY;
		if (s->owner == g_cur) violation("deadlock", "a thread locks a mutex it already holds");
		blockMe("a mutex");
	}
	s->owner = g_cur; s->count++;
	++g_critical;
	acquire(s);
	return 0;
}
static int unlockIt(void *m)
{
	if (!g_active || t_sim) return 0;
	SyncVar *s = syncOf(m);
	if (s->readers) { s->readers--; --g_critical; }
	else if (s->owner >= 0) { if (--s->count <= 0) { s->owner = -1; s->count = 0; } --g_critical; }
	release(s);
	unblockAll();
	point();
	return 0;
}
static bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t *m) { return lockIt(m, false, isRecursive(m)); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lockIt(m, true, isRecursive(m)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlockIt(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lockIt(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return lockIt(m, true, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
	if (!g_active || t_sim) return 0;
	SyncVar *s = syncOf(m);
	S->locks++;
	point();
	while (s->owner >= 0) { if (s->owner == g_cur) return EDEADLK; blockMe("a read-write lock"); }
	s->readers++; ++g_critical;
	acquire(s);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlockIt(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { return lockIt((void *)m, false, false); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return unlockIt((void *)m); }
int pthread_once(pthread_once_t *o, void (*f)(void))
{
	SyncVar *s = syncOf(o);
	if (!g_active || t_sim) { if (*o == 0) { *o = 2; f(); } return 0; }
	point();
	for (;;)
	{
		if (*o == 2) { acquire(s); return 0; }
		if (s->owner < 0) break;
		if (s->owner == g_cur) violation("deadlock", "call_once is entered recursively");
		blockMe("call_once");
	}
	s->owner = g_cur; ++g_critical;
	try { f(); } catch (...) { s->owner = -1; --g_critical; unblockAll(); throw; }
	*o = 2; s->owner = -1; --g_critical;
	release(s);
	unblockAll();
	return 0;
}
}

// ------------------------------------------------------------------ heap
static uint8_t g_heapFill = 0xa5;
static void *getMem(size_t n, size_t al)
{
	const bool sv = t_sim; t_sim = true;
	void *p = nullptr;
	if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1) != 0) p = nullptr;
	if (p) { forget(p, n); if (g_active && !sv) memset(p, g_heapFill, n); }
	t_sim = sv;
	return p;
}
void *operator new(size_t n) { void *p = getMem(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = getMem(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::align_val_t a) { void *p = getMem(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = getMem(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return getMem(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return getMem(n, 16); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

// ------------------------------------------------------------------ actors
static const size_t AREA = 65536;
enum State { EMPTY, LIVE, DONE, MOVED };
struct Slot { State st = EMPTY; const Ops *ops = nullptr; uint8_t *area = nullptr; void *obj = nullptr; ref::Spec spec; std::unique_ptr<ref::Model> model; };
struct Actor { int id = 0; Slot slot[3]; std::vector<Op> ops; size_t next = 0; uint8_t *buf = nullptr; bool busy = false; };
static Actor g_actor[MAXT];
static Slot g_shared;
static const int BOXES = 3;
static Slot g_box[BOXES];                // hashers on their way from one thread to another
static uint8_t *g_common;                // input bytes every actor may feed from
static const size_t BUF = 1 << 17, COMMON = 1 << 16;

static std::string where(uptr a)
{
	std::ostringstream o;
	auto in = [&](const Slot &s, const std::string &n) { if (s.obj && a >= (uptr)s.obj && a < (uptr)s.obj + s.ops->size) { o << n << " (" << s.ops->name << ") byte " << a - (uptr)s.obj; return true; } return false; };
	if (in(g_shared, "the shared hasher")) return o.str();
	for (auto &x : g_actor) for (int i = 0; i < 3; ++i) if (in(x.slot[i], "hasher " + std::to_string(i) + " of thread " + std::to_string(x.id))) return o.str();
	for (int i = 0; i < BOXES; ++i) if (in(g_box[i], "hasher on its way between threads")) return o.str();
	for (auto &x : g_actor) if (x.buf && a >= (uptr)x.buf && a < (uptr)x.buf + BUF) return "the input of thread " + std::to_string(x.id);
	if (a >= (uptr)g_common && a < (uptr)g_common + COMMON) return "input bytes both read";
	extern char edata, end, __data_start;
	if (a >= (uptr)&__data_start && a < (uptr)&end) return "static storage";
	(void)edata;
	for (int t = 0; t < NT; ++t) if (a >= g_th[t].lo && a < g_th[t].hi) return "the stack of thread " + std::to_string(t);
	return "heap or other memory";
}
struct Lib
{
	bool sv;
	Lib() : sv(t_sim) { t_sim = false; }
	~Lib() { t_sim = sv; }
};
template <typename F> static void lib(F f)
{
	try { Lib l; f(); }
	catch (const std::exception &e) { t_sim = true; std::ostringstream o; describe(o, g_cur); violation("unexpected-exception", o.str() + " threw " + e.what()); }
}
static ref::Spec specOf(const Op &o)
{
	ref::Spec sp;
	sp.algo = int(o.x % ref::ALGO_COUNT);
	auto mk = [&](uint64_t n, uint64_t sd) { Bytes b(n % 3000); fillContent(b.data(), b.size(), sd); return b; };
	if (ref::hasLen(sp.algo)) sp.digestLen = int(std::max<uint64_t>(1, o.y % 1000));
	if (sp.algo == ref::CSHAKE128 || sp.algo == ref::CSHAKE256) sp.name = mk(o.z & 0xffff, o.w * 3 + 11);
	if (ref::hasCustom(sp.algo)) sp.custom = mk(o.z >> 16, o.w * 5 + 13);
	if (sp.algo == ref::SIPHASH) sp.key = mk(16, o.w * 7 + 17);
	return sp;
}
static void place(Slot &s, const Ops *ops) { s.ops = ops; s.obj = s.area + 64; memset(s.area, int(g_plan->fill & 255), std::min(AREA, ops->size + 128)); forget(s.obj, ops->size); }
static bool create(Slot &s, const ref::Spec &sp)
{
	const Ops *ops = opsFor(sp.algo);
	if (ops->size + 128 > AREA) return false;
	place(s, ops);
	Params p;
	p.digestLen = sp.digestLen;
	p.name.assign(sp.name.begin(), sp.name.end()); p.custom.assign(sp.custom.begin(), sp.custom.end());
	uint8_t key[16] = {};
	if (!sp.key.empty()) { memcpy(key, sp.key.data(), 16); p.key = key; }
	lib([&] { ops->construct(s.obj, p); });
	s.spec = sp; s.model = ref::make(sp); s.st = LIVE;
	S->algos[sp.algo]++;
	return true;
}
static void drop(Slot &s) { if (s.st != EMPTY) { lib([&] { s.ops->destroy(s.obj); }); s.st = EMPTY; s.model.reset(); } }
static std::string name(const Slot &s) { std::ostringstream o; describe(o, g_cur); return std::string(s.ops->name) + " (" + o.str() + ")"; }
static void copySlot(Slot &d, Slot &s)
{
	if (&d == &s) return;
	drop(d);
	place(d, s.ops);
	// the source's meaning at this moment; const access only
	lib([&] { s.ops->copyCtor(d.obj, s.obj); });
	d.spec = s.spec; d.model = s.model->clone(); d.st = s.st;
}
static void readOut(Slot &s, int kind)
{
	const Bytes want = s.model->digest();
	S->compared++;
	auto bad = [&](const char *what, const std::string &got) { violation("digest-mismatch", std::string(what) + " of " + name(s) + " is " + got.substr(0, 120) + ", expected " + ref::hex(want).substr(0, 120)); };
	switch (kind)
	{
		default: case 1: { std::string r; lib([&] { r = s.ops->toString(s.obj); }); logv(hashStr(r.c_str())); if (r != ref::hex(want)) bad("hex readout", r); break; }
		case 2: { Bytes r; lib([&] { r = s.ops->toVector(s.obj); }); if (r != want) bad("vector readout", ref::hex(r)); break; }
		case 3: if (s.ops->hasArray) { uint8_t out[256]; size_t n = 0; lib([&] { n = s.ops->toArray(s.obj, out); }); if (Bytes(out, out + n) != want) bad("array readout", ref::hex(Bytes(out, out + n))); } break;
		case 4:
		{
			uint64_t got = 0, w = 0;
			lib([&] { got = s.ops->toInt(s.obj, 8); });
			for (size_t i = 0; i < 8 && i < want.size(); ++i) w = w << 8 | want[i];
			if (got != w) bad("integer readout", std::to_string(got));
			break;
		}
		case 5: { size_t h1 = 0, h2 = 0; lib([&] { h1 = s.ops->stdHash(s.obj); h2 = s.ops->stdHash(s.obj); }); if (h1 != h2) violation("unstable-readout", "std::hash of " + name(s) + " changed"); break; }
		case 6: { bool e = false, n = true; lib([&] { e = s.ops->equal(s.obj, s.obj); n = s.ops->notEqual(s.obj, s.obj); }); if (!e || n) violation("wrong-comparison", name(s) + " is not equal to itself"); break; }
	}
}
static void doOp(Actor &A, const Op &o)
{
	Slot &s = A.slot[o.s & 1], &t = A.slot[1 - (o.s & 1)], &tmp = A.slot[2];
	Th &th = g_th[g_cur];
	const int sop = th.op, salgo = th.algo; const uint64_t sacc = th.opAccess;
	th.op = o.k; th.opAccess = 0;
	th.algo = o.k == K_NEW ? int(o.x % ref::ALGO_COUNT) : (o.k == K_SREAD || o.k == K_SCOPY || o.k == K_SEQ) ? g_shared.spec.algo : s.st != EMPTY ? s.spec.algo : 0;
	bool did = true;
	switch (o.k)
	{
		case K_NEW: drop(s); did = create(s, specOf(o)); break;
		case K_FEED:
		{
			if (s.st != LIVE) { did = false; break; }
			size_t n = std::min<uint64_t>(o.y, BUF - 64);
			const bool common = o.z & 1;
			const int e = usableEntry(int(o.x % E_COUNT), n);
			const size_t al = entryAlign(e);
			const uint8_t *p;
			if (common) { n = std::min(n, COMMON - 64); if (usableEntry(e, n) != e) { did = false; break; } p = g_common + (o.w % 64) / al * al; }
			else { uint8_t *q = A.buf + (o.z >> 1) % 64 / al * al; fillContent(q, n, o.w); forget(q, n); p = q; }
			lib([&] { s.ops->feed(s.obj, e, p, n); });
			s.model->update(p, n);
			if (!common) memset((void *)p, 0x5a, n);
			break;
		}
		case K_FIN: if (s.st != LIVE) { did = false; break; } lib([&] { s.ops->finalize(s.obj); }); s.st = DONE; break;
		case K_READ: if (s.st != DONE) { did = false; break; } readOut(s, int(o.x % 7)); break;
		case K_RESET: if (s.st != LIVE && s.st != DONE) { did = false; break; } lib([&] { s.ops->reset(s.obj); }); s.model = ref::make(s.spec); s.st = LIVE; break;
		case K_COPY: if (t.st != LIVE && t.st != DONE) { did = false; break; } copySlot(s, t); break;
		case K_CASG:
			if ((t.st != LIVE && t.st != DONE) || s.st == EMPTY || s.ops != t.ops || !s.ops->copyAssign) { did = false; break; }
			lib([&] { s.ops->copyAssign(s.obj, t.obj); });
			s.spec = t.spec; s.model = t.model->clone(); s.st = t.st;
			break;
		case K_MOVE:
			if (t.st != LIVE && t.st != DONE) { did = false; break; }
			drop(s); place(s, t.ops);
			lib([&] { s.ops->moveCtor(s.obj, t.obj); });
			s.spec = t.spec; s.model = std::move(t.model); s.st = t.st; t.st = MOVED;
			break;
		case K_DEL: if (s.st == EMPTY) { did = false; break; } drop(s); break;
		case K_EQ:
		{
			if (s.st != DONE || t.st != DONE || s.ops != t.ops) { did = false; break; }
			bool e = false, n = false;
			lib([&] { e = s.ops->equal(s.obj, t.obj); n = s.ops->notEqual(s.obj, t.obj); });
			if (e == n) violation("wrong-comparison", "== and != of " + name(s) + " contradict each other");
			break;
		}
		case K_XCHG:
		{
			// the hasher goes to (and another may come from) another thread, through something that synchronises
			Slot &box = g_box[o.x % BOXES];
			if (s.st == EMPTY && box.st == EMPTY) { did = false; break; }
			if (g_active && !g_nested) { SyncVar *v = syncOf(&box); acquire(v); release(v); }
			std::swap(s, box);
			S->handed++;
			break;
		}
		case K_SREAD: if (g_shared.st != DONE) { did = false; break; } readOut(g_shared, int(o.x % 7)); break;
		case K_SCOPY:
		{
			if (g_shared.st == EMPTY) { did = false; break; }
			Slot &d = o.x & 1 ? tmp : s;
			copySlot(d, g_shared);
			if (&d == &tmp)
			{
				if (tmp.st == LIVE) { lib([&] { tmp.ops->finalize(tmp.obj); }); tmp.st = DONE; }
				readOut(tmp, 1);
				drop(tmp);
			}
			break;
		}
		case K_SEQ:
		{
			if (g_shared.st != DONE || s.st != DONE || s.ops != g_shared.ops) { did = false; break; }
			bool e = false, e2 = false;
			lib([&] { e = g_shared.ops->equal(g_shared.obj, s.obj); e2 = s.ops->equal(s.obj, g_shared.obj); });
			if (e != e2) violation("wrong-comparison", "comparison of the shared hasher is not symmetric");
			if (e && s.spec.digestLen == g_shared.spec.digestLen && s.model->digest() != g_shared.model->digest()) violation("wrong-comparison", "different digests compare equal");
			break;
		}
	}
	if (did) S->ops[o.k]++; else S->skipped++;
	logv(uint64_t(A.id) << 32 ^ uint64_t(o.k) << 8 ^ uint64_t(did));
	logv(th.opAccess);
	th.op = sop; th.algo = salgo; th.opAccess = sacc;
}
static void finishActor(Actor &A)
{
	for (int i = 0; i < 2; ++i)
	{
		Slot &s = A.slot[i];
		if (s.st == LIVE) { Op f; f.k = K_FIN; f.s = uint64_t(i); doOp(A, f); }
		if (s.st == DONE) { Op f; f.k = K_READ; f.s = uint64_t(i); f.x = 1; doOp(A, f); }
		drop(s);
	}
}
static bool threadSafeToNest(const Op &o, const Actor &A)
{
	// code that interrupts another operation must not use the heap
	const Slot &s = A.slot[o.s & 1];
	switch (o.k)
	{
		case K_NEW: return !opsFor(int(o.x % ref::ALGO_COUNT))->heap;
		case K_READ: return o.x % 7 >= 3 && s.st != EMPTY && !s.ops->heap;
		case K_FEED: return s.st == EMPTY || !s.ops->tuple;      // the Keccak hashers allocate, but not when fed
		case K_FIN: case K_RESET: case K_DEL: return s.st == EMPTY || !s.ops->heap;
		default: return false;
	}
}
static void runNested(int to)
{
	// one operation of another actor on top of the interrupted one
	for (int k = 0; k < MAXT; ++k)
	{
		Actor &B = g_actor[(to + k) % MAXT];
		if (B.id == 0 || B.busy || B.next >= B.ops.size()) continue;
		if (!threadSafeToNest(B.ops[B.next], B)) continue;
		S->nestedRuns++;
		S->switches++;
		S->midOp++;
		uint64_t key = uint64_t(g_th[g_cur].algo) | uint64_t(g_th[g_cur].op + 1) << 8 | std::min<uint64_t>(g_th[g_cur].opAccess, 65535) << 16 | uint64_t(B.ops[B.next].k) << 40 | 1ull << 60;
		S->interleaving = mix64(S->interleaving ^ key ^ uint64_t(B.id) << 50);
		key = mix64(key) % MAPBITS;
		S->map[key / 8] |= uint8_t(1 << (key % 8));
		logv(key);
		++g_depth; B.busy = true;
		const Op o = B.ops[B.next++];
		const bool sv = t_sim; t_sim = true;
		doOp(B, o);
		t_sim = sv;
		--g_depth; B.busy = false;
		return;
	}
}
static void *threadMain(void *p)
{
	Actor &A = *(Actor *)p;
	t_me = A.id; t_sim = true;
	fwait(&g_th[A.id].futex);
	for (; A.next < A.ops.size();) { const Op o = A.ops[A.next++]; doOp(A, o); }
	finishActor(A);
	finishThread(A.id);
	return nullptr;
}
static const size_t STACK = 512 << 10;
static uint8_t *g_stacks;
static void runPlan(const Plan &p)
{
	g_plan = &p; g_nested = p.nested; g_log = 0; g_epoch++;
	g_heapFill = uint8_t(p.fill >> 8);
	t_sim = true;
	memset(g_sync, 0, sizeof(g_sync));
	int n = 0;
	for (int i = 0; i < MAXT; ++i)
	{
		Actor &A = g_actor[i];
		A.id = i;
		for (int k = 0; k < 3; ++k) A.slot[k].area = g_arena + size_t(i * 3 + k) * AREA;
		A.buf = g_arena + 16 * AREA + size_t(i) * BUF;
	}
	g_shared.area = g_arena + 12 * AREA;
	for (int i = 0; i < BOXES; ++i) g_box[i].area = g_arena + size_t(13 + i) * AREA;
	for (const Op &o : p.ops) { g_actor[o.a].ops.push_back(o); n = std::max(n, int(o.a) + 1); }
	for (int i = 0; i < NT; ++i) { g_th[i].vc[i] = 1; }
	// what every thread inherits from here on happened before
	if (p.hasShared)
	{
		Op o = p.shared;
		create(g_shared, specOf(o));
		Bytes b(p.sharedLen); fillContent(b.data(), b.size(), o.w);
		if (g_shared.st == LIVE)
		{
			g_shared.ops->feed(g_shared.obj, E_VOID, b.data(), b.size()); g_shared.model->update(b.data(), b.size());
			if (p.sharedFin) { g_shared.ops->finalize(g_shared.obj); g_shared.st = DONE; }
		}
	}
	nextBudget();
	if (g_nested)
	{
		// what the interrupting code feeds may have been constructed before
		for (int i = 1; i < MAXT; ++i)
		{
			Actor &B = g_actor[i];
			while (B.next < B.ops.size() && B.ops[B.next].k == K_NEW && opsFor(int(B.ops[B.next].x % ref::ALGO_COUNT))->heap) { const Op o = B.ops[B.next++]; doOp(B, o); }
		}
		g_cur = MAIN;
		g_active = true;
		Actor &A = g_actor[0];
		for (; A.next < A.ops.size();) { const Op o = A.ops[A.next++]; doOp(A, o); }
		g_active = false;
		for (int i = 1; i < MAXT; ++i) for (; g_actor[i].next < g_actor[i].ops.size();) { const Op o = g_actor[i].ops[g_actor[i].next++]; doOp(g_actor[i], o); }
		for (auto &x : g_actor) finishActor(x);
	}
	else if (n)
	{
		for (int i = 0; i < n; ++i)
		{
			Th &t = g_th[i];
			t.exists = true;
			for (int k = 0; k < NT; ++k) t.vc[k] = std::max(t.vc[k], k == i ? 1u : g_th[k].vc[k] - (k == MAIN ? 0u : 1u));
			t.lo = (uptr)g_stacks + size_t(i) * (STACK + 65536); t.hi = t.lo + STACK;
			pthread_attr_t at;
			pthread_attr_init(&at);
			pthread_attr_setstack(&at, (void *)t.lo, STACK);
			if (pthread_create(&t.handle, &at, threadMain, &g_actor[i]) != 0) { perror("pthread_create"); _exit(3); }
		}
		g_active = true;
		g_cur = 0;
		fwake(&g_th[0].futex);
		fwait(&g_th[MAIN].futex);
		g_active = false;
		for (int i = 0; i < n; ++i) pthread_join(g_th[i].handle, nullptr);
	}
	g_cur = MAIN;
	// the shared hasher has survived everybody
	if (g_shared.st == LIVE) { lib([&] { g_shared.ops->finalize(g_shared.obj); }); g_shared.st = DONE; }
	if (g_shared.st == DONE) { readOut(g_shared, 1); drop(g_shared); }
	for (Slot &b : g_box)
	{
		if (b.st == LIVE) { lib([&] { b.ops->finalize(b.obj); }); b.st = DONE; }
		if (b.st == DONE) readOut(b, 1);
		drop(b);
	}
	S->r.log = g_log;
	S->r.status = 1;
}

// ------------------------------------------------------------------ plan generation
static Plan gen(const std::string &prof, uint64_t seed)
{
	Rng r(seed);
	Plan p;
	p.profile = prof;
	p.fill = r.next() & 0xffff;
	const bool c04 = prof == "C04";
	p.nested = !c04 && r.chance(25);
	const int n = p.nested ? int(r.range(2, 4)) : int(r.range(2, 3 + r.chance(30)));
	int pool[3];
	const int np = int(r.range(1, 2));
	const uint64_t boxes = p.nested || r.chance(50) ? 0 : r.range(1, BOXES);
	for (int i = 0; i < 3; ++i) do pool[i] = int(r.below(ref::ALGO_COUNT)); while (p.nested && i != 0 && opsFor(pool[i])->tuple);
	auto algo = [&](int actor) { return np == 1 ? ((p.nested && actor > 0 && opsFor(pool[0])->tuple) ? pool[1] : pool[0]) : p.nested && actor > 0 ? pool[1 + r.below(2)] : pool[r.below(2)]; };
	auto params = [&](Op &o) { o.y = r.chance(50) ? 32 : r.range(1, 200); o.z = (r.chance(40) ? 0 : r.below(40)) | (r.chance(40) ? 0 : r.below(40)) << 16; o.w = r.next(); };
	if (c04)
	{
		p.hasShared = true;
		p.shared.x = r.below(ref::ALGO_COUNT); params(p.shared);
		p.sharedFin = r.chance(80);
		p.sharedLen = r.chance(10) ? 0 : r.below(3 * uint64_t(ref::blockSize(int(p.shared.x))) + 40);
		pool[0] = int(p.shared.x);
	}
	for (int a = 0; a < n; ++a)
	{
		Op o; o.a = uint64_t(a);
		auto add = [&](int k, uint64_t s) { o.k = k; o.s = s; p.ops.push_back(o); o = Op(); o.a = uint64_t(a); };
		auto feed = [&](uint64_t s, int al)
		{
			const uint64_t B = std::max<uint64_t>(8, uint64_t(ref::blockSize(al)));
			o.x = r.chance(70) ? 0 : r.below(E_COUNT); o.y = r.chance(10) ? r.below(4 * B) : r.chance(20) ? B : r.below(2 * B); o.z = r.below(256); o.w = r.next();
			if (o.x) o.y = o.y / 8 * 8;
			add(K_FEED, s);
		};
		const int len = int(r.range(2, c04 ? 6 : 9));
		int al[2] = {0, 0};
		if (!c04 || r.chance(30)) { al[0] = algo(a); o.x = uint64_t(al[0]); params(o); add(K_NEW, 0); }
		// code that interrupts may only feed a hasher that allocates; so let it
		if (p.nested && a > 0 && opsFor(al[0])->heap) for (uint64_t i = r.range(2, 6); i; --i) feed(0, al[0]);
		for (int i = 0; i < len; ++i)
		{
			const uint64_t s = r.chance(80) ? 0 : 1;
			if (c04 && r.chance(70))
			{
				const uint64_t c = r.below(10);
				if (c < 5 && p.sharedFin) { o.x = r.below(7); add(K_SREAD, s); }
				else if (c < 8) { o.x = r.below(2); al[s] = pool[0]; add(K_SCOPY, s); }
				else { add(K_FIN, s); add(K_SEQ, s); }
				continue;
			}
			switch (r.below(boxes ? 13 : 12))
			{
				case 0: al[s] = algo(a); o.x = uint64_t(al[s]); params(o); add(K_NEW, s); break;
				case 1: add(K_RESET, s); break;
				case 2: add(K_COPY, s); al[s] = al[1 - s]; break;
				case 3: if (p.nested) { add(K_RESET, s); break; } add(r.chance(50) ? K_CASG : K_MOVE, s); break;
				case 4: case 5: add(K_FIN, s); o.x = p.nested ? r.range(3, 6) : r.below(7); add(K_READ, s); break;
				case 6: if (r.chance(50)) add(K_DEL, s); else { add(K_FIN, s); add(K_FIN, 1 - s); add(K_EQ, s); } break;
				case 12:
					o.x = r.below(boxes); add(K_XCHG, s);
					if (r.chance(30)) { al[s] = algo(a); o.x = uint64_t(al[s]); params(o); add(K_NEW, s); }
					break;
				default: feed(s, al[s]);
			}
		}
	}
	// where the processor is taken away: log-uniform distances, a few long runs, sometimes a fixed beat
	const uint64_t k = r.chance(20) ? r.range(1, 3) : r.range(4, 60);
	const uint64_t beat = r.chance(15) ? r.range(1, 400) : 0;
	const int maxLog = int(r.range(3, 15));
	for (uint64_t i = 0; i < k; ++i)
	{
		Sw s;
		s.n = beat ? beat : r.range(1, uint64_t(1) << r.below(uint64_t(maxLog) + 1));
		s.to = r.below(4);
		p.sw.push_back(s);
	}
	return p;
}

// ------------------------------------------------------------------ driver
static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}
static bool isolate(const Plan &p, std::string &cls, std::string &detail, uint64_t &log)
{
	S->r.status = 0; S->r.cls[0] = S->r.detail[0] = 0; S->r.log = 0; S->interleaving = 0;
	fflush(stdout);
	const pid_t c = fork();
	if (c < 0) { perror("fork"); exit(3); }
	if (c == 0)
	{
		rlimit cpu {20, 20}, core {0, 0};
		setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_CORE, &core);
		alarm(60);
		runPlan(p);
		_exit(0);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0) {}
	log = S->r.log;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error\n"); exit(3); }
	if (WIFSIGNALED(st))
	{
		const int sig = WTERMSIG(st);
		cls = sig == SIGKILL || sig == SIGXCPU || sig == SIGALRM ? "hang" : "crash-" + std::to_string(sig);
		detail = "the process died of signal " + std::to_string(sig);
		log = mix64(hashStr(cls.c_str()));
		return false;
	}
	if (S->r.status == 1) return true;
	cls = S->r.status == 2 ? S->r.cls : "no-result";
	detail = S->r.detail;
	return false;
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static void findReadOnly()
{
	std::ifstream f("/proc/self/maps");
	std::string l;
	char self[4096] = {};
	if (readlink("/proc/self/exe", self, sizeof(self) - 1) < 0) return;
	while (std::getline(f, l))
	{
		unsigned long lo, hi; char pr[8];
		if (sscanf(l.c_str(), "%lx-%lx %7s", &lo, &hi, pr) == 3 && pr[1] != 'w' && l.find(self) != std::string::npos && g_roN < 8) { g_roLo[g_roN] = lo; g_roHi[g_roN++] = hi; }
	}
}
int main(int argc, char **argv)
{
	t_sim = true;
	if (!getenv("SIM_NOASLR"))
	{
		setenv("SIM_NOASLR", "1", 1);
		const int pers = personality(0xffffffff);
		if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_arenaSize = 16 * AREA + MAXT * BUF + COMMON;
	g_arena = (uint8_t *)mmap(nullptr, g_arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	g_common = g_arena + 16 * AREA + MAXT * BUF;
	fillContent(g_common, COMMON, 4711);
	g_cells = (Cell *)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_stacks = (uint8_t *)mmap(nullptr, MAXT * (STACK + 65536), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	findReadOnly();
	for (int i = 0; i < ref::ALGO_COUNT; ++i)
		if (!opsFor(i)) { fprintf(stderr, "no adapter for %s\n", ref::algoName(i)); return 3; }
	{ ref::Spec w; for (int i = 0; i < ref::ALGO_COUNT; ++i) { w.algo = i; w.digestLen = 8; w.key = Bytes(16, 0); auto m = ref::make(w); m->update((const uint8_t *)"x", 1); m->digest(); } }
	std::string cls, detail;
	uint64_t log = 0;
	if (a.count("--replay"))
	{
		std::ifstream f(a["--replay"]);
		if (!f) { fprintf(stderr, "cannot open plan\n"); return 3; }
		const Plan p = Plan::parse(f);
		const bool ok = isolate(p, cls, detail, log);
		printf("{\"ok\": %s, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\", \"op\": 0}\n", ok ? "true" : "false", jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
		return ok ? 0 : 1;
	}
	const std::string prof = a["--profile"];
	const uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
	const uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10);
	const uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), nullptr, 10) : 1;
	const double limit = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
	if (a.count("--gen")) { fputs(gen(prof, runSeed(seed, prof.c_str(), from)).text().c_str(), stdout); return 0; }
	const double t0 = nowS();
	uint64_t runs = 0, nontrivial = 0, logAll = 0, nestedRuns = 0;
	std::vector<uint64_t> sigs;
	for (uint64_t i = from; i < to; i += step)
	{
		if ((runs & 15) == 0 && nowS() - t0 > limit) break;
		const Plan p = gen(prof, runSeed(seed, prof.c_str(), i));
		const uint64_t mid0 = S->midOp;
		const bool ok = isolate(p, cls, detail, log);
		++runs;
		nestedRuns += p.nested != 0;
		if (S->midOp > mid0) { ++nontrivial; sigs.push_back(S->interleaving); }
		logAll ^= mix64(log ^ mix64(i));
		if (!ok)
		{
			printf("FAIL {\"idx\": %llu, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\"}\n", (unsigned long long)i, jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
			break;
		}
	}
	std::sort(sigs.begin(), sigs.end());
	sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end());
	std::ostringstream o;
	o << "STATS {\"runs\": " << runs << ", \"nontrivial\": " << nontrivial << ", \"distinct\": " << sigs.size() << ", \"seconds\": " << nowS() - t0 << ", \"log_all\": \"" << std::hex << logAll << std::dec << "\"";
	auto dict = [&](const char *n, const uint64_t *v, int c, const char *const *names) { o << ", \"" << n << "\": {"; for (int i = 0; i < c; ++i) o << (i ? ", " : "") << "\"" << names[i] << "\": " << v[i]; o << "}"; };
	dict("ops", S->ops, K_COUNT, KN);
	std::vector<const char *> an; for (int i = 0; i < ref::ALGO_COUNT; ++i) an.push_back(ref::algoName(i));
	dict("algos", S->algos, ref::ALGO_COUNT, an.data());
	o << ", \"faults\": {\"thread_switches\": " << S->switches << ", \"preemptions_inside_an_operation\": " << S->midOp << ", \"operations_nested_in_an_interrupted_one\": " << S->nestedRuns << ", \"hashers_handed_to_another_thread\": " << S->handed << "}";
	o << ", \"memory_accesses_simulated\": " << S->accesses << ", \"atomic_accesses\": " << S->atomics << ", \"lock_operations\": " << S->locks << ", \"static_init_guards\": " << S->initGuards << ", \"interruptions_deferred_by_locks\": " << S->deferred
	  << ", \"nested_mode_runs\": " << nestedRuns << ", \"compared\": " << S->compared << ", \"skipped\": " << S->skipped << "}";
	puts(o.str().c_str());
	fflush(stdout);
	if (a.count("--sigs")) { FILE *f = fopen(a["--sigs"].c_str(), "wb"); if (f) { fwrite(sigs.data(), 8, sigs.size(), f); fclose(f); } }
	if (a.count("--map")) { FILE *f = fopen(a["--map"].c_str(), "wb"); if (f) { fwrite(S->map, 1, sizeof(S->map), f); fclose(f); } }
	return 0;
}
