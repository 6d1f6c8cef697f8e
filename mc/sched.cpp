#include "mcsched.h"
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
	void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
	void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
namespace mc { extern void (*g_abandon)(); extern int g_internal; extern bool g_warm; }

namespace sched {
	enum { MAXT = 8 };
	static const size_t STACK = 256 << 10, ARENA = 24 << 20, REGION = MAXT * STACK + ARENA;
	enum St { RUN, MUTEX, COND, JOIN, SPIN, SLEEP, RDLOCK, WRLOCK, DONE, FREE };
	struct VC { uint32_t c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(c, 0, sizeof c); } };
	struct Thread {
		int id; St st; void* sp; char* stack;
		void* (*fn)(void*); void* arg; void* ret;
		const void* on; const void* mtx;       // what it waits for; the mutex to take again after a condition wait
		bool timed; uint64_t deadline; int result;
		VC vc, relfence, acqpend;
		bool joined, detached;
		void* eh_caught; unsigned eh_uncaught; int err;
		const void* spin_addr; uint64_t spin_val; unsigned spin_n; bool spin_lowprio; unsigned spin_total; uint32_t ops;
	};
	struct Mutex { int owner = -1; int depth = 0; VC vc; Mutex() { vc.clear(); } };
	struct RW { int writer = -1; int readers = 0; VC vc, rvc; RW() { vc.clear(); rvc.clear(); } };
	struct Atom { VC rel; Atom() { rel.clear(); } };
	struct Rec { uint32_t clk; uint8_t tid, mask, write, atomic; const void* pc; };
	struct Cell { uint32_t gen; uint8_t n, life; Rec r[6]; }; // life: 0 unknown, 1 allocated, 2 released

	using mc::g_warm;
	static bool g_active, g_in, g_warmed;     // execution running; inside the scheduler; warm-up; warmed up
	static Thread T[MAXT]; static int g_nt, g_cur;
	static void* g_main_sp;
	static Opt g_o; static int g_pre, g_spu, g_tmo, g_dec; static size_t g_steps, g_plain; static uint64_t g_now;
	static bool g_jobdone, g_skipped, g_abandoned;
	static std::string g_failkey, g_failmsg;
	static char* g_region; static char* g_arena; static size_t g_top, g_base; static size_t g_live;
	static Cell* g_shadow; static uint32_t g_gen;
	struct HCell { uintptr_t a; Cell c; };
	static HCell* g_hash; static const size_t HN = 1 << 15;
	static const std::function<void()>* g_body;
	struct Maps { std::unordered_map<const void*, Mutex> m; std::unordered_map<const void*, RW> rw; std::unordered_map<const void*, Atom> at; };
	static Maps* M; static uint64_t g_conf;
	struct In { bool was; In() : was(g_in) { g_in = true; } ~In() { g_in = was; } };

	static inline bool on() { return g_active && !g_in; }
	static Thread& me() { return T[g_cur]; }

	extern "C" void verif_switch(void** save, void* to);
	asm(".text\n.globl verif_switch\n.type verif_switch,@function\nverif_switch:\n"
		"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
		"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
		"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

	struct EH { void* caught; unsigned uncaught; };
	static EH* eh() { return (EH*)abi::__cxa_get_globals(); }

	static void to_main()      // gives up this execution; never returns
	{
		void* dummy;
		g_in = true;
		verif_switch(&dummy, g_main_sp);
		abort();
	}
	static void abandon_hook() { if (g_active) { g_abandoned = true; to_main(); } }

	static void finding(const char* key, const std::string& msg)
	{
		if (g_warm) { g_failkey = key; g_failmsg = msg; g_abandoned = true; to_main(); } // the judged run reports it
		g_failkey = key; g_failmsg = msg; g_abandoned = true;
		to_main();
	}

	static const char* where(const void* pc)
	{
		static char b[2][512]; static int k;
		char* o = b[k ^= 1];
		Dl_info i;
		if (pc && dladdr(pc, &i) && i.dli_sname) {
			int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
			snprintf(o, 512, "%.400s", st == 0 ? d : i.dli_sname); free(d);
		}
		else snprintf(o, 512, "%p", pc);
		return o;
	}

	static void switch_to(int t)
	{
		if (t == g_cur) return;
		Thread& a = me(); Thread& b = T[t];
		EH* e = eh();
		a.eh_caught = e->caught; a.eh_uncaught = e->uncaught; a.err = errno;
		e->caught = b.eh_caught; e->uncaught = b.eh_uncaught;
		g_cur = t;
		verif_switch(&a.sp, b.sp);
		errno = me().err;
	}

	static bool enabled(const Thread& t)
	{
		switch (t.st) {
		case RUN: return true;
		case MUTEX: { auto i = M->m.find(t.on); return i == M->m.end() || i->second.owner < 0; }
		case JOIN: return T[(int)(intptr_t)t.on].st == DONE;
		case RDLOCK: { auto& r = M->rw[t.on]; return r.writer < 0; }
		case WRLOCK: { auto& r = M->rw[t.on]; return r.writer < 0 && !r.readers; }
		default: return false;
		}
	}

	static std::string situation()
	{
		static const char* const n[] = { "running", "waiting for a mutex", "waiting for a condition", "joining", "spinning", "sleeping", "waiting for a read lock", "waiting for a write lock", "ended", "free" };
		std::string s;
		for (int i = 0; i < g_nt; i++) s += mc::str("%sthread %d %s%s", i ? ", " : "", i, n[T[i].st], T[i].timed && T[i].st == COND ? " (timed)" : "");
		return s;
	}

	static size_t decide(size_t n)
	{
		if (g_warm || n == 1) return 0;
		if (!g_jobdone && g_dec++ >= g_o.job_at) {
			g_jobdone = true;
			if (!mc::job_noskip()) { g_skipped = g_abandoned = true; to_main(); }
		}
		// A control state: how far every thread is and what it waits for.
		uint64_t h = g_conf;
		for (int i = 0; i < g_nt; i++) h = (h ^ (T[i].ops * 16u + T[i].st)) * 0x9E3779B97F4A7C15ull + (h >> 29);
		mc::state(h);
		return mc::choose(n);
	}

	// Chooses who runs next. The calling thread has set its own state; returns when it is chosen again.
	static void resched(bool yielding = false)
	{
		me().ops++;
		for (;;) {
			if (++g_steps > g_o.max_steps) finding("livelock", "the execution does not end: " + situation());
			struct Op { int t; char kind; } op[3 * MAXT]; int n = 0; // r: run, t: expire, s: wake spuriously
			bool cur = me().st == RUN && !me().spin_lowprio && !yielding;
			if (cur) op[n++] = { g_cur, 'r' };
			if (!cur || g_pre < g_o.preempt)
				for (int i = 0; i < g_nt; i++) if (!(cur && i == g_cur) && !T[i].spin_lowprio && enabled(T[i]) && !(yielding && i == g_cur)) op[n++] = { i, 'r' };
			if (yielding && !n) op[n++] = { g_cur, 'r' };
			if (n && g_tmo < g_o.timeouts)
				for (int i = 0; i < g_nt; i++) if ((T[i].st == COND && T[i].timed) || T[i].st == SLEEP) op[n++] = { i, 't' };
			if (n && g_spu < g_o.spurious)
				for (int i = 0; i < g_nt; i++) if (T[i].st == COND) op[n++] = { i, 's' };
			if (!n)            // spinners whose variable did not change
				for (int i = 0; i < g_nt; i++) if (T[i].spin_lowprio && T[i].st == RUN) {
					bool timed = false;
					for (int k = 0; k < g_nt; k++) if ((T[k].st == COND && T[k].timed) || T[k].st == SLEEP) timed = true;
					if (timed) break;
					if (++T[i].spin_total > 200) finding("livelock", "only spinning threads are left: " + situation());
					op[n++] = { i, 'r' };
				}
			bool forced = false;
			if (!n) {          // time passes: the earliest deadline expires
				uint64_t d = ~0ull;
				for (int i = 0; i < g_nt; i++) if ((T[i].st == COND && T[i].timed) || T[i].st == SLEEP) d = std::min(d, T[i].deadline);
				for (int i = 0; i < g_nt; i++) if (((T[i].st == COND && T[i].timed) || T[i].st == SLEEP) && T[i].deadline == d) op[n++] = { i, 't' };
				forced = true;
			}
			if (!n) finding("deadlock", "no thread can go on: " + situation());
			int pick = -1;
			if (g_o.order >= 0) {
				pick = g_o.order == 1 ? n - 1 : 0;
				if (g_o.order == 2) { while (pick < n - 1 && op[pick].t <= g_cur) ++pick; if (op[pick].t <= g_cur) pick = 0; }
				if (!g_jobdone && !g_warm) { g_jobdone = true; if (!mc::job_noskip()) { g_skipped = g_abandoned = true; to_main(); } }
			}
			Op o = op[pick >= 0 ? (size_t)pick : decide((size_t)n)];
			if (o.kind == 'r') {
				if (cur && o.t != g_cur) g_pre++;
				T[o.t].spin_lowprio = false;
				if (o.t != g_cur && mc::g_verbose && !g_warm) MC_LOG("    --- thread %d goes on", o.t);
				switch_to(o.t);
				return;
			}
			Thread& t = T[o.t];
			if (o.kind == 't') {
				if (!forced) g_tmo++;
				if (t.deadline > g_now) g_now = t.deadline;
				t.result = ETIMEDOUT;
				if (!g_warm) MC_LOG("    --- wait of thread %d expires", o.t);
			}
			else { g_spu++; if (!g_warm) MC_LOG("    --- wait of thread %d ends spuriously", o.t); }
			if (t.st == SLEEP) t.st = RUN;
			else { t.st = MUTEX; t.on = t.mtx; }
		}
	}

	static inline void point_() { me().spin_addr = nullptr; me().spin_lowprio = false; resched(); }
	static void tick() { me().vc.c[g_cur]++; }

	static void block(St st, const void* o) { me().st = st; me().on = o; resched(); me().st = RUN; }

	// ---------------------------------------------------------------- memory
	static inline bool in_region(const void* p) { return (const char*)p >= g_region && (const char*)p < g_region + REGION; }
	static Cell* cell(uintptr_t a8)
	{
		Cell* c;
		if (in_region((void*)a8)) c = &g_shadow[(a8 - (uintptr_t)g_region) >> 3];
		else {
			size_t h = (a8 >> 3) * 0x9E3779B97F4A7C15ull >> 40;
			for (size_t k = 0;; k++) {
				HCell& e = g_hash[(h + k) & (HN - 1)];
				if (e.c.gen == g_gen && e.a != a8) { if (k > 64) { c = &e.c; e.a = a8; c->n = 0; break; } continue; }
				if (e.c.gen != g_gen) { e.a = a8; e.c.gen = g_gen; e.c.n = 0; e.c.life = 0; }
				c = &e.c; break;
			}
			return c;
		}
		if (c->gen != g_gen) { c->gen = g_gen; c->n = 0; c->life = 0; }
		return c;
	}

	static void access1(Cell* c, uint8_t mask, bool write, bool atomic, const void* pc, const char* what, const void* addr)
	{
		Thread& t = me();
		if (c->life == 2) finding("use-after-free", mc::str("thread %d %s released memory in %s", g_cur, what, where(pc)));
		int own = -1;
		for (int i = 0; i < c->n; i++) {
			Rec& r = c->r[i];
			if (r.tid == g_cur) { if (r.write == write && r.atomic == atomic && (r.mask & mask) == r.mask) own = i; continue; }
			if ((r.mask & mask) && (write || r.write) && !(atomic && r.atomic) && r.clk > t.vc.c[r.tid])
				finding("data-race", mc::str("thread %d %s %s in %s, unordered with the %s by thread %d in %s", g_cur, what, in_region(addr) ? "memory" : "a global", where(pc), r.write ? "write" : "read", r.tid, where(r.pc)));
		}
		Rec n = { t.vc.c[g_cur], (uint8_t)g_cur, mask, write, atomic, pc };
		if (own >= 0) c->r[own] = n;
		else if (c->n < 6) c->r[c->n++] = n;
		else { int v = 0; for (int i = 0; i < 6; i++) if (c->r[i].tid == g_cur) v = i; c->r[v] = n; }
	}
	static inline bool solo()
	{
		for (int i = 0; i < g_nt; i++) if (i != g_cur && !T[i].joined) return false;
		return true;
	}
	static void access(const void* p, size_t n, bool write, bool atomic, const void* pc, const char* what)
	{
		if (g_warm || !n) return;
		if (++g_plain > 20000000) finding("livelock", "the execution does not end: " + situation());
		bool s = solo();
		uintptr_t a = (uintptr_t)p, e = a + n;
		if (s && !((const char*)p >= g_arena && (const char*)p < g_arena + ARENA)) return;
		for (uintptr_t b = a & ~(uintptr_t)7; b < e; b += 8) {
			uint8_t mask = 0xff;
			if (b < a) mask &= (uint8_t)(0xff << (a - b));
			if (b + 8 > e) mask &= (uint8_t)(0xff >> (b + 8 - e));
			Cell* c = cell(b);
			if ((char*)b >= g_arena && (char*)b < g_arena + g_top && c->life == 0 && (size_t)((char*)b - g_arena) >= g_base)
				finding("out-of-bounds", mc::str("thread %d %s unallocated memory in %s", g_cur, what, where(pc)));
			if (s) { if (c->life == 2) finding("use-after-free", mc::str("thread %d %s released memory in %s", g_cur, what, where(pc))); continue; }
			access1(c, mask, write, atomic, pc, what, p);
		}
	}

	struct Hdr { size_t size; uint32_t magic; uint32_t off; };
	static void* arena_alloc(size_t n, size_t align)
	{
		if (align < 16) align = 16;
		size_t at = (g_top + sizeof(Hdr) + 16 + align - 1) / align * align;
		if (at + n + 32 > ARENA) return nullptr;
		Hdr* h = (Hdr*)(g_arena + at) - 1;
		h->size = n; h->magic = 0xA110C8ED;
		g_top = (at + n + 31) & ~(size_t)15;
		for (uintptr_t b = (uintptr_t)(g_arena + at), e = b + n; b < e; b += 8) { Cell* c = cell(b); c->n = 0; c->life = 1; }
		memset(g_arena + at, 0xA5, n);
		g_live++;
		return g_arena + at;
	}
	static void arena_free(void* p, const void* pc)
	{
		Hdr* h = (Hdr*)p - 1;
		if (h->magic == 0xDEADF5EE) { if (g_active && !g_warm) { In in; finding("double-free", mc::str("thread %d releases memory twice in %s", g_cur, where(pc))); } return; }
		if (h->magic != 0xA110C8ED) { if (g_active && !g_warm) { In in; finding("bad-free", mc::str("thread %d releases something that was not allocated in %s", g_cur, where(pc))); } return; }
		if (g_active && !g_warm && (size_t)((char*)p - g_arena) >= g_base) {
			In in;
			access(p, h->size, true, false, pc, "releases");
			for (uintptr_t b = (uintptr_t)p, e = b + h->size; b < e; b += 8) cell(b)->life = 2;
		}
		h->magic = 0xDEADF5EE;
		g_live--;
	}

	// ---------------------------------------------------------------- running
	static void fiber_main()
	{
		g_in = false;
		Thread& t = me();
		if (t.id == 0) (*g_body)();
		else t.ret = t.fn(t.arg);
		g_in = true;
		if (mc::g_verbose && !g_warm) MC_LOG("    --- thread %d ends", g_cur);
		tick();
		me().st = DONE;
		if (me().id == 0) to_main();
		resched();
		abort();
	}

	static int spawn(void* (*fn)(void*), void* arg)
	{
		if (g_nt >= MAXT) { fprintf(stderr, "sched: too many threads\n"); _exit(97); }
		Thread& t = T[g_nt];
		char* st = t.stack;
		memset((void*)&t, 0, sizeof t);
		t.stack = st; t.id = g_nt; t.st = RUN; t.fn = fn; t.arg = arg;
		if (g_nt) { t.vc = me().vc; }
		t.vc.c[g_nt] = 1;
		void** sp = (void**)(t.stack + STACK - 64);
		*--sp = nullptr;              // keeps the entry's stack aligned as after a call
		*--sp = (void*)fiber_main;
		for (int i = 0; i < 6; i++) *--sp = nullptr;
		t.sp = sp;
		return g_nt++;
	}

	static void init()
	{
		g_region = (char*)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		g_arena = g_region + MAXT * STACK;
		g_shadow = (Cell*)mmap(nullptr, (REGION >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		g_hash = (HCell*)mmap(nullptr, HN * sizeof(HCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (int i = 0; i < MAXT; i++) { T[i].stack = g_region + i * STACK; mprotect(T[i].stack, 4096, PROT_NONE); }
		M = new Maps;
		mc::g_abandon = abandon_hook;
	}

	static void once(const std::function<void()>& body)
	{
		M->m.clear(); M->rw.clear(); M->at.clear();
		g_gen++; g_nt = 0; g_cur = 0; g_pre = g_spu = g_tmo = g_dec = 0; g_steps = g_plain = 0; g_now = 1000000000ull;
		g_jobdone = g_skipped = g_abandoned = false; g_failkey.clear(); g_failmsg.clear();
		g_body = &body;
		g_top = g_base; g_live = 0;
		spawn(nullptr, nullptr);
		EH save = *eh(); eh()->caught = nullptr; eh()->uncaught = 0;
		int err = errno;
		g_active = true;
		verif_switch(&g_main_sp, T[0].sp);
		g_active = false; g_in = false;
		*eh() = save; errno = err;
	}

	void run(const Opt& o, const std::function<void()>& body)
	{
		if (!g_region) init();
		g_o = o; g_conf = mc::prefix_hash();
		if (!g_warmed) {
			g_warm = true; once(body); g_warm = false;
			g_warmed = true;
		}
		once(body);
		if (g_skipped) throw mc::Abandon();
		if (!g_jobdone && !mc::job_noskip()) throw mc::Abandon();
		if (!g_failkey.empty()) mc::fail(g_failkey, "%s", g_failmsg.c_str());
		if (g_abandoned) throw mc::Abandon();
		for (int i = 1; i < g_nt; i++) if (!T[i].joined && !T[i].detached) mc::fail("thread-leak", "thread %d was neither joined nor detached: %s", i, situation().c_str());
		mc::transition(g_steps);
	}
	bool warmup() { return g_warm; }
	void point() { if (on()) { In in; point_(); } }
	uint64_t now() { return g_now; }
	int self() { return g_cur; }
	size_t steps() { return g_steps; }
	size_t live_blocks() { return g_live; }
	bool (*refuse_thread)();
	bool inside() { return g_in || !g_active || mc::g_internal; }
	bool threads_done() { for (int i = 0; i < g_nt; i++) if (i != g_cur && T[i].st != DONE) return false; return true; }

	// ---------------------------------------------------------------- atomics
	template <class V> static Atom& atom(const volatile V* a) { return M->at[(const void*)a]; }
	static void do_acquire(Atom& a, int mo) { if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) me().vc.join(a.rel); else me().acqpend.join(a.rel); }
	static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static void do_store(Atom& a, int mo) { if (rel(mo)) { a.rel = me().vc; tick(); } else a.rel = me().relfence; }
	static void do_rmw(Atom& a, int mo) { do_acquire(a, mo); if (rel(mo)) { a.rel.join(me().vc); tick(); } else a.rel.join(me().relfence); }
	static void wake_spinners(const void* a)
	{
		for (int i = 0; i < g_nt; i++) if (T[i].spin_addr == a) { T[i].spin_lowprio = false; T[i].spin_addr = nullptr; }
	}
	// Called after an operation that changed nothing and returned v: is the thread polling?
	static void polled(const void* a, uint64_t v)
	{
		Thread& t = me();
		if (t.spin_addr == a && t.spin_val == v) { if (++t.spin_n >= 3) t.spin_lowprio = true; }
		else { t.spin_addr = a; t.spin_val = v; t.spin_n = 1; }
	}
	static void apoint(const void* a) { Thread& t = me(); if (t.spin_addr && t.spin_addr != a) { t.spin_addr = nullptr; t.spin_lowprio = false; } resched(); }

	template <class V> static V aload(const volatile V* a, int mo, const void* pc)
	{
		if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
		In in; apoint((const void*)a); access((const void*)a, sizeof(V), false, true, pc, "reads");
		do_acquire(atom(a), mo);
		V v = *a; polled((const void*)a, (uint64_t)v);
		return v;
	}
	template <class V> static void astore(volatile V* a, V v, int mo, const void* pc)
	{
		if (!on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
		In in; point_(); access((const void*)a, sizeof(V), true, true, pc, "writes");
		do_store(atom(a), mo);
		bool ch = *a != v; *a = v; if (ch) wake_spinners((const void*)a);
	}
	template <class V, class F> static V armw(volatile V* a, int mo, const void* pc, F f)
	{
		if (!on()) { V o = *a; *a = f(o); return o; }
		In in; apoint((const void*)a); access((const void*)a, sizeof(V), true, true, pc, "modifies");
		do_rmw(atom(a), mo);
		V o = *a, n = f(o); *a = n;
		if (n != o) { me().spin_addr = nullptr; wake_spinners((const void*)a); } else polled((const void*)a, (uint64_t)o);
		return o;
	}
	template <class V> static bool acas(volatile V* a, V* c, V v, int mo, int fmo, const void* pc)
	{
		if (!on()) { if (*a == *c) { *a = v; return true; } *c = *a; return false; }
		In in; apoint((const void*)a);
		if (*a == *c) {
			access((const void*)a, sizeof(V), true, true, pc, "modifies");
			do_rmw(atom(a), mo);
			bool ch = *a != v; *a = v; if (ch) { me().spin_addr = nullptr; wake_spinners((const void*)a); }
			return true;
		}
		access((const void*)a, sizeof(V), false, true, pc, "reads");
		do_acquire(atom(a), fmo); *c = *a; polled((const void*)a, (uint64_t)*c);
		return false;
	}
}
using namespace sched;
#define PC __builtin_return_address(0)
#define OFF (!on())

extern "C" {
	// ---- compiler hooks: plain accesses
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
#define RW_(n) \
	void __tsan_read##n(void* p) { if (on()) { In in; access(p, n, false, false, PC, "reads"); } } \
	void __tsan_write##n(void* p) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } } \
	void __tsan_unaligned_read##n(void* p) { if (on()) { In in; access(p, n, false, false, PC, "reads"); } } \
	void __tsan_unaligned_write##n(void* p) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } } \
	void __tsan_volatile_read##n(void* p) { if (on()) { In in; access(p, n, false, false, PC, "reads"); } } \
	void __tsan_volatile_write##n(void* p) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } } \
	void __tsan_read_write##n(void* p) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } } \
	void __tsan_unaligned_read_write##n(void* p) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } }
	RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
	void __tsan_read_range(void* p, size_t n) { if (on()) { In in; access(p, n, false, false, PC, "reads"); } }
	void __tsan_write_range(void* p, size_t n) { if (on()) { In in; access(p, n, true, false, PC, "writes"); } }
	void __tsan_vptr_read(void** p) { if (on()) { In in; access(p, 8, false, false, PC, "reads"); } }
	void __tsan_vptr_update(void** p, void* n) { if (on() && *p != n) { In in; access(p, 8, true, false, PC, "writes"); } }
	void* __tsan_memcpy(void* d, const void* s, size_t n) { if (on()) { In in; access(s, n, false, false, PC, "reads"); access(d, n, true, false, PC, "writes"); } return memcpy(d, s, n); }
	void* __tsan_memmove(void* d, const void* s, size_t n) { if (on()) { In in; access(s, n, false, false, PC, "reads"); access(d, n, true, false, PC, "writes"); } return memmove(d, s, n); }
	void* __tsan_memset(void* d, int c, size_t n) { if (on()) { In in; access(d, n, true, false, PC, "writes"); } return memset(d, c, n); }
	// ---- compiler hooks: atomics
#define AT_(b, V) \
	V __tsan_atomic##b##_load(const volatile V* a, int mo) { return aload<V>(a, mo, PC); } \
	void __tsan_atomic##b##_store(volatile V* a, V v, int mo) { astore<V>(a, v, mo, PC); } \
	V __tsan_atomic##b##_exchange(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V) { return v; }); } \
	V __tsan_atomic##b##_fetch_add(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)(o + v); }); } \
	V __tsan_atomic##b##_fetch_sub(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)(o - v); }); } \
	V __tsan_atomic##b##_fetch_and(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)(o & v); }); } \
	V __tsan_atomic##b##_fetch_or(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)(o | v); }); } \
	V __tsan_atomic##b##_fetch_xor(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)(o ^ v); }); } \
	V __tsan_atomic##b##_fetch_nand(volatile V* a, V v, int mo) { return armw<V>(a, mo, PC, [&](V o) { return (V)~(o & v); }); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile V* a, V* c, V v, int mo, int fmo) { return acas<V>(a, c, v, mo, fmo, PC); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile V* a, V* c, V v, int mo, int fmo) { return acas<V>(a, c, v, mo, fmo, PC); } \
	V __tsan_atomic##b##_compare_exchange_val(volatile V* a, V c, V v, int mo, int fmo) { acas<V>(a, &c, v, mo, fmo, PC); return c; }
	AT_(8, uint8_t) AT_(16, uint16_t) AT_(32, uint32_t) AT_(64, uint64_t)
	void __tsan_atomic_thread_fence(int mo)
	{
		if (OFF) return;
		In in; point_();
		if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) me().vc.join(me().acqpend);
		if (rel(mo)) { me().relfence = me().vc; tick(); }
	}
	void __tsan_atomic_signal_fence(int) {}

	// ---- heap
	void* malloc(size_t n) { if (g_active && !g_in && !g_warm && !mc::g_internal && n <= (1 << 20)) { In in; void* p = arena_alloc(n, 16); if (p) return p; } return __libc_malloc(n); }
	void* calloc(size_t a, size_t b) { if (g_active && !g_in && !g_warm && !mc::g_internal && a * b <= (1 << 20)) { In in; void* p = arena_alloc(a * b, 16); if (p) { memset(p, 0, a * b); return p; } } return __libc_calloc(a, b); }
	void free(void* p) { if (!p) return; if (g_region && in_region(p)) { arena_free(p, PC); return; } __libc_free(p); }
	void* realloc(void* p, size_t n)
	{
		if (p && g_region && in_region(p)) { size_t o = ((Hdr*)p - 1)->size; void* q = malloc(n); if (!q) return q; memcpy(q, p, o < n ? o : n); arena_free(p, PC); return q; }
		return p ? __libc_realloc(p, n) : malloc(n);
	}
	void* memalign(size_t al, size_t n) { if (g_active && !g_in && !g_warm && !mc::g_internal && n <= (1 << 20)) { In in; void* p = arena_alloc(n, al); if (p) return p; } return __libc_memalign(al, n); }
	void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
	int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

	// ---- threads
	static const pthread_t HANDLE = 0x5C4ED000;
	int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg)
	{
		if (OFF) { fprintf(stderr, "sched: pthread_create outside sched::run\n"); _exit(97); }
		if (refuse_thread && !g_warm && refuse_thread()) return EAGAIN;
		In in;
		int i = spawn(fn, arg);
		tick();
		*th = HANDLE + (pthread_t)i;
		if (mc::g_verbose && !g_warm) MC_LOG("    --- thread %d starts thread %d", g_cur, i);
		point_();
		return 0;
	}
	int pthread_join(pthread_t th, void** ret)
	{
		if (OFF) return ESRCH;
		In in;
		int i = (int)(th - HANDLE);
		if (i < 0 || i >= g_nt || T[i].joined || T[i].detached) return ESRCH;
		if (i == g_cur) return EDEADLK;
		if (T[i].st != DONE) block(JOIN, (void*)(intptr_t)i);
		me().vc.join(T[i].vc);
		T[i].joined = true;
		if (ret) *ret = T[i].ret;
		return 0;
	}
	int pthread_detach(pthread_t th) { if (OFF) return ESRCH; T[th - HANDLE].detached = true; return 0; }
	pthread_t pthread_self() { return g_active ? HANDLE + (pthread_t)g_cur : (pthread_t)1; }
	int sched_yield() { if (on()) { In in; resched(true); } return 0; }
	int sched_getcpu() { return 0; }

	// ---- mutexes
	static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
	static void take(pthread_mutex_t* m) { Mutex& x = M->m[m]; x.owner = g_cur; x.depth = 1; me().vc.join(x.vc); }
	static void alive(const void* m, const void* pc)
	{
		if (g_warm) return;
		Cell* c = in_region(m) ? cell((uintptr_t)m & ~(uintptr_t)7) : nullptr;
		if (c && c->life == 2) finding("use-after-free", mc::str("thread %d synchronises on released memory in %s", g_cur, where(pc)));
	}
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (OFF) return 0;
		In in; point_(); alive(m, PC);
		Mutex& x = M->m[m];
		if (x.owner == g_cur && recursive(m)) { x.depth++; return 0; }
		if (x.owner >= 0) block(MUTEX, m);
		alive(m, PC);
		take(m);
		return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (OFF) return 0;
		In in; point_(); alive(m, PC);
		Mutex& x = M->m[m];
		if (x.owner == g_cur && recursive(m)) { x.depth++; return 0; }
		if (x.owner >= 0) { polled(m, 1); return EBUSY; }
		take(m);
		return 0;
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
	static void release(pthread_mutex_t* m) { Mutex& x = M->m[m]; x.owner = -1; x.depth = 0; x.vc = me().vc; tick(); wake_spinners(m); }
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (OFF) return 0;
		In in; alive(m, PC);
		Mutex& x = M->m[m];
		if (x.owner != g_cur) finding("bad-unlock", mc::str("thread %d unlocks a mutex it does not hold", g_cur));
		if (--x.depth > 0) return 0;
		release(m);
		return 0;
	}
	int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
	{
		pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER; *m = z;
		int k = 0; if (a && !pthread_mutexattr_gettype(a, &k)) m->__data.__kind = k;
		if (on()) { In in; M->m.erase(m); }
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t* m)
	{
		if (OFF) return 0;
		In in;
		auto i = M->m.find(m);
		if (i != M->m.end() && i->second.owner >= 0 && !g_warm) finding("bad-destroy", mc::str("thread %d destroys a mutex that is held", g_cur));
		M->m.erase(m);
		return 0;
	}
	// ---- conditions
	static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline, const void* pc)
	{
		In in; alive(c, pc); me().spin_addr = nullptr;
		Mutex& x = M->m[m];
		if (x.owner != g_cur) finding("bad-wait", mc::str("thread %d waits without holding the mutex", g_cur));
		release(m);
		Thread& t = me();
		t.st = COND; t.on = c; t.mtx = m; t.timed = timed; t.deadline = deadline; t.result = 0;
		resched();
		t.st = RUN; t.timed = false;
		alive(m, pc);
		take(m);
		return t.result;
	}
	static uint64_t ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (OFF) return 0; return cwait(c, m, false, 0, PC); }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (OFF) return 0; return cwait(c, m, true, ns(t), PC); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { if (OFF) return 0; return cwait(c, m, true, ns(t), PC); }
	static void wake(Thread& t) { t.st = MUTEX; t.on = t.mtx; }
	int pthread_cond_signal(pthread_cond_t* c)
	{
		if (OFF) return 0;
		In in; point_(); alive(c, PC);
		int w[MAXT], n = 0;
		for (int i = 0; i < g_nt; i++) if (T[i].st == COND && T[i].on == c) w[n++] = i;
		if (n) wake(T[w[decide((size_t)n)]]);
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		if (OFF) return 0;
		In in; point_(); alive(c, PC);
		for (int i = 0; i < g_nt; i++) if (T[i].st == COND && T[i].on == c) wake(T[i]);
		return 0;
	}
	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
	int pthread_cond_destroy(pthread_cond_t* c)
	{
		if (OFF) return 0;
		In in;
		for (int i = 0; i < g_nt; i++) if (T[i].st == COND && T[i].on == c && !g_warm) finding("bad-destroy", mc::str("thread %d destroys a condition that thread %d waits for", g_cur, i));
		return 0;
	}
	// ---- read-write locks
	int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
	int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
	int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (OFF) return 0; In in; point_(); alive(l, PC); if (M->rw[l].writer >= 0) block(RDLOCK, l); RW& r = M->rw[l]; r.readers++; me().vc.join(r.vc); return 0; }
	int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (OFF) return 0; In in; point_(); alive(l, PC); { RW& r = M->rw[l]; if (r.writer >= 0 || r.readers) block(WRLOCK, l); } RW& r = M->rw[l]; r.writer = g_cur; me().vc.join(r.vc); me().vc.join(r.rvc); return 0; }
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (OFF) return 0; In in; point_(); RW& r = M->rw[l]; if (r.writer >= 0) return EBUSY; r.readers++; me().vc.join(r.vc); return 0; }
	int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (OFF) return 0; In in; point_(); RW& r = M->rw[l]; if (r.writer >= 0 || r.readers) return EBUSY; r.writer = g_cur; me().vc.join(r.vc); me().vc.join(r.rvc); return 0; }
	int pthread_rwlock_unlock(pthread_rwlock_t* l)
	{
		if (OFF) return 0;
		In in; RW& r = M->rw[l];
		if (r.writer == g_cur) { r.writer = -1; r.vc = me().vc; }
		else if (r.readers > 0) { r.readers--; r.rvc.join(me().vc); }
		else finding("bad-unlock", mc::str("thread %d unlocks a lock it does not hold", g_cur));
		tick();
		return 0;
	}
	// ---- time
	int clock_gettime(clockid_t id, struct timespec* t)
	{
		if (!g_active) return (int)syscall(SYS_clock_gettime, id, t);
		t->tv_sec = (time_t)(g_now / 1000000000ull); t->tv_nsec = (long)(g_now % 1000000000ull);
		return 0;
	}
	static int nap(uint64_t until) { In in; Thread& t = me(); t.deadline = until; t.spin_addr = nullptr; t.st = SLEEP; resched(); t.st = RUN; return 0; }
	int nanosleep(const struct timespec* t, struct timespec*) { if (OFF) { usleep((useconds_t)(ns(t) / 1000)); return 0; } return nap(g_now + ns(t)); }
	int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) { if (OFF) { usleep((useconds_t)(ns(t) / 1000)); return 0; } return nap(flags & TIMER_ABSTIME ? ns(t) : g_now + ns(t)); }
	int usleep(useconds_t us)
	{
		if (OFF) { struct timespec t = { us / 1000000, (long)(us % 1000000) * 1000 }; return (int)syscall(SYS_nanosleep, &t, nullptr); }
		return nap(g_now + (uint64_t)us * 1000);
	}
}
