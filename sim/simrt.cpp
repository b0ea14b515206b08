// The simulator runtime. Compiled WITHOUT instrumentation. Owns: task scheduling (fibers), atomics,
// mutexes / condition variables, clocks and sleeps, thread_local storage, static-init guards, the heap.
#include "internal.hpp"

#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

extern char __data_start, _end; // of the linker: the static data of the program

namespace sim
{
	const char* const fault_names[F_COUNT] = { "none", "alloc", "alloc_persistent", "copy", "move", "hash", "compare", "functor", "construct", "io_short", "io_error", "io_eof", "any_user_code", "io_seek" };
	const char* const policy_names[] = { "random", "pct", "stall", "sync_only", "quantum", "mixed" };

	int g_off = 1;
	void sim_off() noexcept { ++g_off; }
	void sim_on() noexcept { --g_off; }
	static int g_nopreempt = 0;

	// ------------------------------------------------------------------ constants
	static constexpr uintptr_t ARENA = 0x100000000000ull;
	static constexpr size_t ARENA_SZ = 256ull << 20;
	static constexpr uintptr_t SHADOW = 0x110000000000ull; // 1 byte / 8 bytes
	static constexpr uintptr_t RACE_W = 0x120000000000ull; // 4 bytes / byte : epoch
	static constexpr uintptr_t RACE_R = 0x130000000000ull;
	static constexpr uintptr_t RACE_WPC = 0x140000000000ull; // 4 bytes / 8 bytes
	static constexpr uintptr_t RACE_RPC = 0x150000000000ull;
	static constexpr uintptr_t STACKS = 0x160000000000ull;
	static constexpr size_t STACK_SZ = 1u << 20;

	static constexpr uint64_t W_SYNC = 8;

	struct VC
	{
		uint32_t c[MAX_TASKS];
		void join(const VC& o)
		{
			for (int i = 0; i < MAX_TASKS; ++i)
				if (o.c[i] > c[i])
					c[i] = o.c[i];
		}
		void clear() { memset(c, 0, sizeof(c)); }
	};

	enum State
	{
		ST_FREE,
		ST_RUN,
		ST_BLOCK,
		ST_DONE
	};
	enum BlockKind
	{
		B_NONE,
		B_MUTEX,
		B_COND,
		B_JOIN,
		B_SLEEP,
		B_GUARD
	};

	struct TlsEntry
	{
		void* control;
		void* mem;
	};
	struct TlsDtor
	{
		void (*fn)(void*);
		void* obj;
	};

	struct Fiber
	{
		void* sp = nullptr;
		int id = 0;
		State st = ST_FREE;
		BlockKind bk = B_NONE;
		uintptr_t baddr = 0;
		uint64_t deadline = ~0ull; // simulated ns
		bool timed_out = false;
		uint32_t n = 0; // scheduling points
		VC vc;
		VC acq_fence; // pending acquires of relaxed loads
		VC rel_fence; // vc at last release fence
		uint64_t eh[2] = { 0, 0 };
		std::function<void()> fn;
		// faults
		Op op;
		bool in_op = false;
		int nofault = 0;
		uint32_t cnt[F_COUNT];
		uint32_t fired = 0;
		uint64_t op_alloc = 0;
		// policy
		uint64_t prio = 0;
		uint64_t stalled_until = 0;
		// call stack
		uintptr_t cs[256];
		uint32_t csn = 0;
		std::vector<TlsEntry> tls;
		std::vector<TlsDtor> tls_dtors;
		uint32_t lone_yields = 0;
		uint64_t lone_start = 0;
		char name[16];
	};

	struct AtomicVC
	{
		VC vc;
		int last_task = -1;
	};
	struct SMutex
	{
		int owner = -1;
		int shared = 0; // rwlock readers
		int count = 0;
		VC vc;
	};
	struct Block
	{
		uintptr_t base;
		uint32_t size;
		uint32_t align;
		bool live;
		bool array;
		uint8_t task;
		uint32_t pc[4];
	};

	struct Sim
	{
		bool running = false;
		bool verbose = false;
		Result* res = nullptr;
		const Plan* plan = nullptr;
		Mode mode = M_EXPLORE;
		Fiber f[MAX_TASKS];
		int nf = 0;
		Fiber* cur = nullptr;
		void* exit_sp = nullptr;
		int64_t cd = 0;
		uint64_t timer = ~0ull; // earliest deadline
		uint64_t steps = 0, ticks = 0, clock = 1000000000ull, seq = 0;
		int64_t rt_off = 1600000000000000000ll;
		uint64_t chaos_limit = 0, hard_limit = 0, tick_limit = 0;
		bool fair = false;
		Rng rng, frng;
		// policy
		int policy = 0;
		uint64_t mean = 64;
		bool plain_points = true;
		std::vector<uint64_t> change; // PCT: steps, sorted
		size_t change_i = 0;
		uint64_t low_prio = 1000;
		std::vector<std::pair<uint64_t, int>> stalls; // step, length(log2)
		size_t stall_i = 0;
		unsigned yield_stay = 16; // 1/yield_stay chance to keep running at a yield
		unsigned spurious = 0;
		// replay
		std::vector<Rec> rr[MAX_TASKS];
		size_t ri[MAX_TASKS];
		// heap
		uintptr_t bump = ARENA;
		std::vector<Block> blocks;
		uint64_t live_blocks = 0, live_bytes = 0;
		std::unordered_map<uintptr_t, AtomicVC> atoms;
		std::unordered_map<uintptr_t, SMutex> mtx;
		bool failing = false;
	};
	static Sim S;

	std::vector<Scenario>& scenarios()
	{
		static std::vector<Scenario> v;
		return v;
	}
	Register::Register(const Scenario& s) { scenarios().push_back(s); }

	uint64_t real_ns()
	{
		timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return (uint64_t)ts.tv_sec * 1000000000ull + (uint64_t)ts.tv_nsec;
	}

	static inline void hmix(uint64_t& h, uint64_t v)
	{
		h = (h ^ v) * 0x100000001B3ull;
		h ^= h >> 29;
	}

	// ------------------------------------------------------------------ verdicts
	static void put_stack(char* buf, size_t n, const Fiber* f)
	{
		size_t len = strlen(buf);
		uint32_t k = f->csn < 256 ? f->csn : 256;
		for (uint32_t i = 0; i < k && i < 14 && len + 24 < n; ++i)
			len += (size_t)snprintf(buf + len, n - len, " @0x%lx", (unsigned long)f->cs[k - 1 - i]);
	}

	[[noreturn]] static void finish(int verdict)
	{
		S.res->steps = S.steps;
		S.res->simns = S.clock - 1000000000ull;
		S.res->ntasks = S.nf;
		S.res->policy = S.policy;
		__sync_synchronize();
		S.res->verdict = verdict;
		_exit(0);
	}

	[[noreturn]] static void vfail(const char* cls, const char* fmt, va_list ap)
	{
		++g_off;
		if (!S.running || S.failing) {
			fprintf(stderr, "sim: failure %s outside a run: ", cls);
			vfprintf(stderr, fmt, ap);
			fprintf(stderr, "\n");
			_exit(77);
		}
		S.failing = true;
		snprintf(S.res->cls, sizeof(S.res->cls), "%s", cls);
		vsnprintf(S.res->msg, sizeof(S.res->msg) - 600, fmt, ap);
		size_t l = strlen(S.res->msg);
		snprintf(S.res->msg + l, sizeof(S.res->msg) - l, " | task %d step %lu t=%luns stack:", S.cur ? S.cur->id : -1, (unsigned long)S.steps, (unsigned long)(S.clock - 1000000000ull));
		if (S.cur)
			put_stack(S.res->msg, sizeof(S.res->msg), S.cur);
		finish(V_VIOLATION);
	}
	void fail(const char* cls, const char* fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		vfail(cls, fmt, ap);
	}
	[[noreturn]] static void internal(const char* fmt, ...)
	{
		++g_off;
		va_list ap;
		va_start(ap, fmt);
		if (S.res) {
			snprintf(S.res->cls, sizeof(S.res->cls), "INTERNAL");
			vsnprintf(S.res->msg, sizeof(S.res->msg), fmt, ap);
			S.res->verdict = V_INTERNAL;
		}
		else
			vfprintf(stderr, fmt, ap);
		_exit(3);
	}
	bool verbose() { return S.verbose; }
	void logf(const char* fmt, ...)
	{
		if (!S.verbose || !S.res)
			return;
		NoSim ns;
		Result* r = S.res;
		if (r->nlog + 600 > LOG_SZ)
			return;
		int k = snprintf(r->log + r->nlog, 64, "[%8lu t%d] ", (unsigned long)S.steps, S.cur ? S.cur->id : -1);
		r->nlog += (uint32_t)k;
		va_list ap;
		va_start(ap, fmt);
		k = vsnprintf(r->log + r->nlog, 500, fmt, ap);
		va_end(ap);
		if (k > 499)
			k = 499;
		r->nlog += (uint32_t)k;
		r->log[r->nlog++] = '\n';
		r->log[r->nlog] = 0;
	}
	void probe(const char* name, uint64_t n)
	{
		if (!S.res)
			return;
		Result* r = S.res;
		for (int i = 0; i < r->nprobes; ++i)
			if (strcmp(r->probe_name[i], name) == 0) {
				r->probe_cnt[i] += n;
				return;
			}
		if (r->nprobes < MAX_PROBES) {
			snprintf(r->probe_name[r->nprobes], 48, "%s", name);
			r->probe_cnt[r->nprobes++] = n;
		}
	}
	void state_hash(uint64_t h)
	{
		hmix(S.res->evhash, h);
		if (S.res->nstates < MAX_STATES)
			S.res->states[S.res->nstates++] = h;
	}
	void progress()
	{
		if (S.steps + 3000000 > S.hard_limit)
			S.hard_limit = S.steps + 3000000;
		S.ticks = 0;
	}
	void mark_nontrivial() { S.res->nontrivial = 1; }

	// ------------------------------------------------------------------ fibers
	extern "C" void sim_switch_asm(void** save, void* load);
	__asm__(".text\n.globl sim_switch_asm\n.type sim_switch_asm,@function\nsim_switch_asm:\n"
		"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
		"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
		"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size sim_switch_asm,.-sim_switch_asm\n");

	static uint64_t* eh_globals() { return reinterpret_cast<uint64_t*>(abi::__cxa_get_globals()); }

	static void switch_to(Fiber* t)
	{
		Fiber* f = S.cur;
		if (t == f)
			return;
		++S.res->switches;
		hmix(S.res->evhash, ((uint64_t)f->id << 40) ^ ((uint64_t)t->id << 32) ^ f->n);
		hmix(S.res->ilvhash, 0x5000 + (uint64_t)t->id);
		uint64_t* eh = eh_globals();
		f->eh[0] = eh[0];
		f->eh[1] = eh[1];
		eh[0] = t->eh[0];
		eh[1] = t->eh[1];
		S.cur = t;
		sim_switch_asm(&f->sp, t->sp);
	}

	// ------------------------------------------------------------------ scheduling
	enum Kind
	{
		P_PLAIN,
		P_SYNC,
		P_YIELD,
		P_BLOCK
	};

	static void wake_timers()
	{
		S.timer = ~0ull;
		for (int i = 0; i < S.nf; ++i) {
			Fiber& x = S.f[i];
			if (x.st == ST_BLOCK && x.deadline <= S.clock) {
				x.st = ST_RUN;
				x.timed_out = true;
				x.deadline = ~0ull;
			}
			else if (x.st == ST_BLOCK && x.deadline < S.timer)
				S.timer = x.deadline;
		}
	}
	static uint64_t next_timer()
	{
		uint64_t m = ~0ull;
		for (int i = 0; i < S.nf; ++i)
			if (S.f[i].st == ST_BLOCK && S.f[i].deadline < m)
				m = S.f[i].deadline;
		return m;
	}
	static int runnable(int* out)
	{
		int k = 0;
		for (int i = 0; i < S.nf; ++i)
			if (S.f[i].st == ST_RUN)
				out[k++] = i;
		return k;
	}

	static void rearm()
	{
		if (S.fair) {
			S.cd = (int64_t)(1 + S.frng.below(400));
			return;
		}
		if (S.mode == M_REPLAY) {
			S.cd = 1;
			return;
		}
		switch (S.policy) {
			case 1: { // pct
				uint64_t nx = S.change_i < S.change.size() ? S.change[S.change_i] : ~0ull;
				uint64_t d = nx == ~0ull ? 100000 : (nx > S.steps ? nx - S.steps : 1);
				S.cd = (int64_t)(d * (S.plain_points ? 1 : W_SYNC));
				break;
			}
			case 4: S.cd = (int64_t)S.mean; break;
			default: {
				// geometric-ish
				uint64_t m = S.mean;
				uint64_t x = 1 + S.rng.below(2 * m);
				if (S.rng.below(8) == 0)
					x = 1 + S.rng.below(m / 4 + 1);
				S.cd = (int64_t)x;
			}
		}
		if (S.policy == 2 && S.stall_i < S.stalls.size()) {
			uint64_t nx = S.stalls[S.stall_i].first;
			int64_t d = nx > S.steps ? (int64_t)(nx - S.steps) : 1;
			if (d < S.cd)
				S.cd = d;
		}
	}

	static int pick_explore(Kind k, const int* run, int nr, int def)
	{
		Fiber* f = S.cur;
		auto rnd_other = [&]() {
			int o[MAX_TASKS], n = 0;
			for (int i = 0; i < nr; ++i)
				if (run[i] != f->id && S.f[run[i]].stalled_until <= S.steps)
					o[n++] = run[i];
			if (n == 0) {
				for (int i = 0; i < nr; ++i)
					if (run[i] != f->id)
						o[n++] = run[i];
				// everyone else is stalled: keep running if we can
				if (f->st == ST_RUN && f->stalled_until <= S.steps)
					return f->id;
			}
			if (n == 0)
				return def;
			return o[S.rng.below((uint64_t)n)];
		};
		if (S.spurious && S.rng.below(S.spurious) == 0) {
			// spurious wake-up of a condition variable waiter
			int o[MAX_TASKS], n = 0;
			for (int i = 0; i < S.nf; ++i)
				if (S.f[i].st == ST_BLOCK && S.f[i].bk == B_COND)
					o[n++] = i;
			if (n) {
				++S.res->spurious;
				return o[S.rng.below((uint64_t)n)];
			}
		}
		switch (S.policy) {
			case 1: {
				if (k == P_YIELD)
					f->prio = S.low_prio > 0 ? --S.low_prio : 0;
				else
					while (S.change_i < S.change.size() && S.steps >= S.change[S.change_i]) {
						++S.change_i;
						f->prio = S.low_prio > 0 ? --S.low_prio : 0;
					}
				int best = -1;
				for (int i = 0; i < nr; ++i)
					if (best < 0 || S.f[run[i]].prio > S.f[best].prio)
						best = run[i];
				return best;
			}
			case 2:
				while (S.stall_i < S.stalls.size() && S.steps >= S.stalls[S.stall_i].first) {
					f->stalled_until = S.steps + (1ull << S.stalls[S.stall_i].second);
					++S.stall_i;
				}
				// fallthrough
			default: break;
		}
		if (k == P_YIELD && S.rng.below(S.yield_stay) == 0 && f->stalled_until <= S.steps)
			return f->id;
		return rnd_other();
	}

	static void go_fair()
	{
		S.fair = true;
		rearm();
		for (int i = 0; i < S.nf; ++i)
			S.f[i].stalled_until = 0;
	}

	static void reschedule(Kind k)
	{
		Fiber* f = S.cur;
		if (S.steps > S.hard_limit)
			fail("LIVENESS", "no progress: %lu scheduling points executed, the last %lu under a fair schedule without faults, and tasks are still running", (unsigned long)S.steps, (unsigned long)(S.steps - S.chaos_limit));
		int run[MAX_TASKS];
		int nr = runnable(run);
		if (nr == 0) {
			uint64_t t = next_timer();
			if (t == ~0ull) {
				char b[200];
				int l = 0;
				for (int i = 0; i < S.nf; ++i)
					if (S.f[i].st == ST_BLOCK && l < 160)
						l += snprintf(b + l, 200 - (size_t)l, " t%d(kind %d)", i, S.f[i].bk);
				fail("DEADLOCK", "every unfinished task is blocked:%s", b);
			}
			S.clock = t;
			wake_timers();
			nr = runnable(run);
		}
		int def = f->id;
		if (k == P_YIELD || k == P_BLOCK) {
			def = -1;
			for (int d = 1; d <= S.nf && def < 0; ++d) {
				int c = (f->id + d) % S.nf;
				if (S.f[c].st == ST_RUN)
					def = c;
			}
		}
		if (k == P_YIELD && (nr != 1 || run[0] != f->id))
			f->lone_yields = 0;
		else if (k == P_YIELD) {
			// only this task can run, and it spins (maybe against a deadline of its own, which the
			// simulator cannot see): let time pass ever faster, by at most 1/8 of the time waited so far
			if (++f->lone_yields == 1)
				f->lone_start = S.clock;
			if (f->lone_yields >= 3) {
				uint64_t t = next_timer();
				if (t != ~0ull) {
					uint64_t adv = (S.clock - f->lone_start) / 8 + 500;
					S.clock = S.clock + adv < t ? S.clock + adv : t;
					wake_timers();
					nr = runnable(run);
				}
			}
		}
		int c = def;
		if (S.fair) {
			c = run[S.frng.below((uint64_t)nr)];
		}
		else if (S.mode == M_REPLAY) {
			auto& v = S.rr[f->id];
			size_t& i = S.ri[f->id];
			while (i < v.size() && v[i].n < f->n)
				++i;
			if (i < v.size() && v[i].n == f->n) {
				int t = v[i].target;
				if (t < S.nf && (S.f[t].st == ST_RUN || (S.f[t].st == ST_BLOCK && S.f[t].bk == B_COND)))
					c = t;
				++i;
			}
		}
		else {
			c = pick_explore(k, run, nr, def);
		}
		if (!S.fair && c != def) {
			if (S.res->nrec < MAX_REC) {
				Rec& r = S.res->rec[S.res->nrec++];
				r.n = f->n;
				r.task = (uint8_t)f->id;
				r.target = (uint8_t)c;
			}
			else
				S.res->rec_overflow = 1;
		}
		rearm();
		Fiber* t = &S.f[c];
		if (t->st == ST_BLOCK) { // spurious wake-up
			t->st = ST_RUN;
			t->timed_out = false;
			t->deadline = ~0ull;
		}
		if (t != f) {
			if (k == P_PLAIN || k == P_SYNC) {
				++S.res->preempts;
				if (S.verbose && f->csn)
					logf("   preempt at point %u -> t%d   [in @0x%lx]", f->n, c, (unsigned long)f->cs[(f->csn < 256 ? f->csn : 256) - 1]);
			}
			switch_to(t);
		}
	}

	static inline void pt(Kind k)
	{
		if (g_nopreempt)
			return;
		Fiber* f = S.cur;
		++f->n;
		++S.steps;
		S.clock += k == P_YIELD ? 500 : 10;
		// these two must not depend on how often reschedule() is entered: a replay enters it at every point
		if (__builtin_expect(S.clock >= S.timer, 0))
			wake_timers();
		if (__builtin_expect(S.steps > S.chaos_limit && !S.fair, 0))
			go_fair();
		if (k == P_PLAIN) {
			if (!S.plain_points && !S.fair && S.mode == M_EXPLORE)
				return;
			if (--S.cd > 0)
				return;
		}
		else if (k == P_SYNC) {
			S.cd -= (int64_t)W_SYNC;
			if (S.cd > 0)
				return;
		}
		reschedule(k);
	}

	static inline void sync_event(int what, uintptr_t a)
	{
		++S.res->syncs;
		hmix(S.res->ilvhash, ((uint64_t)S.cur->id << 56) ^ ((uint64_t)what << 48) ^ a);
	}

	static void block(BlockKind bk, uintptr_t a, uint64_t deadline)
	{
		Fiber* f = S.cur;
		if (g_nopreempt)
			internal("blocking operation inside a NoPreempt scope");
		f->st = ST_BLOCK;
		f->bk = bk;
		f->baddr = a;
		f->deadline = deadline;
		f->timed_out = false;
		if (deadline < S.timer)
			S.timer = deadline;
		++f->n;
		++S.steps;
		reschedule(P_BLOCK);
		f->bk = B_NONE;
	}
	static void wake(BlockKind bk, uintptr_t a, int maxn = MAX_TASKS)
	{
		// FIFO is not promised by any of these primitives: wake in rotating order
		for (int d = 1; d <= S.nf && maxn > 0; ++d) {
			Fiber& x = S.f[(S.cur->id + d) % S.nf];
			if (x.st == ST_BLOCK && x.bk == bk && x.baddr == a) {
				x.st = ST_RUN;
				x.deadline = ~0ull;
				--maxn;
			}
		}
		if (S.policy == 1 && !S.fair)
			S.cd = 0;
	}

	static void run_tls_dtors(Fiber* f)
	{
		while (!f->tls_dtors.empty()) {
			TlsDtor d;
			{
				NoSim ns;
				d = f->tls_dtors.back();
				f->tls_dtors.pop_back();
			}
			d.fn(d.obj);
		}
	}

	static void fiber_main()
	{
		Fiber* f = S.cur;
		try {
			f->fn();
			run_tls_dtors(f);
		}
		catch (Injected&) {
			fail("ESCAPED-EXCEPTION", "an injected exception escaped the task body");
		}
		catch (std::exception& e) {
			fail("ESCAPED-EXCEPTION", "exception escaped the task body: %s", e.what());
		}
		catch (...) {
			fail("ESCAPED-EXCEPTION", "unknown exception escaped the task body");
		}
		if (f->id == 0) {
			++g_off;
			finish(V_OK);
		}
		f->st = ST_DONE;
		f->csn = 0;
		wake(B_JOIN, (uintptr_t)f->id);
		++f->n;
		reschedule(P_BLOCK);
		internal("dead fiber resumed");
	}

	static Fiber* make_fiber(std::function<void()> fn, const char* name)
	{
		NoSim ns;
		if (S.nf >= MAX_TASKS)
			internal("too many tasks");
		Fiber* f = &S.f[S.nf];
		f->id = S.nf;
		f->st = ST_RUN;
		f->fn = std::move(fn);
		f->vc.clear();
		f->acq_fence.clear();
		f->rel_fence.clear();
		memset(f->cnt, 0, sizeof(f->cnt));
		snprintf(f->name, sizeof(f->name), "%s", name ? name : "task");
		if (S.cur) {
			f->vc.join(S.cur->vc);
			++S.cur->vc.c[S.cur->id];
		}
		f->vc.c[f->id] = 1;
		f->prio = 1000000 + (S.rng.next() >> 20);
		uintptr_t top = STACKS + (uintptr_t)(f->id + 1) * STACK_SZ - 64;
		top &= ~(uintptr_t)63;
		void** sp = (void**)top;
		*--sp = nullptr;             // alignment / fake return address
		*--sp = (void*)&fiber_main;  // ret target
		for (int i = 0; i < 6; ++i)
			*--sp = nullptr;
		f->sp = sp;
		++S.nf;
		return f;
	}

	int spawn(std::function<void()> fn, const char* name)
	{
		Fiber* f = make_fiber(std::move(fn), name);
		return f->id;
	}
	int free_tasks() { return MAX_TASKS - S.nf; }
	void join(int id)
	{
		while (S.f[id].st != ST_DONE)
			block(B_JOIN, (uintptr_t)id, ~0ull);
		S.cur->vc.join(S.f[id].vc);
	}
	void join_all()
	{
		for (int i = 0; i < S.nf; ++i)
			if (i != S.cur->id)
				join(i);
	}
	int self() { return S.cur ? S.cur->id : 0; }
	bool running() { return S.running; }
	void yield()
	{
		if (!g_off)
			pt(P_YIELD);
	}
	void point()
	{
		if (!g_off)
			pt(P_SYNC);
	}
	void sleep_ns(uint64_t ns)
	{
		if (!g_off)
			block(B_SLEEP, 0, S.clock + ns);
	}
	uint64_t now_ns() { return S.clock; }
	uint64_t next_seq() { return ++S.seq; }
	uint64_t steps() { return S.steps; }

	// ------------------------------------------------------------------ faults
	void begin_op(const Op& op)
	{
		Fiber* f = S.cur;
		f->op = op;
		f->in_op = true;
		f->fired = 0;
		f->op_alloc = 0;
		memset(f->cnt, 0, sizeof(f->cnt));
	}
	int end_op()
	{
		S.cur->in_op = false;
		return (int)S.cur->fired;
	}
	int fired() { return (int)S.cur->fired; }
	uint64_t op_allocs() { return S.cur->op_alloc; }
	static bool fire(Fiber* f, int kind)
	{
		++f->fired;
		++S.res->faults[kind];
		S.res->nontrivial = 1;
		hmix(S.res->evhash, 0xFA000 + (uint64_t)kind);
		if (S.verbose) {
			char b[512];
			b[0] = 0;
			put_stack(b, sizeof(b), f);
			logf("   FAULT %s #%u fires, stack:%s", fault_names[kind], f->cnt[kind], b);
		}
		return true;
	}
	bool fault_point(int kind)
	{
		if (g_off || !S.running)
			return false;
		Fiber* f = S.cur;
		if (!f->in_op || f->nofault)
			return false;
		if (kind == F_ALLOC) {
			++f->cnt[F_ALLOC];
			++f->cnt[F_ALLOC_P];
			if (f->op.fk == F_ALLOC && (int)f->cnt[F_ALLOC] == f->op.fn)
				return fire(f, F_ALLOC);
			if (f->op.fk == F_ALLOC_P && (int)f->cnt[F_ALLOC_P] >= f->op.fn)
				return fire(f, F_ALLOC_P);
			return false;
		}
		++f->cnt[kind];
		if (f->op.fk == kind && (int)f->cnt[kind] == f->op.fn)
			return fire(f, kind);
		if (kind <= F_CTOR) {
			++f->cnt[F_ANY];
			if (f->op.fk == F_ANY && (int)f->cnt[F_ANY] == f->op.fn) {
				fire(f, F_ANY);
				return true;
			}
		}
		return false;
	}
	NoFault::NoFault() { ++S.cur->nofault; }
	NoFault::~NoFault() { --S.cur->nofault; }
	NoPreempt::NoPreempt() { ++g_nopreempt; }
	NoPreempt::~NoPreempt() { --g_nopreempt; }

	// ------------------------------------------------------------------ heap
	static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }
	static inline uint32_t* rw(uintptr_t a) { return (uint32_t*)(RACE_W + (a - ARENA) * 4); }
	static inline uint32_t* rr(uintptr_t a) { return (uint32_t*)(RACE_R + (a - ARENA) * 4); }
	static inline uint32_t* wpc(uintptr_t a) { return (uint32_t*)(RACE_WPC + ((a - ARENA) >> 3) * 4); }
	static inline uint32_t* rpc(uintptr_t a) { return (uint32_t*)(RACE_RPC + ((a - ARENA) >> 3) * 4); }

	static inline bool inar(uintptr_t a) { return a - ARENA < ARENA_SZ; }
	bool in_arena(const void* p) { return inar((uintptr_t)p); }

	static Block* find_block(uintptr_t a)
	{
		auto it = std::upper_bound(S.blocks.begin(), S.blocks.end(), a, [](uintptr_t x, const Block& b) { return x < b.base; });
		if (it == S.blocks.begin())
			return nullptr;
		--it;
		return &*it;
	}
	bool block_of(const void* p, void** base, size_t* size, bool* live)
	{
		NoSim ns;
		Block* b = find_block((uintptr_t)p);
		if (!b || (uintptr_t)p >= b->base + b->size)
			return false;
		*base = (void*)b->base;
		*size = b->size;
		*live = b->live;
		return true;
	}
	HeapMark heap_mark() { return { S.live_blocks, S.live_bytes }; }
	uint64_t alloc_index() { return S.blocks.size(); }
	void describe_leaks(char* buf, size_t n, uint64_t since)
	{
		NoSim ns;
		buf[0] = 0;
		size_t l = 0;
		int k = 0;
		for (size_t i = since; i < S.blocks.size() && k < 3; ++i)
			if (S.blocks[i].live) {
				if (l + 100 > n)
					return;
				l += (size_t)snprintf(buf + l, n - l, " {block %lu, %u bytes, allocated by task %d @0x%x @0x%x @0x%x @0x%x}", (unsigned long)i, S.blocks[i].size, S.blocks[i].task, S.blocks[i].pc[0], S.blocks[i].pc[1], S.blocks[i].pc[2], S.blocks[i].pc[3]);
				++k;
			}
	}

	static void* arena_alloc(size_t n, size_t align)
	{
		NoSim ns;
		if (align < 16)
			align = 16;
		uintptr_t a = S.bump + 32;
		a = (a + align - 1) & ~(uintptr_t)(align - 1);
		size_t sz = n ? n : 1;
		if (sz > ARENA_SZ || a + sz + 64 > ARENA + ARENA_SZ) {
			if (sz > (ARENA_SZ >> 1)) {
				// an absurd request: behave like a real allocator
				return nullptr;
			}
			internal("arena exhausted");
		}
		S.bump = ((a + sz + 15) & ~(uintptr_t)15) + 16;
		uint8_t* s = shadow(a);
		size_t full = sz >> 3;
		memset(s, 8, full);
		if (sz & 7)
			s[full] = (uint8_t)(sz & 7);
		memset((void*)a, 0xA5, sz > 65536 ? 65536 : sz);
		Block b;
		b.base = a;
		b.size = (uint32_t)n;
		b.align = (uint32_t)align;
		b.live = true;
		b.array = false;
		b.task = (uint8_t)S.cur->id;
		Fiber* f = S.cur;
		for (uint32_t i = 0; i < 4; ++i)
			b.pc[i] = f->csn > i ? (uint32_t)f->cs[(f->csn < 256 ? f->csn : 256) - 1 - i] : 0;
		S.blocks.push_back(b);
		++S.live_blocks;
		S.live_bytes += n;
		++S.res->allocs;
		// the allocation is a write by this task, ordered by nothing else
		uint32_t ep = ((uint32_t)f->id << 27) | (f->vc.c[f->id] & 0x7FFFFFF);
		size_t lim = sz > 1u << 16 ? 1u << 16 : sz;
		uint32_t* w = rw(a);
		for (size_t i = 0; i < lim; ++i)
			w[i] = ep;
		return (void*)a;
	}

	static void race_check(uintptr_t a, size_t n, bool w, uintptr_t pc);

	static void arena_free(void* p, size_t sz, bool sized, size_t align, uintptr_t pc)
	{
		uintptr_t a = (uintptr_t)p;
		if (!g_off)
			race_check(a, 1, true, pc);
		NoSim ns;
		Block* b = find_block(a);
		if (!b || b->base != a)
			fail("BAD-FREE", "free of a pointer that no allocation returned (0x%lx)", (unsigned long)(a - ARENA));
		if (!b->live)
			fail("DOUBLE-FREE", "block of %u bytes freed twice", b->size);
		if (sized && b->size != sz)
			fail("BAD-SIZE-FREE", "block of %u bytes released as %lu bytes", b->size, (unsigned long)sz);
		(void)align;
		if (S.running && b->size <= 65536) {
			// freeing conflicts with any unordered access to the block
			--g_off;
			int save = g_off;
			g_off = 0;
			race_check(a, b->size, true, pc);
			g_off = save;
			++g_off;
		}
		b->live = false;
		--S.live_blocks;
		S.live_bytes -= b->size;
		size_t k = ((b->size ? b->size : 1) + 7) >> 3;
		memset(shadow(a), 0xFD, k);
		memset((void*)a, 0xDD, b->size > 4096 ? 4096 : b->size);
	}

	static inline void mem_check(uintptr_t a, size_t n, bool w, uintptr_t pc)
	{
		// a in arena
		uintptr_t e = a + n;
		for (uintptr_t g = a & ~7ull; g < e; g += 8) {
			uint8_t s = *shadow(g);
			uint64_t need = e - g > 8 ? 8 : e - g;
			if (__builtin_expect(s < need || s == 0xFD, 0)) {
				if (s == 0xFD) {
					NoSim ns;
					Block* b = find_block(g);
					fail("USE-AFTER-FREE", "%s of %lu bytes at offset %ld of a freed block of %u bytes, at @0x%lx", w ? "write" : "read", (unsigned long)n, b ? (long)(a - b->base) : -1l, b ? b->size : 0u, (unsigned long)pc);
				}
				NoSim ns;
				Block* b = find_block(g);
				fail("OUT-OF-BOUNDS", "%s of %lu bytes at offset %ld of a block of %u bytes, at @0x%lx", w ? "write" : "read", (unsigned long)n, b ? (long)(a - b->base) : -1l, b ? b->size : 0u, (unsigned long)pc);
			}
		}
	}

	static void race_check(uintptr_t a, size_t n, bool w, uintptr_t pc)
	{
		Fiber* f = S.cur;
		uint32_t ep = ((uint32_t)f->id << 27) | (f->vc.c[f->id] & 0x7FFFFFF);
		uint32_t* W = rw(a);
		uint32_t* R = rr(a);
		for (size_t i = 0; i < n; ++i) {
			uint32_t we = W[i];
			if (we != ep && we != 0) {
				uint32_t t = we >> 27;
				if (t != (uint32_t)f->id && (we & 0x7FFFFFF) > f->vc.c[t]) {
					NoSim ns;
					Block* b = find_block(a);
					fail("DATA-RACE", "%s by task %d at @0x%lx is unordered with a write by task %u at @0x%x (offset %ld of a block of %u bytes)", w ? "write" : "read", f->id, (unsigned long)pc, t, *wpc(a + i), b ? (long)(a + i - b->base) : -1l, b ? b->size : 0u);
				}
			}
			if (w) {
				uint32_t re = R[i];
				if (re != 0) {
					uint32_t t = re >> 27;
					if (t != (uint32_t)f->id && (re & 0x7FFFFFF) > f->vc.c[t]) {
						NoSim ns;
						Block* b = find_block(a);
						fail("DATA-RACE", "write by task %d at @0x%lx is unordered with a read by task %u at @0x%x (offset %ld of a block of %u bytes)", f->id, (unsigned long)pc, t, *rpc(a + i), b ? (long)(a + i - b->base) : -1l, b ? b->size : 0u);
					}
				}
				W[i] = ep;
			}
			else
				R[i] = ep;
			if (i == 0 || (((a + i) & 7) == 0)) {
				if (w)
					*wpc(a + i) = (uint32_t)pc;
				else
					*rpc(a + i) = (uint32_t)pc;
			}
		}
	}

	static inline void tick()
	{
		if (__builtin_expect(++S.ticks > S.tick_limit, 0))
			fail("LIVENESS", "no progress: a task executed %lu memory accesses without finishing", (unsigned long)S.ticks);
	}

	__attribute__((noinline)) static void access_arena(uintptr_t a, size_t n, bool w, uintptr_t pc)
	{
		pt(P_PLAIN);
		mem_check(a, n, w, pc);
		if (S.nf > 1)
			race_check(a, n, w, pc);
		else if (w) {
			// single task so far: later tasks are ordered after it by their spawn
		}
	}
	// ---- static data of the program (opt-in): the same happens-before check as for the heap
	static constexpr uintptr_t GRACE = 0x1a0000000000ull; // per byte: write epoch, read epoch, write pc, read pc
	static uintptr_t g_static_lo, g_static_hi;
	__attribute__((noinline)) static void access_static(uintptr_t a, size_t n, bool w, uintptr_t pc)
	{
		pt(P_PLAIN);
		Fiber* f = S.cur;
		uint32_t ep = ((uint32_t)f->id << 27) | (f->vc.c[f->id] & 0x7FFFFFF);
		for (size_t i = 0; i < n && a + i < g_static_hi; ++i) {
			uint32_t* q = (uint32_t*)GRACE + (a + i - g_static_lo) * 4;
			for (int k = 0; k < (w ? 2 : 1); ++k) {
				uint32_t e = q[k], t = e >> 27;
				if (e && t != (uint32_t)f->id && (e & 0x7FFFFFF) > f->vc.c[t])
					fail("DATA-RACE", "%s of a static object by task %d at @0x%lx is unordered with a %s by task %u at @0x%x", w ? "write" : "read", f->id, (unsigned long)pc, k ? "read" : "write", t, q[2 + k]);
			}
			q[w ? 0 : 1] = ep;
			q[w ? 2 : 3] = (uint32_t)pc;
		}
	}
	void watch_static()
	{
		uintptr_t lo = (uintptr_t)&__data_start, hi = (uintptr_t)&_end;
		if (!g_static_hi) {
			void* m = mmap((void*)GRACE, ((hi - lo) * 16 + 8191) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
			if (m == MAP_FAILED)
				abort();
		}
		g_static_lo = lo;
		g_static_hi = hi;
	}

	static inline void access(void* p, size_t n, bool w, void* pc)
	{
		if (g_off)
			return;
		tick();
		uintptr_t a = (uintptr_t)p;
		if (__builtin_expect(inar(a), 1))
			access_arena(a, n, w, (uintptr_t)pc);
		else if (__builtin_expect(a - g_static_lo < g_static_hi - g_static_lo, 0))
			access_static(a, n, w, (uintptr_t)pc);
		else if (__builtin_expect(a < 65536, 0))
			fail("NULL-DEREF", "%s of %lu bytes through a null pointer (0x%lx), at @0x%lx", w ? "write" : "read", (unsigned long)n, (unsigned long)a, (unsigned long)pc);
	}
	static inline void access_range(void* p, size_t n, bool w, void* pc)
	{
		if (g_off || n == 0)
			return;
		access(p, n, w, pc);
	}

	// ------------------------------------------------------------------ atomics
	static AtomicVC& avc(uintptr_t a)
	{
		NoSim ns;
		return S.atoms[a];
	}
	static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
	static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

	static void before_atomic(void* p, size_t n, int what, void* pc)
	{
		tick();
		pt(P_SYNC);
		uintptr_t a = (uintptr_t)p;
		sync_event(what, a);
		if (inar(a))
			mem_check(a, n, what != 0, (uintptr_t)pc);
		else if (a < 65536)
			fail("NULL-DEREF", "atomic access through a null pointer (0x%lx), at @0x%lx", (unsigned long)a, (unsigned long)pc);
	}
	static void at_load(uintptr_t a, int mo)
	{
		NoSim ns;
		auto it = S.atoms.find(a);
		if (it == S.atoms.end())
			return;
		if (is_acq(mo))
			S.cur->vc.join(it->second.vc);
		else
			S.cur->acq_fence.join(it->second.vc);
	}
	static void at_store(uintptr_t a, int mo)
	{
		AtomicVC& v = avc(a);
		Fiber* f = S.cur;
		if (is_rel(mo)) {
			v.vc = f->vc;
			v.last_task = f->id;
			++f->vc.c[f->id];
		}
		else {
			// a relaxed store by another thread ends the release sequence (C++17 rules)
			if (v.last_task != f->id)
				v.vc.clear();
			v.vc.join(f->rel_fence);
			v.last_task = f->id;
		}
	}
	static void at_rmw(uintptr_t a, int mo)
	{
		AtomicVC& v = avc(a);
		Fiber* f = S.cur;
		if (is_acq(mo))
			f->vc.join(v.vc);
		else
			f->acq_fence.join(v.vc);
		if (is_rel(mo)) {
			v.vc.join(f->vc);
			++f->vc.c[f->id];
		}
		else
			v.vc.join(f->rel_fence);
	}

	// ------------------------------------------------------------------ mutexes
	static SMutex& mx(void* p)
	{
		NoSim ns;
		return S.mtx[(uintptr_t)p];
	}
	static void m_lock(void* m)
	{
		SMutex* x = &mx(m);
		while (x->owner != -1 || x->shared) {
			if (x->owner == S.cur->id && !x->shared)
				fail("DEADLOCK", "a task locks a mutex it already owns");
			block(B_MUTEX, (uintptr_t)m, ~0ull);
			x = &mx(m);
		}
		x->owner = S.cur->id;
		S.cur->vc.join(x->vc);
		sync_event(20, (uintptr_t)m);
	}
	static void m_unlock(void* m)
	{
		SMutex& x = mx(m);
		if (x.owner != S.cur->id)
			fail("BAD-UNLOCK", "a task unlocks a mutex it does not own");
		x.owner = -1;
		x.vc = S.cur->vc;
		++S.cur->vc.c[S.cur->id];
		sync_event(21, (uintptr_t)m);
		wake(B_MUTEX, (uintptr_t)m);
	}
	static uint64_t to_sim(const timespec* ts, clockid_t clk)
	{
		int64_t ns = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
		if (clk == CLOCK_REALTIME)
			ns -= S.rt_off;
		return ns < 0 ? 0 : (uint64_t)ns;
	}
	static int c_wait(void* c, void* m, uint64_t deadline)
	{
		sync_event(22, (uintptr_t)c);
		m_unlock(m);
		block(B_COND, (uintptr_t)c, deadline);
		bool to = S.cur->timed_out;
		m_lock(m);
		return to ? ETIMEDOUT : 0;
	}

	// ------------------------------------------------------------------ run
	static char g_altstack[65536];
	static void on_signal(int sig, siginfo_t* si, void*)
	{
		if (sig == SIGALRM)
			internal("wall clock limit of one run exceeded at step %lu", (unsigned long)S.steps);
		if (!S.running)
			_exit(78);
		if (sig == SIGABRT)
			fail("ABORT", "the code under test called abort()");
		fail("CRASH", "signal %d at address 0x%lx", sig, (unsigned long)si->si_addr);
	}
	static void on_terminate()
	{
		const char* what = "no active exception";
		static char tn[100];
		if (std::type_info* t = abi::__cxa_current_exception_type()) {
			snprintf(tn, sizeof(tn), "exception of type %s", t->name());
			what = tn;
		}
		fail("TERMINATE", "std::terminate called (%s)", what);
	}

	void runtime_init()
	{
		auto mapfix = [](uintptr_t a, size_t n) {
			void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
			if (p != (void*)a) {
				fprintf(stderr, "sim: cannot map 0x%lx\n", (unsigned long)a);
				_exit(3);
			}
		};
		mapfix(ARENA, ARENA_SZ + 4096);
		mapfix(SHADOW, ARENA_SZ / 8 + 4096);
		mapfix(RACE_W, ARENA_SZ * 4 + 4096);
		mapfix(RACE_R, ARENA_SZ * 4 + 4096);
		mapfix(RACE_WPC, ARENA_SZ / 2 + 4096);
		mapfix(RACE_RPC, ARENA_SZ / 2 + 4096);
		for (int i = 0; i < MAX_TASKS; ++i)
			mapfix(STACKS + (uintptr_t)i * STACK_SZ + 4096, STACK_SZ - 4096);
	}

	void run_simulation(const Plan& plan, const Scenario& sc, const RunCfg& cfg, Result* res)
	{
		S.res = res;
		S.plan = &plan;
		S.verbose = cfg.verbose;
		S.mode = cfg.mode;
		S.rng.reseed(cfg.sched_seed ^ 0x5ced);
		S.frng.reseed(0xfa1);
		Rng& r = S.rng;
		S.policy = cfg.force_policy >= 0 ? cfg.force_policy : (int)r.below(5);
		S.plain_points = !(S.policy == 3) && r.below(3) != 0;
		S.mean = 2 + r.logu(11);
		if (S.policy == 4)
			S.mean = 4 + r.logu(10);
		S.yield_stay = r.chance(1, 2) ? 16 : 3;
		S.spurious = r.chance(1, 4) ? 64 : 0;
		{
			int d = (int)r.range(1, 4);
			unsigned bits = (unsigned)r.range(6, 15);
			for (int i = 0; i < d; ++i)
				S.change.push_back(r.below(1ull << bits));
			std::sort(S.change.begin(), S.change.end());
		}
		if (S.policy == 2) {
			int d = (int)r.range(1, 5);
			unsigned bits = (unsigned)r.range(6, 15);
			for (int i = 0; i < d; ++i)
				S.stalls.push_back({ r.below(1ull << bits), (int)r.range(6, 15) });
			std::sort(S.stalls.begin(), S.stalls.end());
		}
		S.chaos_limit = (uint64_t)plan.get("chaos", 120000);
		S.hard_limit = S.chaos_limit + (uint64_t)plan.get("fair", plan.tasks.size() > 1 ? 3000000 : 30000000); // an algorithm of one task may be slow, but nothing delays it
		S.tick_limit = (uint64_t)plan.get("ticks", plan.tasks.size() > 1 ? 20000000 : 200000000);
		if (cfg.recs)
			for (const Rec& x : *cfg.recs)
				S.rr[x.task % MAX_TASKS].push_back(x);
		for (auto& v : S.rr)
			std::sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.n < b.n; });
		S.blocks.reserve(4096);
		S.atoms.reserve(1024);
		S.running = true;

		stack_t ss;
		memset(&ss, 0, sizeof(ss));
		ss.ss_sp = g_altstack;
		ss.ss_size = sizeof(g_altstack);
		sigaltstack(&ss, nullptr);
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_sigaction = on_signal;
		sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP })
			sigaction(s, &sa, nullptr);
		std::set_terminate(on_terminate);
		alarm(60);

		const Scenario* psc = &sc;
		Fiber* f = make_fiber([psc, &plan]() { psc->run(plan); }, "main");
		S.cur = f;
		rearm();
		void* dummy;
		g_off = 0;
		sim_switch_asm(&dummy, f->sp);
		internal("unreachable");
	}
}

using namespace sim;

// ====================================================================== TSan ABI
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
	if (g_off)
		return;
	Fiber* f = S.cur;
	if (f->csn < 256)
		f->cs[f->csn] = (uintptr_t)pc;
	if (++f->csn > 20000)
		fail("LIVENESS", "unbounded recursion");
	(void)pc;
}
void __tsan_func_exit()
{
	if (g_off)
		return;
	Fiber* f = S.cur;
	if (f->csn)
		--f->csn;
}
#define RWN(n)                                                                                                         \
	void __tsan_read##n(void* a) { access(a, n, false, RA); }                                                      \
	void __tsan_write##n(void* a) { access(a, n, true, RA); }                                                      \
	void __tsan_unaligned_read##n(void* a) { access(a, n, false, RA); }                                            \
	void __tsan_unaligned_write##n(void* a) { access(a, n, true, RA); }                                            \
	void __tsan_read_write##n(void* a) { access(a, n, true, RA); }                                                 \
	void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, RA); }
RWN(1)
RWN(2)
RWN(4)
RWN(8)
RWN(16)
void __tsan_read_range(void* a, unsigned long n) { access_range(a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { access_range(a, n, true, RA); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, RA); }
void __tsan_vptr_read(void** a) { access(a, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	access_range((void*)s, n, false, RA);
	access_range(d, n, true, RA);
	return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	access_range((void*)s, n, false, RA);
	access_range(d, n, true, RA);
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
	access_range(d, n, true, RA);
	return memset(d, c, n);
}

#define ATOMIC(N, T)                                                                                                   \
	T __tsan_atomic##N##_load(const volatile T* a, int mo)                                                         \
	{                                                                                                              \
		if (g_off)                                                                                             \
			return *a;                                                                                     \
		before_atomic((void*)a, sizeof(T), 0, RA);                                                             \
		at_load((uintptr_t)a, mo);                                                                             \
		return *a;                                                                                             \
	}                                                                                                              \
	void __tsan_atomic##N##_store(volatile T* a, T v, int mo)                                                      \
	{                                                                                                              \
		if (g_off) {                                                                                           \
			*a = v;                                                                                        \
			return;                                                                                        \
		}                                                                                                      \
		before_atomic((void*)a, sizeof(T), 1, RA);                                                             \
		at_store((uintptr_t)a, mo);                                                                            \
		*a = v;                                                                                                \
	}                                                                                                              \
	ARMW(N, T, exchange, v)                                                                                        \
	ARMW(N, T, fetch_add, (T)(o + v))                                                                              \
	ARMW(N, T, fetch_sub, (T)(o - v))                                                                              \
	ARMW(N, T, fetch_and, (T)(o & v))                                                                              \
	ARMW(N, T, fetch_or, (T)(o | v))                                                                               \
	ARMW(N, T, fetch_xor, (T)(o ^ v))                                                                              \
	ARMW(N, T, fetch_nand, (T)(~(o & v)))                                                                          \
	static int cas##N(volatile T* a, T* c, T v, int mo, int fmo, void* pc)                                         \
	{                                                                                                              \
		if (!g_off)                                                                                            \
			before_atomic((void*)a, sizeof(T), 3, pc);                                                     \
		T o = *a;                                                                                              \
		if (o == *c) {                                                                                         \
			if (!g_off)                                                                                    \
				at_rmw((uintptr_t)a, mo);                                                              \
			*a = v;                                                                                        \
			return 1;                                                                                      \
		}                                                                                                      \
		if (!g_off)                                                                                            \
			at_load((uintptr_t)a, fmo);                                                                    \
		*c = o;                                                                                                \
		return 0;                                                                                              \
	}                                                                                                              \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, RA); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, RA); }   \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                            \
	{                                                                                                              \
		T e = c;                                                                                               \
		cas##N(a, &e, v, mo, fmo, RA);                                                                         \
		return e;                                                                                              \
	}
#define ARMW(N, T, op, expr)                                                                                           \
	T __tsan_atomic##N##_##op(volatile T* a, T v, int mo)                                                          \
	{                                                                                                              \
		if (!g_off) {                                                                                          \
			before_atomic((void*)a, sizeof(T), 2, RA);                                                     \
			at_rmw((uintptr_t)a, mo);                                                                      \
		}                                                                                                      \
		T o = *a;                                                                                              \
		*a = expr;                                                                                             \
		(void)o;                                                                                               \
		return o;                                                                                              \
	}
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
	if (g_off)
		return;
	pt(P_SYNC);
	sync_event(4, 0);
	Fiber* f = S.cur;
	if (is_acq(mo)) {
		f->vc.join(f->acq_fence);
	}
	if (is_rel(mo)) {
		f->rel_fence = f->vc;
		++f->vc.c[f->id];
	}
}
void __tsan_atomic_signal_fence(int) {}

// ====================================================================== pthread / time
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	m_lock(m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	SMutex& x = mx(m);
	if (x.owner != -1 || x.shared)
		return EBUSY;
	m_lock(m);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	m_unlock(m);
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (!g_off) {
		NoSim ns;
		auto it = S.mtx.find((uintptr_t)m);
		if (it != S.mtx.end()) {
			if (it->second.owner != -1)
				fail("BAD-DESTROY", "a locked mutex is destroyed");
			S.mtx.erase(it);
		}
	}
	return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	return c_wait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	return c_wait(c, m, to_sim(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	return c_wait(c, m, to_sim(ts, clk));
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	sync_event(23, (uintptr_t)c);
	wake(B_COND, (uintptr_t)c);
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	sync_event(24, (uintptr_t)c);
	wake(B_COND, (uintptr_t)c, 1);
	return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int rw_lock(void* m, bool sh, bool tr)
{
	SMutex* x = &mx(m);
	while (x->owner != -1 || (!sh && x->shared)) {
		if (tr)
			return EBUSY;
		block(B_MUTEX, (uintptr_t)m, ~0ull);
		x = &mx(m);
	}
	if (sh)
		++x->shared;
	else
		x->owner = S.cur->id;
	S.cur->vc.join(x->vc);
	sync_event(25, (uintptr_t)m);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return g_off ? 0 : (pt(P_SYNC), rw_lock(m, true, false)); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return g_off ? 0 : (pt(P_SYNC), rw_lock(m, false, false)); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return g_off ? 0 : (pt(P_SYNC), rw_lock(m, true, true)); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return g_off ? 0 : (pt(P_SYNC), rw_lock(m, false, true)); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
	if (g_off)
		return 0;
	pt(P_SYNC);
	SMutex& x = mx(m);
	if (x.owner == S.cur->id)
		x.owner = -1;
	else if (x.shared > 0)
		--x.shared;
	else
		fail("BAD-UNLOCK", "a task unlocks a rwlock it does not own");
	x.vc.join(S.cur->vc);
	++S.cur->vc.c[S.cur->id];
	wake(B_MUTEX, (uintptr_t)m);
	return 0;
}
int sched_yield() noexcept
{
	if (!g_off) {
		sync_event(30, 0);
		pt(P_YIELD);
	}
	return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
	if (!g_off)
		sim::sleep_ns((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*)
{
	if (!g_off) {
		uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
		sim::sleep_ns(flags ? (t > S.clock ? t - S.clock : 0) : t);
	}
	return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
	if (S.running) {
		if (!g_off)
			pt(P_SYNC);
		int64_t t = (int64_t)S.clock + (c == CLOCK_REALTIME ? S.rt_off : 0);
		ts->tv_sec = t / 1000000000;
		ts->tv_nsec = t % 1000000000;
		return 0;
	}
	return (int)syscall(SYS_clock_gettime, c, ts);
}

// ====================================================================== thread_local, static guards
struct emutls_object
{
	size_t size;
	size_t align;
	union
	{
		size_t offset;
		void* ptr;
	} loc;
	void* templ;
};
void* __emutls_get_address(emutls_object* o)
{
	NoSim ns;
	if (!S.running) {
		if (!o->loc.ptr) {
			o->loc.ptr = aligned_alloc(64, (o->size + 63) & ~63ul);
			if (o->templ)
				memcpy(o->loc.ptr, o->templ, o->size);
			else
				memset(o->loc.ptr, 0, o->size);
		}
		return o->loc.ptr;
	}
	Fiber* f = S.cur;
	for (auto& e : f->tls)
		if (e.control == o)
			return e.mem;
	void* m = arena_alloc(o->size, o->align < 16 ? 16 : o->align);
	// bookkeeping: not a user allocation
	--S.live_blocks;
	S.live_bytes -= o->size;
	S.blocks.back().live = true;
	if (o->templ)
		memcpy(m, o->templ, o->size);
	else
		memset(m, 0, o->size);
	f->tls.push_back({ o, m });
	return m;
}
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) noexcept
{
	if (!S.running)
		return __cxa_thread_atexit_impl(fn, obj, dso);
	NoSim ns;
	S.cur->tls_dtors.push_back({ fn, obj });
	return 0;
}
}

namespace __cxxabiv1
{
	extern "C" int __cxa_guard_acquire(__guard* g)
	{
		volatile char* p = (volatile char*)g;
		if (p[0])
			return 0;
		if (g_off) {
			p[1] = 1;
			return 1;
		}
		pt(P_SYNC);
		sync_event(40, (uintptr_t)g);
		for (;;) {
			if (p[0]) {
				at_load((uintptr_t)g, __ATOMIC_ACQUIRE);
				return 0;
			}
			if (!p[1]) {
				p[1] = 1;
				return 1;
			}
			block(B_GUARD, (uintptr_t)g, ~0ull);
		}
	}
	extern "C" void __cxa_guard_release(__guard* g) noexcept
	{
		volatile char* p = (volatile char*)g;
		p[1] = 0;
		p[0] = 1;
		if (g_off)
			return;
		at_store((uintptr_t)g, __ATOMIC_RELEASE);
		sync_event(41, (uintptr_t)g);
		wake(B_GUARD, (uintptr_t)g);
		pt(P_SYNC);
	}
	extern "C" void __cxa_guard_abort(__guard* g) noexcept
	{
		volatile char* p = (volatile char*)g;
		p[1] = 0;
		if (g_off)
			return;
		wake(B_GUARD, (uintptr_t)g);
	}
}

namespace std
{
	namespace chrono
	{
		inline namespace _V2
		{
			system_clock::time_point system_clock::now() noexcept
			{
				timespec ts;
				clock_gettime(CLOCK_REALTIME, &ts);
				return time_point(nanoseconds((int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec));
			}
			steady_clock::time_point steady_clock::now() noexcept
			{
				timespec ts;
				clock_gettime(CLOCK_MONOTONIC, &ts);
				return time_point(nanoseconds((int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec));
			}
		}
	}
}

// ====================================================================== operator new / delete
// The library may use malloc() and posix_memalign() directly: the program is linked with --wrap for these.
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void __real_free(void*);

static void* do_malloc(size_t n, size_t align)
{
	tick();
	pt(P_SYNC);
	++S.cur->op_alloc;
	if (fault_point(F_ALLOC)) {
		errno = ENOMEM;
		return nullptr;
	}
	return arena_alloc(n, align);
}
void* __wrap_malloc(size_t n) { return g_off ? __real_malloc(n) : do_malloc(n, 16); }
void* __wrap_calloc(size_t n, size_t m)
{
	if (g_off)
		return __real_calloc(n, m);
	void* p = m && n > SIZE_MAX / m ? nullptr : do_malloc(n * m, 16);
	if (p)
		memset(p, 0, n * m);
	return p;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return g_off ? __real_aligned_alloc(a, n) : do_malloc(n, a); }
int __wrap_posix_memalign(void** r, size_t a, size_t n)
{
	if (g_off)
		return __real_posix_memalign(r, a, n);
	void* p = do_malloc(n, a);
	if (!p)
		return ENOMEM;
	*r = p;
	return 0;
}
void __wrap_free(void* p)
{
	if (!p)
		return;
	if (in_arena(p)) {
		if (!g_off)
			pt(P_PLAIN);
		arena_free(p, 0, false, 16, (uintptr_t)RA);
	}
	else
		__real_free(p);
}
void* __wrap_realloc(void* p, size_t n)
{
	if (p ? !in_arena(p) : g_off != 0)
		return __real_realloc(p, n);
	if (g_off)
		internal("realloc outside of the simulation");
	void* q = do_malloc(n, 16);
	if (q && p) {
		size_t old = 0;
		{
			NoSim ns;
			if (Block* b = find_block((uintptr_t)p))
				old = b->size;
			memcpy(q, p, old < n ? old : n);
		}
		__wrap_free(p);
	}
	return q;
}
}
static void* do_new(size_t n, size_t align, bool nothrow)
{
	if (!g_off) {
		tick();
		pt(P_SYNC);
		++S.cur->op_alloc;
		if (fault_point(F_ALLOC)) {
			if (nothrow)
				return nullptr;
			throw std::bad_alloc();
		}
		void* p = arena_alloc(n, align);
		if (!p && !nothrow)
			throw std::bad_alloc();
		return p;
	}
	void* p = align > 16 ? __real_aligned_alloc(align, (n + align - 1) & ~(align - 1)) : __real_malloc(n ? n : 1);
	if (!p)
		abort();
	return p;
}
static void do_delete(void* p, size_t sz, bool sized, size_t align, void* pc)
{
	if (!p)
		return;
	if (in_arena(p)) {
		if (!g_off)
			pt(P_PLAIN);
		arena_free(p, sz, sized, align, (uintptr_t)pc);
	}
	else
		__real_free(p);
}
void* operator new(size_t n) { return do_new(n, 16, false); }
void* operator new[](size_t n) { return do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { do_delete(p, 0, false, 16, RA); }
void operator delete[](void* p) noexcept { do_delete(p, 0, false, 16, RA); }
void operator delete(void* p, size_t n) noexcept { do_delete(p, n, true, 16, RA); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, 0, false, 16, RA); }
void operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, (size_t)a, RA); }
void operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, (size_t)a, RA); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, n, true, (size_t)a, RA); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { do_delete(p, 0, false, (size_t)a, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, false, 16, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, false, 16, RA); }
