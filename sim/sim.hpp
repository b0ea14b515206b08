// Deterministic simulator: public API used by the harnesses.
//
// All library code under test is compiled with clang's -fsanitize=thread instrumentation and linked
// against OUR runtime (simrt.cpp) instead of TSan's: every atomic operation, every plain access to the
// simulated heap, every pthread / clock / sleep / yield call and every allocation lands in the simulator.
// Tasks are fibers on one OS thread. One seed decides everything.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
	// ---------------------------------------------------------------- PRNG
	struct Rng
	{
		uint64_t s[2];
		explicit Rng(uint64_t seed = 1) { reseed(seed); }
		static uint64_t mix(uint64_t& x)
		{
			uint64_t z = (x += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		void reseed(uint64_t seed)
		{
			s[0] = mix(seed);
			s[1] = mix(seed);
		}
		uint64_t next()
		{
			uint64_t a = s[0], b = s[1];
			uint64_t r = a + b;
			b ^= a;
			s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
			s[1] = (b << 37) | (b >> 27);
			return r;
		}
		// uniform in [0,n)
		uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
		long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		// log-uniform integer in [1, 2^bits]
		uint64_t logu(unsigned bits)
		{
			uint64_t b = below(bits + 1);
			uint64_t lo = 1ull << b;
			return lo + below(lo);
		}
	};

	// ---------------------------------------------------------------- plans
	enum FaultKind
	{
		F_NONE = 0,
		F_ALLOC = 1,   // n-th allocation of the operation throws bad_alloc
		F_ALLOC_P = 2, // n-th and all following allocations of the operation fail
		F_COPY = 3,    // n-th element copy throws
		F_MOVE = 4,    // n-th element move throws
		F_HASH = 5,    // n-th hash call throws
		F_CMP = 6,     // n-th equality / ordering call throws
		F_FUNC = 7,    // n-th user functor call throws
		F_CTOR = 8,    // n-th element value construction throws
		F_IO_SHORT = 9,
		F_IO_ERR = 10,
		F_IO_EOF = 11,
		F_ANY = 12, // n-th fault point of any user-code kind (copy/move/hash/cmp/func/ctor) throws
		F_IO_SEEK = 13,
		F_COUNT = 14
	};
	extern const char* const fault_names[F_COUNT];

	struct Op
	{
		int code = 0;
		long a = 0, b = 0, c = 0;
		int fk = 0; // fault kind
		int fn = 0; // n-th occurrence
	};
	struct Plan
	{
		std::string scenario;
		std::map<std::string, long> p;
		std::vector<std::vector<Op>> tasks;
		long get(const char* k, long def = 0) const
		{
			auto it = p.find(k);
			return it == p.end() ? def : it->second;
		}
	};

	struct Scenario
	{
		const char* name;
		// generates a plan (simulation off)
		void (*gen)(Plan&, Rng&);
		// executes it, as simulated task 0
		void (*run)(const Plan&);
		// human readable operation
		std::string (*show)(const Plan&, const Op&);
		int weight;
		// which properties this scenario decides: "C01,C02"
		const char* props;
	};
	struct Register
	{
		Register(const Scenario& s);
	};
	std::vector<Scenario>& scenarios();

	// ---------------------------------------------------------------- tasks
	int spawn(std::function<void()> fn, const char* name = nullptr);
	void join_all();             // wait for every task spawned by the caller
	void join(int id);
	int free_tasks();            // task slots left
	int self();                  // current task id
	void yield();                // explicit scheduling point (yield)
	void point();                // explicit scheduling point
	void sleep_ns(uint64_t ns);  // simulated sleep
	uint64_t now_ns();           // simulated clock
	uint64_t next_seq();              // global event sequence number (strictly increasing)
	uint64_t steps();
	void watch_static(); // from now on, look for data races on objects of static storage too
	bool running();

	// ---------------------------------------------------------------- faults
	void begin_op(const Op& op);
	// returns number of faults that fired during the operation
	int end_op();
	int fired();                       // number of faults fired so far in the current operation
	bool fault_point(int kind);        // true when the caller must fail now
	uint64_t op_allocs();              // allocations attempted by the current operation
	struct Injected                    // exception thrown by injected user-code failures
	{
		int kind;
	};
	inline void maybe_throw(int kind);
	struct NoFault // disables fault injection in a scope (still schedules)
	{
		NoFault();
		~NoFault();
	};

	// ---------------------------------------------------------------- simulation off (oracle code)
	extern int g_off;
	void sim_off() noexcept;
	void sim_on() noexcept;
	struct NoSim
	{
		// out of line: a compiler barrier, and no instrumented access to g_off itself
		NoSim() { sim_off(); }
		~NoSim() { sim_on(); }
		NoSim(const NoSim&) = delete;
	};
	// scheduling off but heap checks and sim allocation stay on
	struct NoPreempt
	{
		NoPreempt();
		~NoPreempt();
	};

	// ---------------------------------------------------------------- verdicts
	[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	bool verbose();
	void probe(const char* name, uint64_t n = 1);
	void state_hash(uint64_t h); // contributes to the distinct-state measure of the run
	void mark_nontrivial();
	// one task only: a bounded piece of work is done, the limit on steps without progress starts anew
	void progress();

	// ---------------------------------------------------------------- heap
	struct HeapMark
	{
		uint64_t live_blocks, live_bytes;
	};
	HeapMark heap_mark();
	bool in_arena(const void* p);
	// current block for p (base,size) or false
	bool block_of(const void* p, void** base, size_t* size, bool* live);
	void describe_leaks(char* buf, size_t n, uint64_t since_alloc_index);
	uint64_t alloc_index();

	inline void maybe_throw(int kind)
	{
		if (fault_point(kind))
			throw Injected{ kind };
	}
}

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_SCENARIO(nm, gen, run, show, weight, props) static ::sim::Register SIM_CAT(sim_reg_, __LINE__)(::sim::Scenario{ nm, gen, run, show, weight, props })
