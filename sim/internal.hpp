// Shared between runtime (simrt.cpp) and driver (driver.cpp). Not for harnesses.
#pragma once
#include "sim.hpp"

namespace sim
{
	constexpr int MAX_TASKS = 16;
	constexpr int MAX_PROBES = 96;
	constexpr uint32_t MAX_REC = 1u << 17;
	constexpr int MAX_STATES = 64;
	constexpr uint32_t LOG_SZ = 1u << 18;

	struct Rec
	{
		uint32_t n;      // the n-th scheduling point of `task`
		uint8_t task;    //
		uint8_t target;  // task that runs next
		uint8_t pad[2];
	};
	enum Verdict
	{
		V_RUNNING = 0,
		V_OK = 1,
		V_VIOLATION = 2,
		V_INTERNAL = 3
	};
	struct Result
	{
		int verdict;
		char cls[40];
		char msg[4096];
		uint64_t evhash;  // everything that happened
		uint64_t ilvhash; // synchronisation order
		uint64_t steps, simns, switches, preempts, syncs, allocs, spurious;
		uint64_t faults[F_COUNT];
		int ntasks;
		int nontrivial;
		int policy;
		int nprobes;
		char probe_name[MAX_PROBES][48];
		uint64_t probe_cnt[MAX_PROBES];
		int nstates;
		uint64_t states[MAX_STATES];
		uint32_t nrec;
		uint32_t rec_overflow;
		uint32_t nlog;
		Rec rec[MAX_REC];
		char log[LOG_SZ];
	};

	enum Mode
	{
		M_EXPLORE,
		M_REPLAY
	};
	struct RunCfg
	{
		Mode mode = M_EXPLORE;
		uint64_t sched_seed = 0;
		const std::vector<Rec>* recs = nullptr;
		bool verbose = false;
		int force_policy = -1;
	};

	// executes in the (forked) child; never returns
	[[noreturn]] void run_simulation(const Plan& plan, const Scenario& sc, const RunCfg& cfg, Result* res);
	// once per process, before any fork
	void runtime_init();
	uint64_t real_ns();
	extern const char* const policy_names[];
}
