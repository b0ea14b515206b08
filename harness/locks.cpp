// C07: spinlock and shared_spinner.
#include "../sim/sim.hpp"
#include <seq/lock.hpp>
#include <shared_mutex>
#include <mutex>
#include <memory>

using namespace sim;

namespace
{
	enum
	{
		LOCK,
		TRY,
		TRY_FOR,
		TRY_UNTIL,
		LOCK_SH,
		TRY_SH,
		MULTI_SH,
		UNIQUE,
		SHARED,
		NOPS
	};
	const char* const names[NOPS] = { "lock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "try_lock_shared", "try_lock_shared*k", "unique_lock", "shared_lock" };

	enum
	{
		L_SPIN,
		L_S8,
		L_S16,
		L_S32,
		L_S64,
		NLOCK
	};
	const char* const lnames[NLOCK] = { "spinlock", "shared_spinner<uint8_t>", "shared_spinner<uint16_t>", "shared_spinner<uint32_t>", "shared_spinner<uint64_t>" };

	struct Data
	{
		long x, y;
	};

	template<class L>
	struct Box
	{
		L lock;
		Data d{ 0, 0 };
	};

	// holders, as seen by the oracle
	struct Oracle
	{
		int writer = -1;
		int readers[16] = { 0 };
		long incs = 0;
	};

	template<class L>
	struct Runner
	{
		Box<L>* b;
		Oracle o;
		bool is_spin;
		bool readers_share;

		void enter_x(const char* how)
		{
			NoSim ns;
			if (o.writer >= 0)
				fail("MUTUAL-EXCLUSION", "%s: task %d holds the lock exclusively while task %d does", how, self(), o.writer);
			for (int i = 0; i < 16; ++i)
				if (o.readers[i])
					fail("MUTUAL-EXCLUSION", "%s: task %d holds the lock exclusively while task %d holds it shared", how, self(), i);
			o.writer = self();
		}
		void leave_x()
		{
			NoSim ns;
			o.writer = -1;
		}
		void enter_s(const char* how)
		{
			NoSim ns;
			if (o.writer >= 0)
				fail("MUTUAL-EXCLUSION", "%s: task %d holds the lock shared while task %d holds it exclusively", how, self(), o.writer);
			if (!readers_share)
				for (int i = 0; i < 16; ++i)
					if (o.readers[i] && i != self())
						fail("MUTUAL-EXCLUSION", "%s: two holders of an exclusive-only lock", how);
			++o.readers[self()];
		}
		void leave_s()
		{
			NoSim ns;
			--o.readers[self()];
		}
		void body_x(long hold)
		{
			if (!b->lock.is_locked())
				fail("IS-LOCKED", "is_locked() is false while the calling task holds the lock exclusively");
			long x = b->d.x;
			if (b->d.y != x)
				fail("TORN-READ", "exclusive section sees a half-done update (%ld/%ld)", x, b->d.y);
			b->d.x = x + 1;
			for (long i = 0; i < hold; ++i)
				point();
			if (b->d.x != x + 1)
				fail("LOST-UPDATE", "value changed inside an exclusive section");
			b->d.y = x + 1;
			NoSim ns;
			++o.incs;
		}
		void body_s(long hold)
		{
			if (!b->lock.is_locked())
				fail("IS-LOCKED", "is_locked() is false while the calling task holds the lock shared");
			long x = b->d.x;
			for (long i = 0; i < hold; ++i)
				point();
			if (b->d.x != x || b->d.y != x)
				fail("TORN-READ", "value changed inside a shared section");
		}
		void op(const Op& p)
		{
			L& l = b->lock;
			logf("%s(%ld) hold %ld", names[p.code], p.a, p.b);
			switch (p.code) {
				case LOCK:
					l.lock();
					enter_x("lock");
					body_x(p.b);
					leave_x();
					l.unlock();
					break;
				case TRY:
					if (l.try_lock()) {
						enter_x("try_lock");
						body_x(p.b);
						leave_x();
						l.unlock();
					}
					break;
				case TRY_FOR:
				case TRY_UNTIL:
					if constexpr (std::is_same_v<L, seq::spinlock>) {
						uint64_t t0 = now_ns();
						uint64_t d = (uint64_t)p.a;
						bool ok = p.code == TRY_FOR ? l.try_lock_for(std::chrono::nanoseconds(d)) : l.try_lock_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(d));
						uint64_t t1 = now_ns();
						if (ok) {
							enter_x(names[p.code]);
							body_x(p.b);
							leave_x();
							l.unlock();
							probe("timed_ok");
						}
						else {
							probe("timed_timeout");
							if (t1 < t0 + d)
								fail("EARLY-TIMEOUT", "%s gave up after %lu of %lu ns", names[p.code], (unsigned long)(t1 - t0), (unsigned long)d);
						}
						// overshoot: scheduling delays are bounded by 20 ms of simulated time
						if (!ok && t1 > t0 + d + d / 2 + 40000000ull)
							fail("LATE-TIMEOUT", "%s gave up %lu ns after its deadline", names[p.code], (unsigned long)(t1 - t0 - d));
					}
					break;
				case LOCK_SH:
					l.lock_shared();
					enter_s("lock_shared");
					body_s(p.b);
					leave_s();
					l.unlock_shared();
					break;
				case TRY_SH:
					if (l.try_lock_shared()) {
						enter_s("try_lock_shared");
						body_s(p.b);
						leave_s();
						l.unlock_shared();
					}
					break;
				case MULTI_SH: {
					long k = 0;
					for (long i = 0; i < p.a; ++i)
						if (l.try_lock_shared()) {
							enter_s("try_lock_shared");
							++k;
						}
					probe("multi_shared_max", (uint64_t)k);
					if (k) {
						body_s(p.b);
						for (long i = 0; i < k; ++i) {
							leave_s();
							l.unlock_shared();
						}
					}
					break;
				}
				case UNIQUE: {
					std::unique_lock<L> g(l);
					enter_x("unique_lock");
					body_x(p.b);
					leave_x();
					break;
				}
				case SHARED: {
					std::shared_lock<L> g(l);
					enter_s("shared_lock");
					body_s(p.b);
					leave_s();
					break;
				}
			}
		}
		void run(const Plan& plan)
		{
			b = new Box<L>();
			is_spin = std::is_same_v<L, seq::spinlock>;
			readers_share = !is_spin;
			long holder = plan.get("long_holder_ns");
			for (size_t t = 0; t < plan.tasks.size(); ++t)
				spawn([this, &plan, t, holder]() {
					if (t == 0 && holder) {
						b->lock.lock();
						enter_x("lock");
						sleep_ns((uint64_t)holder);
						leave_x();
						b->lock.unlock();
					}
					for (auto& p : plan.tasks[t]) {
						op(p);
						next_seq();
					}
				});
			join_all();
			// quiescence: nobody holds the lock, so every mode must be available
			if (b->lock.is_locked() && is_spin)
				fail("STUCK-LOCK", "the lock is still held after every holder released it");
			// a stale "writer waiting" mark may only defer try-operations, never a blocking one
			b->lock.lock();
			b->lock.unlock();
			if (!b->lock.try_lock())
				fail("STUCK-LOCK", "try_lock fails on a lock nobody holds or waits for");
			if (b->lock.try_lock())
				fail("MUTUAL-EXCLUSION", "try_lock succeeds on a lock already held");
			if (b->lock.try_lock_shared())
				fail("MUTUAL-EXCLUSION", "try_lock_shared succeeds on a lock held exclusively");
			b->lock.unlock();
			if (!b->lock.try_lock_shared())
				fail("STUCK-LOCK", "try_lock_shared fails on a lock nobody holds or waits for");
			if (b->lock.try_lock())
				fail("MUTUAL-EXCLUSION", "try_lock succeeds on a lock held shared");
			// failed attempt of a try_lock must not have changed the state
			if (readers_share) {
				if (!b->lock.try_lock_shared())
					fail("STUCK-LOCK", "two shared holders are refused without any writer");
				b->lock.unlock_shared();
			}
			b->lock.unlock_shared();
			if (b->lock.is_locked())
				fail("STUCK-LOCK", "the lock is still held after every holder released it");
			if (b->d.x != o.incs || b->d.y != o.incs)
				fail("LOST-UPDATE", "%ld exclusive sections, counter shows %ld", o.incs, b->d.x);
			delete b;
		}
		// readers that never leave the lock free between them; a writer must still get in
		void run_starve(const Plan& plan)
		{
			if constexpr (!std::is_same_v<L, seq::spinlock>) {
				b = new Box<L>();
				is_spin = false;
				readers_share = true;
				struct Sh
				{
					long inside = 0; // oracle-side counters (no simulation)
					long gen = 0;
					bool failed_try = false;
					bool done = false;
				};
				auto* sh = new (std::nothrow) Sh();
				int nr = 2;
				int writers = (int)plan.get("writers", 1);
				auto get = [sh](int what) {
					NoSim ns;
					return what == 0 ? (long)sh->done : what == 1 ? sh->gen : (long)sh->failed_try;
				};
				for (int i = 0; i < nr; ++i)
					spawn([=]() {
						while (!get(0)) {
							if (!b->lock.try_lock_shared()) {
								{
									NoSim ns;
									sh->failed_try = true;
								}
								yield();
								continue;
							}
							long g0;
							{
								NoSim ns;
								sh->failed_try = false;
								g0 = ++sh->gen;
							}
							// hold until the other reader is in, or was refused
							while (get(1) == g0 && !get(2) && !get(0))
								yield();
							b->lock.unlock_shared();
						}
					});
				for (int i = 0; i < writers; ++i)
					spawn([=]() {
						for (long k = 0; k < plan.get("delay"); ++k)
							point();
						b->lock.lock();
						enter_x("lock");
						body_x(2);
						leave_x();
						b->lock.unlock();
						NoSim ns;
						if (++sh->inside == writers)
							sh->done = true;
					});
				join_all();
				delete sh;
				delete b;
			}
		}
		// shared means shared: every reader waits inside for all the others
		void run_rendezvous(const Plan& plan)
		{
			if constexpr (!std::is_same_v<L, seq::spinlock>) {
				b = new Box<L>();
				long in = 0;
				long n = plan.get("readers", 2);
				for (long i = 0; i < n; ++i)
					spawn([&in, n, this]() {
						b->lock.lock_shared();
						{
							NoSim ns;
							++in;
						}
						for (;;) {
							{
								NoSim ns;
								if (in >= n)
									break;
							}
							yield();
						}
						b->lock.unlock_shared();
					});
				join_all();
				if (b->lock.is_locked())
					fail("STUCK-LOCK", "the lock is still held after every holder released it");
				delete b;
			}
		}
	};

	void gen(Plan& p, Rng& r)
	{
		p.p["cfg_lock"] = (long)r.below(NLOCK);
		bool spin = p.p["cfg_lock"] == L_SPIN;
		int kind = (int)r.below(16);
		if (!spin && kind == 0) {
			p.p["cfg_kind"] = 1;
			p.p["writers"] = r.range(1, 2);
			p.p["delay"] = r.range(0, 40);
			p.p["multi"] = 1;
			p.p["chaos"] = 5000;
			p.p["fair"] = 300000;
			return;
		}
		if (!spin && kind == 1) {
			p.p["cfg_kind"] = 2;
			p.p["readers"] = r.range(2, 5);
			p.p["multi"] = 1;
			p.p["chaos"] = 5000;
			p.p["fair"] = 300000;
			return;
		}
		p.p["cfg_kind"] = 0;
		if (spin && r.chance(1, 4))
			p.p["long_holder_ns"] = 100000000;
		int nt = (int)r.range(2, 5);
		// swarm: a random subset of operations
		std::vector<int> allowed;
		for (int i = 0; i < NOPS; ++i)
			if (r.chance(1, 2))
				allowed.push_back(i);
		if (allowed.empty())
			allowed = { LOCK, TRY };
		for (int t = 0; t < nt; ++t) {
			p.tasks.emplace_back();
			int n = (int)r.range(1, 8);
			for (int i = 0; i < n; ++i) {
				Op o;
				o.code = allowed[r.below(allowed.size())];
				if (spin && o.code == MULTI_SH)
					o.code = TRY_SH;
				if (!spin && (o.code == TRY_FOR || o.code == TRY_UNTIL))
					o.code = LOCK;
				if (o.code == MULTI_SH)
					o.a = r.range(2, 40);
				if (o.code == TRY_FOR || o.code == TRY_UNTIL)
					o.a = (long)r.logu(20);
				o.b = r.range(0, 6);
				p.tasks.back().push_back(o);
			}
		}
	}
	template<class L>
	void run_t(const Plan& p)
	{
		Runner<L> r;
		if (p.get("cfg_kind") == 1)
			r.run_starve(p);
		else if (p.get("cfg_kind") == 2)
			r.run_rendezvous(p);
		else
			r.run(p);
	}
	void run(const Plan& p)
	{
		switch (p.get("cfg_lock")) {
			case L_SPIN: run_t<seq::spinlock>(p); break;
			case L_S8: run_t<seq::shared_spinner<uint8_t>>(p); break;
			case L_S16: run_t<seq::shared_spinner<uint16_t>>(p); break;
			case L_S32: run_t<seq::shared_spinner<uint32_t>>(p); break;
			case L_S64: run_t<seq::shared_spinner<uint64_t>>(p); break;
		}
	}
	std::string show(const Plan& p, const Op& o)
	{
		return std::string(lnames[p.get("cfg_lock")]) + "." + names[o.code] + "(" + std::to_string(o.a) + ") hold " + std::to_string(o.b);
	}
}
SIM_SCENARIO("locks", gen, run, show, 1, "C07");
