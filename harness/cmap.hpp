// Concurrent map / set harness (C01-C06, C08). One template, several configurations (cmap_*.cpp).
#pragma once
#include "common.hpp"
#include "lin.hpp"
#include <seq/concurrent_map.hpp>
#ifdef CMAP_PAR
#include <execution>
#endif
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace cm
{
	using namespace sim;
	using namespace h;

	// ------------------------------------------------------------------ keys, values, hash
	extern int g_hash_mode; // bucket and tag distribution of the run
	extern int g_shard_mode;

	inline size_t mix64(uint64_t x)
	{
		x ^= x >> 31;
		x *= 0x7fb5d329728ea185ull;
		x ^= x >> 27;
		x *= 0x81dadef4bc2dd44dull;
		x ^= x >> 33;
		return x;
	}
	inline size_t hash_of(long k)
	{
		uint64_t m = mix64((uint64_t)k + 77);
		uint64_t low, tag;
		switch (g_hash_mode) {
			default:
			case 0: low = m & 0x7fffffff; tag = m >> 56; break;	     // well spread
			case 1: low = 0; tag = (uint64_t)(k & 0xff); break;	     // one bucket, distinct tags
			case 2: low = (uint64_t)(k & 1); tag = 7; break;	     // two buckets, equal tags
			case 3: low = (uint64_t)(k & 3); tag = (uint64_t)(k & 0xff); break; // four buckets
			case 4: low = (uint64_t)(k & 1) << 1 | (m & 1 ? 0 : 0); tag = 0; break; // even buckets only, tag 0
		}
		uint64_t shard = g_shard_mode == 0 ? (m >> 40) & 1023 : g_shard_mode == 1 ? 0 : (uint64_t)(k & 1);
		return (size_t)(low | shard << 47 | tag << 57);
	}

	template<bool Throwing>
	struct SetElem : Elem<Throwing, 2>
	{
		using B = Elem<Throwing, 2>;
		long w = 0;
		SetElem() {}
		explicit SetElem(long k, long pay = 0)
		  : B(k)
		  , w(pay)
		{
		}
	};
	struct Pod
	{
		long v = 0, dup = 0;
		Pod() {}
		explicit Pod(long x)
		  : v(x)
		  , dup(x)
		{
		}
		long get() const
		{
			long a = v, b = dup;
			if (a != b)
				fail("TORN-READ", "a value is seen half written (%ld / %ld)", a, b);
			return a;
		}
		void set(long x)
		{
			v = x;
			point();
			dup = x;
		}
		bool operator==(const Pod& o) const { return v == o.v; }
	};

	inline long kid(long k) { return k; }
	template<bool T, int G, bool A, size_t N>
	long kid(const Elem<T, G, A, N>& e)
	{
		return e.get();
	}
	template<bool T>
	long kid(const SetElem<T>& e)
	{
		return e.get();
	}

	struct Hash
	{
		using is_avalanching = int;
		template<class K>
		size_t operator()(const K& k) const noexcept
		{
			return hash_of(kid(k));
		}
	};
	struct Eq
	{
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			maybe_throw(F_CMP);
			return kid(a) == kid(b);
		}
	};
	struct HashT : Hash
	{
		using is_transparent = int;
	};
	struct EqT : Eq
	{
		using is_transparent = int;
	};
	// nothrow equality, as most users have
	struct EqN
	{
		template<class A, class B>
		bool operator()(const A& a, const B& b) const noexcept
		{
			return kid(a) == kid(b);
		}
	};

	// ------------------------------------------------------------------ operations
	enum
	{
		EMPLACE,
		INSERT_C,
		INSERT_M,
		TRY_EMPLACE,
		ASSIGN,
		EMPLACE_V,
		INSERT_V,
		TRY_V,
		EMPLACE_CV,
		INSERT_CV,
		TRY_CV,
		VISIT_MUT,
		VISIT_CONST,
		CVISIT,
		CONTAINS,
		COUNT,
		ERASE,
		ERASE_IF_KEY,
		RESERVE,
		REHASH,
		MAX_LOAD,
		SIZE,
		LOAD,
		VISIT_ALL,
		CVISIT_ALL,
		VISIT_ALL_CONST,
		VISIT_ALL_STOP,
		ERASE_IF,
		ERASE_IF_FREE,
		CLEAR,
		COPY,
		COPY_ASSIGN,
		EQ_SELF,
		EQ_AB,
		MERGE,
		MERGE_RV,
		SELF_MERGE,
		INSERT_RANGE,
		SWAP,
		PAR_VISIT,
		PAR_CVISIT,
		PAR_ERASE_IF,
		PAR_MERGE,
		PAR_VISIT_STOP,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan& p, const Op& o);

	// profiles
	enum Profile
	{
		P_KEYS = 1,
		P_VISITS = 2,
		P_BULK = 3,
		P_LIVE = 4,
		P_FAULTS = 5,
		P_ALL = 6,
		P_PAR = 7,
		P_SEQF = 8, // one task, many operations, faults
	};
	struct GenOpt
	{
		bool is_set, throwing, concurrent, sharded;
	};
	void gen(Plan& p, Rng& r, int profile, GenOpt g);

	// ------------------------------------------------------------------ oracle state shared by configurations
	struct KeyMark
	{
		int writer = -1;
		int readers = 0;
	};
	struct History
	{
		std::map<long, std::vector<lin::Ev>> ev; // per key
		std::map<std::pair<int, long>, KeyMark> marks;
		std::set<long> keys; // every key that was ever named
		long next_w = 1000;
		uint64_t max_inserts[2] = { 0, 0 }; // upper bound of the number of elements that can be in a map
		bool nolin = false;
		std::map<long, long> init[2];

		void add(long key, const lin::Ev& e) { ev[key].push_back(e); }
		void check(const char* what);
	};

	// ------------------------------------------------------------------ runner
	template<class Cfg>
	struct Runner
	{
		using M = typename Cfg::Map;
		using VT = typename M::value_type;
		using K = typename Cfg::Key;
		static constexpr bool is_set = Cfg::is_set;
		static constexpr bool is_conc = Cfg::concurrent;

		M* m[2] = { nullptr, nullptr };
		History H;

		static K key(long k) { return K(k); }
		static VT value(long k, long w)
		{
			if constexpr (is_set)
				return VT(k, w);
			else
				return VT(K(k), typename Cfg::Val(w));
		}
		static long key_of(const VT& v)
		{
			if constexpr (is_set)
				return kid(v);
			else
				return kid(v.first);
		}
		static long val_of(const VT& v)
		{
			if constexpr (is_set)
				return v.w;
			else
				return v.second.get();
		}

		// ---- visitor oracle
		void enter(int map, long k, bool w, const char* how)
		{
			NoSim ns;
			if (H.nolin)
				return; // with swap the map an element belongs to is not known to the caller
			KeyMark& x = H.marks[{ map, k }];
			if (x.writer >= 0)
				fail("EXCLUSIVITY", "%s: task %d visits key %ld while task %d visits it exclusively", how, self(), k, x.writer);
			if (w && x.readers)
				fail("EXCLUSIVITY", "%s: task %d visits key %ld exclusively while %d other visit(s) of it are running", how, self(), k, x.readers);
			if (w)
				x.writer = self();
			else
				++x.readers;
		}
		void leave(int map, long k, bool w)
		{
			NoSim ns;
			if (H.nolin)
				return;
			KeyMark& x = H.marks[{ map, k }];
			if (w)
				x.writer = -1;
			else
				--x.readers;
		}
		struct Mark
		{
			Runner& r;
			int map;
			long k;
			bool w;
			Mark(Runner& rr, int m, long key, bool wr, const char* how)
			  : r(rr)
			  , map(m)
			  , k(key)
			  , w(wr)
			{
				r.enter(m, k, w, how);
			}
			~Mark() { r.leave(map, k, w); }
		};

		static long seen_of(const VT& v, long hold)
		{
			long a = val_of(v);
			for (long i = 0; i < hold; ++i) {
				point();
				if (val_of(v) != a)
					fail("TORN-READ", "the value of a visited element changed during the visit");
			}
			return a;
		}
		static void write_val(VT& v, long w)
		{
			if constexpr (!is_set)
				v.second.set(w);
			else
				(void)v, (void)w;
		}

		lin::Ev ev(lin::Kind k, int map) const
		{
			lin::Ev e;
			e.kind = k;
			e.map = map;
			e.task = self();
			return e;
		}
		long fresh()
		{
			NoSim ns;
			return ++H.next_w;
		}
		void add(long k, lin::Ev& e)
		{
			NoSim ns;
			H.keys.insert(k);
			H.add(k, e);
		}

		// state of one single-key operation with a visitor
		struct V1
		{
			Runner* r;
			int map;
			long k;
			long hold;
			long write; // UNKNOWN = no write
			bool wr;
			const char* how;
			long seen = lin::UNKNOWN;
			int calls = 0;

			void body(const VT& v)
			{
				Mark mk(*r, map, k, wr, how);
				++calls;
				if (calls > 1)
					fail("VISIT-TWICE", "%s called its function twice", how);
				if (key_of(v) != k)
					fail("WRONG-ELEMENT", "%s(%ld) got an element with key %ld", how, k, key_of(v));
				maybe_throw(F_FUNC);
				seen = seen_of(v, hold);
				if (write != lin::UNKNOWN)
					write_val(const_cast<VT&>(v), write);
			}
		};

		struct Range
		{
			std::vector<VT> v;
		};

		void upper(int map, uint64_t n)
		{
			NoSim ns;
			H.max_inserts[map] += n;
		}

		// ---- bulk helpers
		struct Bulk
		{
			Runner* r;
			int map;
			std::map<long, lin::Ev> got; // by key (simulation off)
			const char* how;
			bool wr;
			int calls = 0;

			void note(long k, lin::Ev e)
			{
				NoSim ns;
				if (!got.emplace(k, e).second)
					fail("VISITED-TWICE", "%s met key %ld twice", how, k);
			}
		};
		void finish_bulk(Bulk& b, lin::Ev proto, bool complete)
		{
			NoSim ns;
			for (auto& kv : b.got)
				H.add(kv.first, kv.second), H.keys.insert(kv.first);
			if (complete) {
				for (long k : H.keys)
					if (!b.got.count(k)) {
						lin::Ev e = proto;
						e.ret = 0;
						H.add(k, e);
					}
			}
		}
		// every key of the run, known in advance (keys of all plans)
		void all_keys(std::vector<long>& out)
		{
			NoSim ns;
			out.assign(H.keys.begin(), H.keys.end());
		}

		// contents of a map nobody else uses
		void contents(const M& x, std::map<long, long>& out, const char* what)
		{
			bool ok = x.cvisit_all([&](const VT& v) {
				long k = key_of(v), w = val_of(v);
				NoSim ns;
				if (!out.emplace(k, w).second)
					fail("DUPLICATE-KEY", "%s holds key %ld twice", what, k);
				return true;
			});
			if (!ok)
				fail("RETURN", "cvisit_all returned false although its function never did");
		}

		void run_op(const Op& o)
		{
			logf("%s%s", show_op(*plan, o).c_str(), o.fk ? " (fault armed)" : "");
			begin_op(o);
			uint64_t inv = next_seq();
			try {
				exec(o, inv);
				end_op();
			}
			catch (const Injected& e) {
				int f = end_op();
				logf("  -> injected exception");
				if (!f)
					fail("SPURIOUS-EXCEPTION", "%s ended with an injected exception that this task did not raise", op_names[o.code]);
			}
			catch (const std::bad_alloc&) {
				int f = end_op();
				logf("  -> bad_alloc");
				if (!f)
					fail("SPURIOUS-EXCEPTION", "%s threw bad_alloc although no allocation failed in this task", op_names[o.code]);
			}
			catch (const std::exception& e) {
				end_op();
				fail("SPURIOUS-EXCEPTION", "%s threw %s", op_names[o.code], e.what());
			}
		}

		const Plan* plan = nullptr;

		// what a failed operation may have done
		void failed(const Op& o, int A, uint64_t inv)
		{
			bool mv = o.fk == F_MOVE || o.fk == F_ANY;
			bool erase = o.code == ERASE || o.code == ERASE_IF_KEY || o.code == ERASE_IF || o.code == ERASE_IF_FREE || o.code == PAR_ERASE_IF;
			bool merge = o.code == MERGE || o.code == MERGE_RV || o.code == PAR_MERGE;
			NoSim ns;
			if (merge)
				for (long k : H.keys) {
					lin::Ev e = ev(lin::MERGE, A);
					e.inv = inv;
					e.res = next_seq();
					e.optional = true;
					H.add(k, e);
				}
			if (o.code == CLEAR || (Cfg::throwing_move && mv && (erase || merge)))
				for (long k : H.keys) {
					lin::Ev e = ev(lin::ERASE_ANY, merge ? 1 - A : A);
					e.inv = inv;
					e.res = next_seq();
					e.optional = true;
					H.add(k, e);
				}
		}

		template<class F>
		void guarded(const Op& o, int A, uint64_t inv, F&& f)
		{
			try {
				f();
			}
			catch (...) {
				failed(o, A, inv);
				throw;
			}
		}

		void exec(const Op& o, uint64_t inv);
		void run(const Plan& p);
	};

	template<class Cfg>
	void Runner<Cfg>::exec(const Op& o, uint64_t inv)
	{
		using namespace lin;
		const int A = (int)(o.c >> 8 & 1);
		const long var = o.c & 0xff;
		M& x = *m[A];
		M& y = *m[1 - A];
		const M& cx = x;
		const long k = o.a;
		const char* how = op_names[o.code];

		auto fin_insert = [&](long w, bool ok, V1& v) {
			Ev e = ev(INSERT, A);
			e.arg = w;
			e.ret = ok ? 1 : 0;
			e.seen = v.seen;
			if (v.seen != UNKNOWN)
				e.write = is_set ? UNKNOWN : v.write;
			e.inv = inv;
			e.res = next_seq();
			add(k, e);
			if (ok && v.calls)
				fail("RETURN", "%s reports an insertion but called its function", how);
		};

		switch (o.code) {
			case EMPLACE:
			case INSERT_C:
			case INSERT_M:
			case TRY_EMPLACE: {
				long w = fresh();
				upper(A, 1);
				bool ok = false;
				V1 none{ this, A, k, 0, UNKNOWN, false, how };
				if (o.code == INSERT_C) {
					VT v = value(k, w);
					ok = x.insert(v);
				}
				else if (o.code == INSERT_M) {
					VT v = value(k, w);
					ok = x.insert(std::move(v));
				}
				else if constexpr (is_set)
					ok = x.emplace(VT(k, w));
				else {
					if (o.code == EMPLACE)
						ok = var & 1 ? x.emplace(K(k), typename Cfg::Val(w)) : x.emplace(value(k, w));
					else if (var % 3 == 0)
						ok = x.try_emplace(K(k), w);
					else if (var % 3 == 1) {
						K kk(k);
						ok = x.try_emplace(kk, w);
					}
					else {
						if constexpr (Cfg::transparent)
							ok = x.try_emplace(k, w);
						else
							ok = x.try_emplace(K(k), w);
					}
				}
				fin_insert(w, ok, none);
				break;
			}
			case ASSIGN: {
				if constexpr (!is_set) {
					long w = fresh();
					upper(A, 1);
					bool ok;
					typename Cfg::Val v(w);
					if (var % 3 == 0)
						ok = x.insert_or_assign(K(k), std::move(v));
					else if (var % 3 == 1) {
						K kk(k);
						ok = x.insert_or_assign(kk, v);
					}
					else {
						if constexpr (Cfg::transparent)
							ok = x.insert_or_assign(k, v);
						else
							ok = x.insert_or_assign(K(k), v);
					}
					Ev e = ev(lin::ASSIGN, A);
					e.arg = w;
					e.ret = ok;
					e.inv = inv;
					e.res = next_seq();
					add(k, e);
				}
				break;
			}
			case EMPLACE_V:
			case INSERT_V:
			case TRY_V:
			case EMPLACE_CV:
			case INSERT_CV:
			case TRY_CV: {
				long w = fresh();
				upper(A, 1);
				bool mut = o.code == EMPLACE_V || o.code == INSERT_V || o.code == TRY_V;
				V1 v{ this, A, k, o.b, mut && (var & 4) ? fresh() : UNKNOWN, true, how };
				auto f = [&v](auto& e) { v.body(e); };
				auto cf = [&v](const VT& e) { v.body(e); };
				bool ok = false;
				switch (o.code) {
					case EMPLACE_V:
						if constexpr (is_set)
							ok = x.emplace_or_visit(VT(k, w), f);
						else
							ok = x.emplace_or_visit(K(k), typename Cfg::Val(w), f);
						break;
					case EMPLACE_CV:
						if constexpr (is_set)
							ok = x.emplace_or_cvisit(VT(k, w), cf);
						else
							ok = x.emplace_or_cvisit(K(k), typename Cfg::Val(w), cf);
						break;
					case INSERT_V: ok = x.insert_or_visit(value(k, w), f); break;
					case INSERT_CV: ok = x.insert_or_cvisit(value(k, w), cf); break;
					case TRY_V:
						if constexpr (is_set)
							ok = x.insert_or_visit(value(k, w), f);
						else if (var & 1)
							ok = x.try_emplace_or_visit(K(k), w, f);
						else {
							K kk(k);
							ok = x.try_emplace_or_visit(kk, w, f);
						}
						break;
					case TRY_CV:
						if constexpr (is_set)
							ok = x.insert_or_cvisit(value(k, w), cf);
						else if (var & 1)
							ok = x.try_emplace_or_cvisit(K(k), w, cf);
						else {
							K kk(k);
							ok = x.try_emplace_or_cvisit(kk, w, cf);
						}
						break;
				}
				if (!ok && !v.calls)
					fail("RETURN", "%s reports an existing key but did not visit it", how);
				fin_insert(w, ok, v);
				break;
			}
			case VISIT_MUT:
			case VISIT_CONST:
			case CVISIT: {
				bool mut = o.code == VISIT_MUT;
				V1 v{ this, A, k, o.b, mut && (var & 4) && !is_set ? fresh() : UNKNOWN, mut, how };
				size_t n;
				auto call = [&](auto&& kk) {
					if (o.code == VISIT_MUT)
						return (size_t)x.visit(kk, [&v](auto& e) { v.body(e); });
					if (o.code == VISIT_CONST)
						return (size_t)cx.visit(kk, [&v](const VT& e) { v.body(e); });
					return (size_t)((var & 2) ? x.cvisit(kk, [&v](const VT& e) { v.body(e); }) : cx.cvisit(kk, [&v](const VT& e) { v.body(e); }));
				};
				if constexpr (Cfg::transparent)
					n = var & 1 ? call(k) : call(K(k));
				else
					n = call(K(k));
				if (n > 1 || (n != 0) != (v.calls != 0))
					fail("RETURN", "%s returned %zu but called its function %d times", how, n, v.calls);
				Ev e = ev(VISIT, A);
				e.ret = n ? 1 : 0;
				e.seen = v.seen;
				e.write = v.calls ? v.write : UNKNOWN;
				e.inv = inv;
				e.res = next_seq();
				add(k, e);
				break;
			}
			case CONTAINS:
			case COUNT: {
				size_t n;
				auto call = [&](auto&& kk) { return o.code == CONTAINS ? (size_t)cx.contains(kk) : (size_t)cx.count(kk); };
				if constexpr (Cfg::transparent)
					n = var & 1 ? call(k) : call(K(k));
				else
					n = call(K(k));
				if (n > 1)
					fail("RETURN", "%s returned %zu", how, n);
				Ev e = ev(VISIT, A);
				e.ret = (long)n;
				e.inv = inv;
				e.res = next_seq();
				add(k, e);
				break;
			}
			case cm::ERASE: {
				guarded(o, A, inv, [&]() {
					size_t n;
					if constexpr (Cfg::transparent)
						n = var & 1 ? x.erase(k) : x.erase(K(k));
					else
						n = x.erase(K(k));
					if (n > 1)
						fail("RETURN", "erase returned %zu", n);
					Ev e = ev(lin::ERASE, A);
					e.ret = (long)n;
					e.inv = inv;
					e.res = next_seq();
					add(k, e);
				});
				break;
			}
			case ERASE_IF_KEY: {
				guarded(o, A, inv, [&]() {
					V1 v{ this, A, k, o.b, UNKNOWN, true, how };
					bool yes = false;
					auto f = [&](const VT& e) {
						v.body(e);
						yes = (var & 6) == 2 ? false : (var & 6) == 4 ? true : (v.seen & 1) != 0;
						return yes;
					};
					size_t n;
					if constexpr (Cfg::transparent)
						n = var & 1 ? x.erase_if(k, f) : x.erase_if(K(k), f);
					else
						n = x.erase_if(K(k), f);
					if (n > 1 || n != (yes ? 1u : 0u))
						fail("RETURN", "erase_if(key) returned %zu, its predicate said %d", n, (int)yes);
					Ev e = ev(lin::ERASE, A);
					e.ret = (long)n;
					e.seen = v.seen;
					e.keep = v.calls && !yes;
					e.inv = inv;
					e.res = next_seq();
					add(k, e);
				});
				break;
			}
			case RESERVE: x.reserve((size_t)o.b); break;
			case REHASH: x.rehash((size_t)o.b); break;
			case MAX_LOAD: {
				x.max_load_factor((float)o.b / 10.f);
				break;
			}
			case SIZE: {
				size_t n = var & 1 ? (cx.empty() ? 0 : cx.size()) : cx.size();
				NoSim ns;
				if (n > H.max_inserts[0] + H.max_inserts[1])
					fail("SIZE", "size() returned %zu, at most %lu elements were ever inserted", n, (unsigned long)(H.max_inserts[0] + H.max_inserts[1]));
				break;
			}
			case LOAD: {
				float f = cx.load_factor();
				float g = cx.max_load_factor();
				if (!(f >= 0.f && f < 1e6f) || !(g > 0.f))
					fail("RETURN", "load_factor() = %f, max_load_factor() = %f", (double)f, (double)g);
				break;
			}
			case VISIT_ALL:
			case VISIT_ALL_CONST:
			case CVISIT_ALL:
			case VISIT_ALL_STOP:
			case PAR_VISIT:
			case PAR_CVISIT:
			case PAR_VISIT_STOP: {
				bool par = o.code == PAR_VISIT || o.code == PAR_CVISIT || o.code == PAR_VISIT_STOP;
				bool stops = o.code == VISIT_ALL_STOP || o.code == PAR_VISIT_STOP;
				bool mut = o.code == VISIT_ALL || o.code == PAR_VISIT || (stops && (var & 1));
				bool wrt = mut && (var & 4) && !is_set;
				long stop_at = stops ? o.b : -1;
				Bulk b{ this, A, {}, how, mut };
				bool stopped = false;
				auto f = [&](const VT& v) -> bool {
					long kk = key_of(v);
					Mark mk(*this, A, kk, mut, how);
					Ev e = ev(VISIT, A);
					e.inv = next_seq();
					if (stopped && !par)
						fail("VISIT-AFTER-STOP", "%s went on after its function returned false", how);
					maybe_throw(F_FUNC);
					e.seen = seen_of(v, o.b & 1);
					e.ret = 1;
					if (wrt && (kk & 1)) {
						e.write = fresh();
						write_val(const_cast<VT&>(v), e.write);
					}
					e.res = next_seq();
					b.note(kk, e);
					if (stop_at >= 0 && (par && (var & 4) ? b.calls++ == stop_at : b.calls++ >= stop_at)) {
						stopped = true;
						return false;
					}
					return true;
				};
				bool ok = true;
				Ev proto = ev(VISIT, A);
				proto.inv = inv;
				try {
					switch (o.code) {
						case VISIT_ALL: ok = x.visit_all([&](auto& v) { return f(v); }); break;
						case VISIT_ALL_CONST: ok = cx.visit_all([&](const VT& v) { return f(v); }); break;
						case CVISIT_ALL: ok = x.cvisit_all([&](const VT& v) { return f(v); }); break;
						case VISIT_ALL_STOP:
							if (mut)
								ok = x.visit_all([&](auto& v) { return f(v); });
							else if (var & 2)
								ok = cx.visit_all([&](const VT& v) { return f(v); });
							else
								ok = cx.cvisit_all([&](const VT& v) { return f(v); });
							break;
#ifdef CMAP_PAR
						case PAR_VISIT:
							ok = x.visit_all(std::execution::par, [&](auto& v) { return f(v); });
							break;
						case PAR_CVISIT:
							ok = (var & 1) ? cx.cvisit_all(std::execution::par, [&](const VT& v) { return f(v); }) : cx.visit_all(std::execution::par, [&](const VT& v) { return f(v); });
							break;
						case PAR_VISIT_STOP:
							if (mut)
								ok = x.visit_all(std::execution::par, [&](auto& v) { return f(v); });
							else
								ok = (var & 2) ? cx.cvisit_all(std::execution::par, [&](const VT& v) { return f(v); }) : cx.visit_all(std::execution::par, [&](const VT& v) { return f(v); });
							break;
#endif
					}
				}
				catch (...) {
					finish_bulk(b, proto, false);
					throw;
				}
				if (ok == stopped)
					fail("RETURN", "%s returned %d, its function %s", how, (int)ok, stopped ? "returned false" : "always returned true");
				proto.res = next_seq();
				finish_bulk(b, proto, !stopped);
				break;
			}
			case ERASE_IF:
			case ERASE_IF_FREE:
			case PAR_ERASE_IF: {
				Bulk b{ this, A, {}, how, true };
				size_t erased = 0;
				auto f = [&](const VT& v) -> bool {
					long kk = key_of(v);
					Mark mk(*this, A, kk, true, how);
					Ev e = ev(lin::ERASE, A);
					e.inv = next_seq();
					maybe_throw(F_FUNC);
					e.seen = seen_of(v, o.b & 1);
					bool yes = var == 0 ? true : var == 1 ? false : (mix64((uint64_t)kk + (uint64_t)var) & 1) != 0;
					e.keep = !yes;
					e.ret = yes;
					e.res = yes ? ~0ull : next_seq(); // erased some time after the predicate answered
					b.note(kk, e);
					if (yes)
						++erased;
					return yes;
				};
				Ev proto = ev(lin::ERASE, A);
				proto.inv = inv;
				size_t n = 0;
				auto close = [&](uint64_t t) {
					NoSim ns;
					for (auto& kv : b.got)
						if (kv.second.res == ~0ull)
							kv.second.res = t;
				};
				guarded(o, A, inv, [&]() {
					try {
						if (o.code == ERASE_IF)
							n = x.erase_if(f);
						else if (o.code == ERASE_IF_FREE)
							n = erase_if(x, f);
#ifdef CMAP_PAR
						else
							n = x.erase_if(std::execution::par, f);
#endif
					}
					catch (...) {
						close(next_seq());
						if (Cfg::throwing_move && (o.fk == F_MOVE || o.fk == F_ANY)) {
							NoSim ns;
							for (auto& kv : b.got)
								if (!kv.second.keep)
									kv.second.optional = true;
						}
						finish_bulk(b, proto, false);
						throw;
					}
					if (n != erased)
						fail("RETURN", "%s returned %zu, %zu elements satisfied its predicate", how, n, erased);
					proto.res = next_seq();
					close(proto.res);
					finish_bulk(b, proto, true);
				});
				break;
			}
			case CLEAR: {
				guarded(o, A, inv, [&]() {
					x.clear();
					NoSim ns;
					uint64_t r = next_seq();
					for (long kk : H.keys) {
						Ev e = ev(ERASE_ANY, A);
						e.inv = inv;
						e.res = r;
						H.add(kk, e);
					}
				});
				break;
			}
			case COPY:
			case COPY_ASSIGN: {
				Bulk b{ this, A, {}, how, false };
				Ev proto = ev(VISIT, A);
				proto.inv = inv;
				uint64_t res = 0;
				auto note = [&](const M& c) {
					NoFault nf;
					std::map<long, long> got;
					contents(c, got, "a copy");
					size_t n = c.size();
					NoSim ns;
					if (n != got.size())
						fail("SIZE", "a copy reports size %zu and holds %zu elements", n, got.size());
					for (auto& kv : got) {
						Ev e = proto;
						e.res = res;
						e.ret = 1;
						e.seen = kv.second;
						b.note(kv.first, e);
					}
				};
				if (o.code == COPY) {
					M c(cx);
					res = next_seq();
					note(c);
					if (var & 1) {
						M d(std::move(c));
						NoFault nf;
						std::map<long, long> got;
						contents(d, got, "a moved copy");
						if (got.size() != b.got.size() || c.size() != 0)
							fail("MOVE", "a moved map holds %zu elements, its source held %zu", got.size(), b.got.size());
					}
				}
				else {
					M c;
					for (long i = 0; i < (var & 7); ++i)
						c.insert(value(9000 + i, 1));
					inv = proto.inv = next_seq();
					c = cx;
					res = next_seq();
					note(c);
				}
				proto.res = res;
				finish_bulk(b, proto, true);
				break;
			}
			case EQ_SELF: {
				bool r = (cx == cx);
				bool r2 = var & 1 ? (cx != cx) : false;
				if (!r && plan->tasks.size() < 2)
					fail("RETURN", "a map differs from itself");
				if (r2 && plan->tasks.size() < 2)
					fail("RETURN", "a map differs from itself");
				break;
			}
			case EQ_AB: {
				bool r = (cx == y);
				probe("eq_ab", r);
				break;
			}
			case cm::MERGE:
			case MERGE_RV:
			case PAR_MERGE: {
				guarded(o, A, inv, [&]() {
					size_t n = 0, sx = x.size(), sy = y.size();
					if (o.code == cm::MERGE)
						n = x.merge(y);
					else if (o.code == MERGE_RV)
						n = x.merge(std::move(y));
#ifdef CMAP_PAR
					else
						n = x.merge(std::execution::par, y);
#endif
					if (plan->tasks.size() < 2 && (x.size() != sx + n || y.size() != sy - n))
						fail("RETURN", "merge returned %zu; sizes went from %zu,%zu to %zu,%zu", n, sx, sy, x.size(), y.size());
					NoSim ns;
					uint64_t r = next_seq();
					for (long kk : H.keys) {
						Ev e = ev(lin::MERGE, A);
						e.inv = inv;
						e.res = r;
						H.add(kk, e);
					}
				});
				break;
			}
			case SELF_MERGE: {
				size_t n = x.merge(x);
				if (n != 0)
					fail("RETURN", "a self merge reports %zu moved elements", n);
				break;
			}
			case INSERT_RANGE: {
				std::vector<long> ks, ws;
				std::unique_ptr<Range> rg;
				{
					NoSim ns;
					for (long i = 0; i < o.b; ++i) {
						ks.push_back(o.a + i);
						ws.push_back(fresh());
					}
				}
				upper(A, (uint64_t)o.b);
				std::vector<VT> vals;
				vals.reserve((size_t)o.b);
				for (long i = 0; i < o.b; ++i)
					vals.push_back(value(ks[(size_t)i], ws[(size_t)i]));
				bool ok = false;
				auto record = [&](bool optional) {
					NoSim ns;
					uint64_t r = next_seq();
					for (size_t i = 0; i < ks.size(); ++i) {
						Ev e = ev(INSERT, A);
						e.arg = ws[i];
						e.inv = inv;
						e.res = r;
						e.optional = optional;
						H.keys.insert(ks[i]);
						H.add(ks[i], e);
					}
				};
				try {
					x.insert(vals.begin(), vals.end());
					ok = true;
				}
				catch (...) {
					record(true);
					throw;
				}
				if (ok)
					record(false);
				{
					NoSim ns;
					ks = std::vector<long>();
					ws = std::vector<long>();
				}
				break;
			}
			case SWAP: x.swap(y); break;
			default: break;
		}
	}

	template<class Cfg>
	void Runner<Cfg>::run(const Plan& p)
	{
		plan = &p;
		g_hash_mode = (int)p.get("cfg_hash");
		g_shard_mode = (int)p.get("cfg_shard", 1);
		H.nolin = p.get("cfg_swap") != 0;
		long base_live = g_live;
		HeapMark hm = heap_mark();
		uint64_t ai = alloc_index();
		{
			NoPreempt np;
			m[0] = new M();
			m[1] = new M();
			long pre[2] = { p.get("prefill"), p.get("prefillB") };
			long step[2] = { 1, std::max(1l, p.get("stepB", 1)) };
			for (int t = 0; t < 2; ++t)
				for (long i = 0; i < pre[t]; ++i) {
					long k = 1000 + i * step[t];
					long w = fresh();
					if (!m[t]->insert(value(k, w)))
						fail("RETURN", "insertion of a new key into a private map reports an existing key");
					NoSim ns;
					H.init[t][k] = w;
					H.keys.insert(k);
				}
			long hot = p.get("hot");
			for (long i = 0; i < hot; ++i)
				for (int t = 0; t < 2; ++t) {
					NoSim ns;
					if (!((p.get("hotmask") >> (i * 2 + t)) & 1)) {
						H.keys.insert(i);
						continue;
					}
					sim_on(); // the insertion itself is simulated
					long w = fresh();
					m[t]->insert(value(i, w));
					sim_off();
					H.init[t][i] = w;
					H.keys.insert(i);
				}
			H.max_inserts[0] = H.init[0].size();
			H.max_inserts[1] = H.init[1].size();
			// every key any operation names, so that a bulk operation can say "not seen"
			NoSim ns;
			for (auto& t : p.tasks)
				for (auto& o : t) {
					if (o.code == INSERT_RANGE)
						for (long i = 0; i < o.b; ++i)
							H.keys.insert(o.a + i);
					else if (o.code < RESERVE)
						H.keys.insert(o.a);
				}
		}
		if (p.tasks.size() == 1) {
			for (auto& o : p.tasks[0])
				run_op(o);
		}
		else {
			for (auto& t : p.tasks) {
				const std::vector<Op>* ops = &t;
				NoSim ns;
				spawn([this, ops]() {
					for (auto& o : *ops)
						run_op(o);
				});
			}
			join_all();
		}
		// ---- quiescent checks
		{
			NoPreempt np;
			std::map<long, long> fin[2];
			for (int t = 0; t < 2; ++t) {
				contents(*m[t], fin[t], t ? "map B" : "map A");
				if (m[t]->size() != fin[t].size())
					fail("SIZE", "map %c: size() is %zu, %zu elements are visited once every operation has ended", "AB"[t], m[t]->size(), fin[t].size());
				if (m[t]->empty() != fin[t].empty())
					fail("SIZE", "empty() disagrees with the contents");
				std::vector<long> ks;
				all_keys(ks);
				for (long k : ks) {
					bool c = m[t]->contains(K(k));
					bool w;
					{
						NoSim ns;
						w = fin[t].count(k) != 0;
					}
					if (c != w)
						fail("LOOKUP", "map %c: contains(%ld) is %d but visiting every element %s it", "AB"[t], k, (int)c, w ? "finds" : "does not find");
				}
				{
					NoSim ns;
					for (auto& kv : fin[t])
						if (!H.keys.count(kv.first))
							fail("GHOST-KEY", "map %c holds key %ld, which nobody inserted", "AB"[t], kv.first);
				}
				NoSim ns;
				ks = std::vector<long>();
			}
			if (!H.nolin) {
				NoSim ns;
				for (long k : H.keys)
					for (int t = 0; t < 2; ++t) {
						lin::Ev e;
						e.kind = lin::VISIT;
						e.map = t;
						e.inv = e.res = next_seq();
						auto it = fin[t].find(k);
						e.ret = it != fin[t].end();
						if (e.ret)
							e.seen = it->second;
						e.task = -1;
						H.add(k, e);
					}
			}
			{
				NoSim ns;
				uint64_t sh = 1469598103934665603ull;
				for (int t = 0; t < 2; ++t)
					for (auto& kv : fin[t])
						sh = (sh ^ (uint64_t)(kv.first * 31 + kv.second + t)) * 1099511628211ull;
				state_hash(sh);
			}
			// equality, copy
			{
				bool same;
				{
					NoSim ns;
					same = fin[0] == fin[1];
					if (is_set) {
						same = fin[0].size() == fin[1].size();
						for (auto& kv : fin[0])
							same = same && fin[1].count(kv.first);
					}
				}
				if ((*m[0] == *m[1]) != same || (*m[0] != *m[1]) == same)
					fail("EQUALITY", "operator== says %d for maps whose contents are %s", (int)!same, same ? "equal" : "different");
				M c(*m[0]);
				if (!(c == *m[0]) || c.size() != m[0]->size())
					fail("COPY", "a copy of the map differs from it");
				if (!(*m[0] == *m[0]))
					fail("EQUALITY", "a map differs from itself");
			}
			// the map still works
			for (int t = 0; t < 2; ++t) {
				VT v = value(7777, 1);
				if (!m[t]->insert(v) || !m[t]->contains(K(7777)) || m[t]->insert(v) || m[t]->erase(K(7777)) != 1 || m[t]->contains(K(7777)))
					fail("STUCK-STATE", "the map does not insert, find and erase a new key any more");
			}
			if (!H.nolin)
				H.check("history");
			if (p.get("final_clear")) {
				m[0]->clear();
				if (m[0]->size() != 0 || m[0]->contains(K(1000)))
					fail("CLEAR", "clear() left elements");
				long left = 0;
				m[0]->visit_all([&](auto&) { ++left; return true; });
				if (left)
					fail("CLEAR", "clear() left elements");
			}
			// destruction must not need memory
			Op nomem;
			nomem.fk = F_ALLOC_P;
			nomem.fn = 1;
			begin_op(nomem);
			delete m[0];
			delete m[1];
			end_op();
			{
				NoSim ns;
				H.ev.clear();
			}
			if (g_live != base_live)
				fail("LEAK", "%ld elements were never destroyed (or destroyed twice)", g_live - base_live);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
	}

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
