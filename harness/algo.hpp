// Range algorithms (sort, merge, reverse, unique) against stable reference results, with any buffer and throwing user code.
#pragma once
#include "common.hpp"
#include <seq/type_traits.hpp>
#include <algorithm>
#include <deque>
#include <iterator>
#include <list>
#include <vector>

namespace seq
{
	template<>
	struct is_relocatable<h::RElem> : std::true_type
	{
	};
}
#include <seq/algorithm.hpp>

namespace al
{
	using namespace h;

	enum
	{
		SORT,
		SORT_SIZE,
		IMERGE,
		IMERGE_K,
		MERGE,
		MERGE_MV,
		REVDESC,
		UNIQUE,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r);
	// keys of an input of n elements, drawn from a pattern
	void make_keys(std::vector<long>& k, size_t n, Rng& r);
	// positions where runs of the input are cut
	size_t cut(size_t n, Rng& r);

	constexpr long STEP = 100000; // value = key * STEP + position
	inline long key_of(long v) { return v / STEP; }

	// trivially copyable and bigger than a pointer
	struct Pod
	{
		long v;
		long w[2];
		Pod(long x = 0)
		  : v(x)
		  , w{ ~x, x }
		{
		}
		long get() const
		{
			if (w[0] != ~v || w[1] != v)
				fail("CONTENTS", "an element is mixed from several ones");
			return v;
		}
	};

	extern long g_calls, g_limit; // comparisons made and allowed
	inline void called()
	{
		NoSim ns;
		progress();
		if (++g_calls > g_limit)
			fail("LIVENESS", "%ld comparisons for one call", g_calls);
	}

	struct Cmp
	{
		bool desc;
		template<class E>
		bool operator()(const E& a, const E& b) const
		{
			called();
			maybe_throw(F_CMP);
			long x = val(a), y = val(b);
			if (x < STEP || y < STEP)
				fail("CONTENTS", "the comparison function is given %s", x == MOVED || y == MOVED ? "a moved-from element" : "an element that is not in the range");
			return desc ? key_of(y) < key_of(x) : key_of(x) < key_of(y);
		}
	};
	struct Hash
	{
		int mode;
		template<class E>
		size_t operator()(const E& a) const
		{
			long x = val(a);
			if (x < STEP)
				fail("CONTENTS", "the hash function is given %s", x == MOVED ? "a moved-from element" : "an element that is not in the range");
			size_t k = (size_t)key_of(x);
			return mode == 0 ? k * 0x9E3779B97F4A7C15ull : mode == 1 ? k : mode == 2 ? (k & 3) : 7;
		}
	};
	struct Eq
	{
		template<class E>
		bool operator()(const E& a, const E& b) const
		{
			progress();
			maybe_throw(F_CMP);
			long x = val(a), y = val(b);
			if (x < STEP || y < STEP)
				fail("CONTENTS", "the equality function is given %s", x == MOVED || y == MOVED ? "a moved-from element" : "an element that is not in the range");
			return key_of(x) == key_of(y);
		}
	};

	enum Buf
	{
		B_DEFAULT,
		B_MEDIUM,
		B_SMALL,
		B_TINY,
		B_NULL,
		B_USER,
		B_IMPLICIT,
		B_COUNT
	};

	template<class Cfg>
	struct Runner
	{
		using V = typename Cfg::V; // container
		using E = typename V::value_type;
		static constexpr bool pod = std::is_trivially_copyable_v<E>;
		static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<typename V::iterator>::iterator_category>;

		static auto at(V& v, size_t i)
		{
			auto it = v.begin();
			std::advance(it, (std::ptrdiff_t)i);
			return it;
		}
		template<class W>
		static void read(W& v, std::vector<long>& out)
		{
			NoSim ns;
			out.clear();
			for (auto& x : v)
				out.push_back(val(x));
		}
		static void fill(V& v, const std::vector<long>& in)
		{
			NoFault nf;
			for (long x : in)
				v.emplace_back(x);
		}
		template<class W>
		static void expect(W& v, const std::vector<long>& exp, const char* what)
		{
			std::vector<long> g;
			read(v, g);
			NoSim ns;
			if (g != exp) {
				size_t i = 0;
				while (i < g.size() && i < exp.size() && g[i] == exp[i])
					++i;
				std::vector<long> a = g, b = exp;
				std::sort(a.begin(), a.end());
				std::sort(b.begin(), b.end());
				auto at = [](const std::vector<long>& q, size_t p) { return p < q.size() ? q[p] : -1; };
				fail("CONTENTS", "%s: position %zu of %zu holds key %ld (element %ld), expected key %ld (element %ld)%s", what, i, g.size(), key_of(at(g, i)), at(g, i) % STEP, key_of(at(exp, i)), at(exp, i) % STEP, a == b ? "; the elements are all there" : "; elements were lost or duplicated");
			}
			std::vector<long>().swap(g);
		}
		// after a failure: only elements of the input, each at most once (unless copies are allowed)
		static void valid(const std::vector<long>& g, const std::vector<long>& in, bool copies, bool fixed, const char* what)
		{
			NoSim ns;
			std::vector<long> a = in, b;
			std::sort(a.begin(), a.end());
			for (long x : g)
				if (x != MOVED && !(x == 0 && fixed))
					b.push_back(x);
			std::sort(b.begin(), b.end());
			for (size_t i = 0; i < b.size(); ++i) {
				if (!std::binary_search(a.begin(), a.end(), b[i]))
					fail("CONTENTS", "after %s threw there is an element %ld that nobody put there", what, b[i]);
				if (!copies && i && b[i] == b[i - 1])
					fail("CONTENTS", "after %s threw element %ld is there twice", what, b[i] % STEP);
			}
		}

		// runs fn(buffer) for the chosen buffer
		template<class F>
		static void with_buffer(int b, std::vector<E>& user, F fn)
		{
			switch (b) {
				case B_DEFAULT: fn(seq::default_buffer); break;
				case B_MEDIUM: fn(seq::medium_buffer); break;
				case B_SMALL: fn(seq::small_buffer); break;
				case B_TINY: fn(seq::tiny_buffer); break;
				case B_NULL: fn(seq::null_buffer); break;
				default: fn(seq::buffer<E*>{ user.data(), user.size() }); break;
			}
		}

		void one(const Plan& p, const Op& o, int idx)
		{
			Rng r((uint64_t)o.c * 1000003 + (uint64_t)o.a);
			std::vector<long> in, exp, g;
			size_t n = (size_t)o.a, lo = 0, hi = n, mid = 0;
			std::vector<size_t> cuts;
			int code = o.code;
			int buf = (int)(o.b % B_COUNT);
			if (code == IMERGE_K && !ra)
				code = IMERGE;
			Cmp cmp{ r.chance(1, 4) };
			Hash hash{ (int)r.below(n > 500 ? 2 : 4) }; // bad hash functions make it quadratic
			size_t bsz = 0;
			{
				NoSim ns;
				std::vector<long> k;
				make_keys(k, n, r);
				for (size_t i = 0; i < n; ++i)
					in.push_back(k[i] * STEP + (long)i);
				std::vector<long>().swap(k);
				// part of the range only
				if (n && r.chance(1, 3)) {
					lo = r.below(std::min<size_t>(n, 20));
					hi = n - r.below(std::min<size_t>(n - lo, 20) + 1);
				}
				auto less = [&](long a, long b) { return cmp.desc ? key_of(b) < key_of(a) : key_of(a) < key_of(b); };
				auto B = in.begin() + (long)lo, E_ = in.begin() + (long)hi;
				if (code == IMERGE || code == MERGE || code == MERGE_MV) {
					if (code != IMERGE) {
						lo = 0;
						hi = n;
						B = in.begin();
						E_ = in.end();
					}
					mid = lo + cut(hi - lo, r);
					std::stable_sort(B, in.begin() + (long)mid, less);
					std::stable_sort(in.begin() + (long)mid, E_, less);
				}
				else if (code == IMERGE_K) {
					size_t runs = 1 + r.below(r.chance(1, 3) ? 40 : 9);
					cuts.push_back(lo);
					for (size_t q = 1; q < runs; ++q)
						cuts.push_back(lo + r.below(hi - lo + 1));
					cuts.push_back(hi);
					std::sort(cuts.begin(), cuts.end());
					cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
					for (size_t q = 0; q + 1 < cuts.size(); ++q)
						std::stable_sort(in.begin() + (long)cuts[q], in.begin() + (long)cuts[q + 1], less);
				}
				else if (code == REVDESC)
					std::stable_sort(B, E_, [&](long a, long b) { return less(b, a); });
				exp = in;
				if (code == UNIQUE) {
					std::vector<long> seen, res(exp.begin(), exp.begin() + (long)lo);
					for (size_t i = lo; i < hi; ++i) {
						long kk = key_of(exp[i]);
						if (std::find(seen.begin(), seen.end(), kk) == seen.end()) {
							seen.push_back(kk);
							res.push_back(exp[i]);
						}
					}
					exp.swap(res);
					std::vector<long>().swap(seen);
					std::vector<long>().swap(res);
				}
				else
					std::stable_sort(exp.begin() + (long)lo, exp.begin() + (long)hi, less);
				size_t half = (hi - lo) / 2;
				switch (r.below(6)) {
					case 0: bsz = 0; break;
					case 1: bsz = r.below(8); break;
					case 2: bsz = half; break;
					case 3: bsz = half / 8; break;
					case 4: bsz = r.below(hi - lo + 2); break;
					default: bsz = r.chance(1, 2) ? 128 : r.below(140); break;
				}
				logf("%d: %s [n %zu, range %zu-%zu, middle %zu, buffer kind %d of %zu, %s]", idx, op_names[code], n, lo, hi, mid, buf, bsz, cmp.desc ? "descending" : "ascending");
			}
			V* v = new V();
			fill(*v, in);
			std::vector<E>* out = nullptr;
			if (code == MERGE || code == MERGE_MV) {
				NoFault nf;
				out = new std::vector<E>(n);
			}
			std::vector<E>* user;
			{
				NoFault nf;
				user = new std::vector<E>(code <= IMERGE_K ? bsz : 0);
			}
			bool thrown = false;
			progress();
			g_calls = 0;
			g_limit = 20000;
			for (size_t q = 1, l = 1; q < 2 * n; q *= 2, ++l)
				g_limit = (long)(40 * n * l * l + 20000);
			bool unique_ok = true;
			size_t len = n;
			uint64_t allocs = 0;
			begin_op(o);
			try {
				switch (code) {
					case SORT:
						if (buf == B_IMPLICIT)
							seq::net_sort(at(*v, lo), at(*v, hi), cmp);
						else
							with_buffer(buf, *user, [&](auto b) { seq::net_sort(at(*v, lo), at(*v, hi), cmp, b); });
						break;
					case SORT_SIZE:
						if (buf == B_IMPLICIT)
							seq::net_sort_size(at(*v, lo), hi - lo, cmp);
						else
							with_buffer(buf, *user, [&](auto b) { seq::net_sort_size(at(*v, lo), hi - lo, cmp, b); });
						break;
					case IMERGE:
						if (buf == B_IMPLICIT)
							seq::inplace_merge(at(*v, lo), at(*v, mid), at(*v, hi), cmp);
						else
							with_buffer(buf, *user, [&](auto b) { seq::inplace_merge(at(*v, lo), at(*v, mid), at(*v, hi), cmp, b); });
						break;
					case IMERGE_K:
						if constexpr (ra) {
							typename V::iterator its[64];
							for (size_t q = 0; q < cuts.size(); ++q)
								its[q] = at(*v, cuts[q]);
							if (buf == B_IMPLICIT)
								seq::inplace_merge(its, cuts.size(), cmp);
							else
								with_buffer(buf, *user, [&](auto b) { seq::inplace_merge(its, cuts.size(), cmp, b); });
						}
						break;
					case MERGE: {
						auto e = seq::merge(at(*v, lo), at(*v, mid), at(*v, mid), at(*v, hi), out->begin(), cmp);
						unique_ok = e == out->end();
						break;
					}
					case MERGE_MV: {
						auto m = [](auto it) { return std::make_move_iterator(it); };
						auto e = seq::merge(m(at(*v, lo)), m(at(*v, mid)), m(at(*v, mid)), m(at(*v, hi)), out->begin(), cmp);
						unique_ok = e == out->end();
						break;
					}
					case REVDESC: seq::reverse_descending(at(*v, lo), at(*v, hi), cmp); break;
					case UNIQUE: {
						auto e = seq::unique(at(*v, lo), at(*v, hi), hash, Eq{});
						len = (size_t)std::distance(v->begin(), e);
						break;
					}
				}
				allocs = op_allocs();
			}
			catch (const Injected& e) {
				thrown = true;
				if (e.kind == F_COPY && code != MERGE)
					fail("COPY", "%s copies elements", op_names[code]);
			}
			catch (const std::bad_alloc&) {
				thrown = true;
			}
			int f = end_op();
			logf("   -> %s", thrown ? "threw" : "ok");
			if (thrown && !f)
				fail("EXCEPTION", "%s throws although nothing failed", op_names[code]);
			if (!thrown && !unique_ok)
				fail("RESULT", "%s does not return the end of its output", op_names[code]);
			// a caller's buffer, or the promise of no buffer, is all the memory there is
			if (!thrown && allocs && !std::is_same_v<E, RElem> && ((code <= IMERGE_K && (buf == B_USER || buf == B_NULL)) || code == REVDESC || code == MERGE || code == MERGE_MV))
				fail("ALLOC", "%s allocates memory although it is told to use %s", op_names[code], buf == B_USER ? "the buffer of the caller" : "none");
			if (!thrown) {
				if (code == UNIQUE) {
					if (len != exp.size())
						fail("RESULT", "%s keeps %zu of %zu elements, expected %zu", op_names[code], len - lo, hi - lo, exp.size() - lo);
					read(*v, g);
					NoSim ns;
					for (size_t i = 0; i < len; ++i)
						if (g[i] != exp[i])
							fail("CONTENTS", "%s: position %zu holds key %ld (element %ld), expected key %ld (element %ld)", op_names[code], i, key_of(g[i]), g[i] % STEP, key_of(exp[i]), exp[i] % STEP);
					for (size_t i = hi; i < n; ++i)
						if (g[i] != in[i])
							fail("CONTENTS", "%s changes elements behind its range", op_names[code]);
					valid(g, in, pod, false, op_names[code]);
				}
				else if (code == MERGE) {
					expect(*out, exp, op_names[code]);
					expect(*v, in, "the input of merge");
				}
				else
					{
					if (out)
						expect(*out, exp, op_names[code]);
					else
						expect(*v, exp, op_names[code]);
				}
			}
			else {
				read(*v, g);
				NoSim ns;
				for (size_t i = 0; i < n; ++i)
					if ((i < lo || i >= hi) && g[i] != in[i])
						fail("CONTENTS", "%s threw and changed an element outside its range", op_names[code]);
				if (code == MERGE && g != in)
					fail("CONTENTS", "%s threw and changed its input", op_names[code]);
				bool fixed = code <= IMERGE_K; // elements of the buffer may be left in the range
				if (code != MERGE) {
					for (auto& x : *user)
						g.push_back(val(x));
					if (out)
						for (auto& x : *out)
							if (val(x) != 0 || !pod)
								g.push_back(val(x));
					valid(g, in, pod, fixed || out, op_names[code]);
				}
				mark_nontrivial();
			}
			delete v;
			delete out;
			delete user;
			NoSim ns;
			std::vector<long>().swap(in);
			std::vector<long>().swap(exp);
			std::vector<long>().swap(g);
			std::vector<size_t>().swap(cuts);
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live0 = g_live;
			mark_nontrivial();
			int k = 0;
			for (const Op& o : p.tasks[0])
				one(p, o, k++);
			if (g_live != live0)
				fail("LIFETIME", "%ld elements were never destroyed", g_live - live0);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char b[1500];
				describe_leaks(b, sizeof(b), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), b);
			}
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
