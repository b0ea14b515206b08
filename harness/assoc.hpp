// Associative containers (flat_*, ordered_*, radix_*) against a model, with failing allocations and throwing user code.
#pragma once
#include "surface.hpp"
#include <seq/type_traits.hpp>
#include <seq/flat_map.hpp>
#include <algorithm>
#include <iterator>
#include <map>
#include <vector>

namespace seq
{
	template<>
	struct is_relocatable<h::RElem> : std::true_type
	{
	};
}

namespace as
{
	using namespace h;

	enum
	{
		INS,
		INS_MV,
		EMPL,
		HINT,
		HINT_MV,
		TRY,
		ASSIGN_KV,
		INDEX,
		ERASE_KEY,
		ERASE_IT,
		ERASE_RANGE,
		INS_RA,
		INS_IN,
		INS_SORTED,
		ASG_RA,
		ASG_IN,
		CTOR_RA,
		CTOR_IN,
		ERASE_IF,
		MERGE,
		CLEAR,
		COPYCTOR,
		COPYASSIGN,
		MOVECTOR,
		MOVEASSIGN,
		SWAP,
		RESERVE,
		REHASH,
		SHRINK,
		SORT,
		PUSHB,
		PUSHF,
		EXTRACT,
		SEQ_DIRECT,
		AT_MISSING,
		EQUALS,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);

	extern int g_shape;
	enum Family
	{
		FLAT,
		ORDERED,
		RADIX,
		RADIX_HASH
	};
	struct GenOpt
	{
		Family fam;
		bool map, multi, throwing, cmp_throws;
		long big;
	};
	void gen(Plan& p, Rng& r, GenOpt g);

	// a total order on elements that may throw and has a state
	template<class K>
	struct Cmp
	{
		int dir = 0;
		Cmp(int d = 0)
		  : dir(d)
		{
		}
		bool operator()(const K& a, const K& b) const { return dir ? b < a : a < b; }
	};

	template<class T>
	struct InIt
	{
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		const T** shared; // copies share the position, as those of a stream iterator do
		reference operator*() const
		{
			maybe_throw(F_FUNC);
			if (!shared)
				fail("CONTENTS", "an end iterator was dereferenced");
			return **shared;
		}
		pointer operator->() const { return &**this; }
		InIt& operator++()
		{
			maybe_throw(F_FUNC);
			++*shared;
			return *this;
		}
		InIt operator++(int)
		{
			InIt t = *this;
			++*this;
			return t;
		}
		const T* pos() const { return shared ? *shared : p; }
		bool operator==(const InIt& o) const { return pos() == o.pos(); }
		bool operator!=(const InIt& o) const { return pos() != o.pos(); }
	};

	struct Ent
	{
		long k, v;
		bool operator==(const Ent& o) const { return k == o.k && v == o.v; }
		bool operator!=(const Ent& o) const { return !(*this == o); }
		bool operator<(const Ent& o) const { return k != o.k ? k < o.k : v < o.v; }
	};
	using Vec = std::vector<Ent>;

	template<class It>
	struct is_pair_ret : std::false_type
	{
	};
	template<class A, class B>
	struct is_pair_ret<std::pair<A, B>> : std::true_type
	{
	};

	// Cfg: V container, K key type, T mapped type (ignored for sets), fam, map, multi, bidir, cmp (has a Cmp), hash (has a H), mk(long)->K, id(const K&)->long,
	//      order(long id)->rank used for sorted containers (nullptr-like identity for most), make(Rng state)->V*
	template<class Cfg>
	struct Runner
	{
		using V = typename Cfg::V;
		using K = typename Cfg::K;
		using T = typename Cfg::T;
		static constexpr bool MAP = Cfg::map;
		static constexpr bool MULTI = Cfg::multi;
		static constexpr bool SORTED = Cfg::fam == FLAT || Cfg::fam == RADIX;
		static constexpr bool STABLE = Cfg::fam == ORDERED;
		using Val = typename V::value_type;

		V* v[2] = { nullptr, nullptr };
		Vec m[2]; // sorted by (rank of k, v); ORDERED: in iteration order
		int dir[2] = { 0, 0 };
		int hmode[2] = { 0, 0 };
		std::map<long, const void*> addr[2]; // where the element of a key is (STABLE)
		long counter = 0;
		long last_key = 0;
		long nkeys = 1;
		bool fault_seen[2] = { false, false }; // since the last successful rehash: an ordered table may refuse lookups
		long fresh() { return MAP ? ++counter : 0; }

		template<class X>
		static long kid(const X& x)
		{
			if constexpr (MAP)
				return Cfg::id(x.first);
			else
				return Cfg::id(x);
		}
		template<class X>
		static long vid(const X& x)
		{
			if constexpr (MAP)
				return val(x.second);
			else
				return 0;
		}
		bool before(int t, const Ent& a, const Ent& b) const
		{
			if (a.k != b.k) {
				bool l = Cfg::rank_less(a.k, b.k);
				return dir[t] ? !l : l;
			}
			return a.v < b.v;
		}
		bool kless(int t, long a, long b) const { return a != b && (dir[t] ? !Cfg::rank_less(a, b) : Cfg::rank_less(a, b)); }
		void norm(int t, Vec& x) const
		{
			if (SORTED)
				std::sort(x.begin(), x.end(), [&](const Ent& a, const Ent& b) { return before(t, a, b); });
			else if (Cfg::fam == RADIX_HASH)
				std::sort(x.begin(), x.end());
		}
		static const Ent* find(const Vec& x, long k)
		{
			for (auto& e : x)
				if (e.k == k)
					return &e;
			return nullptr;
		}
		static std::string str(const Vec& a)
		{
			std::string s = "{";
			for (size_t i = 0; i < a.size() && i < 60; ++i) {
				s += (i ? "," : "") + (a[i].k == MOVED ? std::string("moved") : std::to_string(a[i].k));
				if (MAP)
					s += ":" + (a[i].v == MOVED ? std::string("moved") : std::to_string(a[i].v));
			}
			return s + (a.size() > 60 ? ",...}" : "}");
		}

		// reads the container through iterators, checks that keys come in order and once
		void read(int t, Vec& out, const char* what)
		{
			V& x = *v[t];
			const V& cx = x;
			{
				NoSim ns;
				out.clear();
				out.reserve(64);
			}
			size_t n = cx.size(), i = 0;
			if (cx.empty() != (n == 0))
				fail("CONTENTS", "%s: empty() is %d with size() %zu", what, (int)cx.empty(), n);
			auto e = cx.end();
			std::map<long, const void*> na;
			for (auto it = cx.begin(); it != e; ++it, ++i) {
				if (i >= n)
					fail("CONTENTS", "%s: iteration meets more than size() = %zu elements", what, n);
				const auto& r = *it;
				Ent en{ kid(r), vid(r) };
				const void* p = static_cast<const void*>(std::addressof(r));
				NoSim ns;
				out.push_back(en);
				if (STABLE)
					na[en.k] = p;
			}
			if (i != n)
				fail("CONTENTS", "%s: iteration meets %zu elements, size() is %zu", what, i, n);
			NoSim ns;
			if (SORTED)
				for (size_t q = 1; q < out.size(); ++q)
					if (MULTI ? kless(t, out[q].k, out[q - 1].k) : !kless(t, out[q - 1].k, out[q].k))
						fail("ORDER", "%s: key %ld comes before %ld at %zu: %s", what, out[q - 1].k, out[q].k, q, str(out).c_str());
			if (!SORTED && !MULTI) {
				std::map<long, int> c;
				for (auto& en : out)
					if (c[en.k]++)
						fail("CONTENTS", "%s: key %ld is present twice: %s", what, en.k, str(out).c_str());
			}
			if (STABLE) {
				for (auto& q : addr[t]) {
					auto f = na.find(q.first);
					if (f != na.end() && f->second != q.second)
						fail("STABILITY", "%s: the element with key %ld moved in memory", what, q.first);
				}
				addr[t].swap(na);
				na.clear();
			}
			// a stable insertion keeps equivalent elements in the order of their insertion
			if (Cfg::stable && MULTI && new_lo)
				for (size_t q = 1; q < out.size(); ++q)
					if (out[q].k == out[q - 1].k && out[q - 1].v >= new_lo && out[q - 1].v <= new_hi && out[q].v < out[q - 1].v)
						fail("STABILITY", "%s: of two elements with key %ld the one inserted later (%ld) comes before the other (%ld)", what, out[q].k, out[q - 1].v, out[q].v);
			norm(t, out);
		}
		long new_lo = 0, new_hi = 0; // values of the elements just inserted as a range
		void same(int t, const char* what)
		{
			Vec g;
			read(t, g, what);
			NoSim ns;
			if (g != m[t])
				fail("CONTENTS", "%s: the container holds %s (%zu), should hold %s (%zu)", what, str(g).c_str(), g.size(), str(m[t]).c_str(), m[t].size());
			uint64_t hsh = 1469598103934665603ull;
			for (auto& x : g)
				hsh = (hsh ^ (uint64_t)(x.k * 31 + x.v)) * 1099511628211ull;
			state_hash(hsh);
			Vec().swap(g);
		}

		static long canon(long k)
		{
			NoSim ns;
			return Cfg::canon(k);
		}
		// lookups of one key
		void look(int t, long k, const char* what)
		{
			V& x = *v[t];
			const V& cx = x;
			NoFault nf;
			auto key = Cfg::mkey(k);
			size_t cnt = 0, lo = 0, hi = 0;
			long firstv = 0;
			bool has = false;
			{
				NoSim ns;
				for (auto& e : m[t]) {
					if (e.k == k) {
						if (!has)
							firstv = e.v;
						has = true;
						++cnt;
					}
					if (kless(t, e.k, k))
						++lo;
				}
				hi = lo + cnt;
			}
			try {
				auto it = cx.find(key);
				if ((it != cx.end()) != has)
					fail("LOOKUP", "%s: find(%ld) %s although the key is %s", what, k, has ? "fails" : "succeeds", has ? "present" : "absent");
				if (has && kid(*it) != k)
					fail("LOOKUP", "%s: find(%ld) returns key %ld", what, k, kid(*it));
				if (has && !MULTI && vid(*it) != firstv)
					fail("LOOKUP", "%s: find(%ld) returns value %ld instead of %ld", what, k, vid(*it), firstv);
				auto mit = x.find(key);
				if ((mit != x.end()) != has || (has && kid(*mit) != k))
					fail("LOOKUP", "%s: the non-const find(%ld) differs", what, k);
				if constexpr (Cfg::het) {
					// values that compare with keys
					auto hi2 = cx.find(k);
					auto hm = x.find(k);
					if ((hi2 != cx.end()) != has || (hm != x.end()) != has || (has && (kid(*hi2) != k || kid(*hm) != k)))
						fail("LOOKUP", "%s: the transparent find(%ld) differs", what, k);
					if (cx.contains(k) != has || cx.count(k) != cnt)
						fail("LOOKUP", "%s: the transparent contains(%ld) or count() differs", what, k);
					if constexpr (Cfg::fam == FLAT) {
						auto er = cx.equal_range(k);
						auto me = x.equal_range(k);
						auto ep = cx.equal_range_pos(k);
						size_t fp = cx.find_pos(k);
						if (er.first - cx.begin() != (long)lo || er.second - cx.begin() != (long)hi || me.first - x.begin() != (long)lo || me.second - x.begin() != (long)hi || ep.first != lo || ep.second != hi ||
						    cx.lower_bound_pos(k) != lo || cx.upper_bound_pos(k) != hi || cx.lower_bound(k) - cx.begin() != (long)lo || cx.upper_bound(k) - cx.begin() != (long)hi ||
						    x.lower_bound(k) - x.begin() != (long)lo || x.upper_bound(k) - x.begin() != (long)hi || (has ? fp < lo || fp >= hi : fp != cx.size()))
							fail("LOOKUP", "%s: the transparent bounds of %ld differ from [%zu,%zu)", what, k, lo, hi);
					}
				}
				if (cx.contains(key) != has)
					fail("LOOKUP", "%s: contains(%ld) is %d", what, k, (int)!has);
				size_t c = cx.count(key);
				if (c != cnt)
					fail("LOOKUP", "%s: count(%ld) is %zu instead of %zu", what, k, c, cnt);
				if constexpr (MAP && !MULTI) {
					bool thrown = false;
					long got = 0;
					try {
						got = (k & 1) ? val(cx.at(key)) : val(x.at(key));
					}
					catch (const std::out_of_range&) {
						thrown = true;
					}
					if (thrown == has || (has && got != firstv))
						fail("LOOKUP", "%s: at(%ld) %s", what, k, thrown ? "throws although the key is present" : "returns a wrong value or does not throw");
				}
				// (each one walks through the container)
				if constexpr (SORTED) if (m[t].size() < 300 || k % 16 == 0) {
					auto posof = [&](auto i) {
						if constexpr (Cfg::fam == FLAT) {
							auto d = i - cx.begin();
							if (d < 0 || d > (long)m[t].size())
								fail("LOOKUP", "%s: a lookup of %ld returns an iterator that is not in the container", what, k);
							return (size_t)d;
						}
						size_t n = 0;
						for (auto b = cx.begin(); b != i; ++b)
							if (++n > m[t].size())
								fail("LOOKUP", "%s: a lookup of %ld returns an iterator that is not in the container", what, k);
						return n;
					};
					size_t a = posof(cx.lower_bound(key)), b = posof(cx.upper_bound(key));
					if (a != lo || b != hi)
						fail("LOOKUP", "%s: lower/upper_bound(%ld) are at %zu/%zu instead of %zu/%zu", what, k, a, b, lo, hi);
					auto er = cx.equal_range(key);
					a = posof(er.first);
					b = posof(er.second);
					if (a != lo || b != hi)
						fail("LOOKUP", "%s: equal_range(%ld) is [%zu,%zu) instead of [%zu,%zu)", what, k, a, b, lo, hi);
				}
				if constexpr (Cfg::fam == FLAT) {
					size_t fp = cx.find_pos(key);
					if (has ? (fp < lo || fp >= hi) : fp != m[t].size())
						fail("LOOKUP", "%s: find_pos(%ld) is %zu", what, k, fp);
					if (has && kid(cx.pos(fp)) != k)
						fail("LOOKUP", "%s: pos(find_pos(%ld)) is another element", what, k);
					auto er = cx.equal_range_pos(key);
					if (er.first != lo || er.second != hi || cx.lower_bound_pos(key) != lo || cx.upper_bound_pos(key) != hi)
						fail("LOOKUP", "%s: the position lookups of %ld give [%zu,%zu) instead of [%zu,%zu)", what, k, er.first, er.second, lo, hi);
					auto mer = x.equal_range(key);
					if (mer.first - x.begin() != (long)lo || mer.second - x.begin() != (long)hi)
						fail("LOOKUP", "%s: the non-const equal_range(%ld) differs", what, k);
					if (lo < m[t].size()) {
						auto ia = x.begin() + (long)lo;
						if (&x.pos(lo) != &*ia)
							fail("LOOKUP", "%s: pos(%zu) is another element", what, lo);
					}
					if (x.lower_bound(key) - x.begin() != (long)lo || x.upper_bound(key) - x.begin() != (long)hi)
						fail("LOOKUP", "%s: the non-const bounds of %ld differ", what, k);
				}
				if constexpr (Cfg::fam == RADIX || Cfg::fam == RADIX_HASH) {
					if constexpr (Cfg::fam == RADIX) {
						auto* p = cx.find_ptr(key);
						if ((p != nullptr) != has || (has && kid(*p) != k))
							fail("LOOKUP", "%s: find_ptr(%ld) differs from find()", what, k);
					}
				}
				if constexpr (Cfg::prefix) {
					// all keys starting with key
					size_t n = 0;
					auto pr = cx.prefix_range(key);
					for (auto b = pr.first; b != pr.second; ++b, ++n) {
						if (!Cfg::starts(kid(*b), k))
							fail("LOOKUP", "%s: prefix_range(%ld) meets key %ld", what, k, kid(*b));
						if (n > m[t].size())
							fail("LOOKUP", "%s: prefix_range(%ld) does not end", what, k);
					}
					NoSim ns;
					size_t w = 0;
					for (auto& e : m[t])
						w += Cfg::starts(e.k, k);
					if (w != n)
						fail("LOOKUP", "%s: prefix_range(%ld) has %zu keys instead of %zu", what, k, n, w);
				}
			}
			catch (const std::logic_error&) {
				if (Cfg::fam != ORDERED || !fault_seen[t])
					fail("EXCEPTION", "%s: a lookup of %ld throws although nothing failed", what, k);
				// the table says that it must be rehashed; it knows its contents all the same
				probe("dirty table");
				if constexpr (Cfg::fam == ORDERED)
					x.rehash();
				fault_seen[t] = false;
				same(t, "rehash() after a failed rehash");
				look(t, k, what);
			}
		}
		void deep(int t, const char* what)
		{
			long n = nkeys, step = n / 24 + 1;
			for (long i = (long)m[t].size() % step; i < n; i += step)
				look(t, canon(i), what);
			for (size_t i = 0; i < m[t].size(); i += m[t].size() / 12 + 1)
				look(t, m[t][i].k, what);
			if constexpr (Cfg::bidir) {
				V& x = *v[t];
				const V& cx = x;
				Vec g;
				size_t i = 0;
				auto e = cx.rend();
				for (auto it = cx.rbegin(); it != e; ++it, ++i) {
					if (i >= m[t].size())
						fail("CONTENTS", "%s: reverse iteration meets too many elements", what);
					Ent en{ kid(*it), vid(*it) };
					NoSim ns;
					g.push_back(en);
				}
				NoSim ns;
				if (Cfg::fam == ORDERED)
					std::reverse(g.begin(), g.end());
				else
					norm(t, g);
				if (g != m[t])
					fail("CONTENTS", "%s: reverse iteration meets %s instead of %s", what, str(g).c_str(), str(m[t]).c_str());
				Vec().swap(g);
			}
			if constexpr (Cfg::fam == FLAT) {
				const V& cx = *v[t];
				size_t n = cx.size();
				auto it = cx.begin();
				for (size_t i = 0; i < n; ++i, ++it)
					if (&cx.pos(i) != &*it)
						fail("CONTENTS", "%s: pos(%zu) is not the element reached by iteration", what, i);
			}
			// every way to walk meets the same elements in the same order
			{
				NoFault nf;
				V& x = *v[t];
				const V& cx = x;
				std::vector<const void*> at;
				for (auto it = cx.begin(); it != cx.end(); ++it) {
					const void* p = static_cast<const void*>(std::addressof(*it));
					NoSim ns;
					at.push_back(p);
				}
				Rng r((uint64_t)m[t].size() * 2654435761u + (uint64_t)(m[t].empty() ? 0 : m[t][0].k * 31 + m[t].back().v));
				auto is = [&](const auto& e, size_t i) { return i < at.size() && static_cast<const void*>(std::addressof(e)) == at[i]; };
				surface_walk<Cfg::bidir>(x, at.size(), r, is);
				if constexpr (Cfg::fam == FLAT)
					surface_ra(x, at.size(), r, is, 2);
				NoSim ns;
				std::vector<const void*>().swap(at);
			}
		}

		// source values, built without faults
		struct Src
		{
			Val* d = nullptr;
			size_t n;
			Vec w;
			const Val* cur;
			Src(Runner& r, const Vec& from)
			  : n(from.size())
			{
				NoFault nf;
				d = static_cast<Val*>(::operator new(sizeof(Val) * (n + 1), std::align_val_t(alignof(Val))));
				for (size_t i = 0; i < n; ++i)
					r.mkval(d + i, from[i]);
				cur = d;
				NoSim ns;
				w = from;
			}
			~Src()
			{
				for (size_t i = 0; i < n; ++i) {
					if (kid(d[i]) != w[i].k || vid(d[i]) != w[i].v)
						fail("CONTENTS", "a source element of a copying operation was changed");
					d[i].~Val();
				}
				::operator delete(d, sizeof(Val) * (n + 1), std::align_val_t(alignof(Val)));
				NoSim ns;
				Vec().swap(w);
			}
			InIt<Val> b() { return { nullptr, &cur }; }
			InIt<Val> e() { return { d + n, nullptr }; }
			Src(const Src&) = delete;
		};
		void mkval(void* p, const Ent& e)
		{
			if constexpr (MAP)
				new (p) Val(Cfg::mk(e.k), T(e.v));
			else
				new (p) Val(Cfg::mk(e.k));
		}
		struct One
		{
			alignas(Val) unsigned char s[sizeof(Val)];
			One(Runner& r, const Ent& e)
			{
				NoFault nf;
				r.mkval(s, e);
			}
			~One() { get().~Val(); }
			Val& get() { return *reinterpret_cast<Val*>(s); }
			One(const One&) = delete;
		};

		// expected effect of inserting one element
		static bool add(Vec& x, const Ent& e, bool front = false)
		{
			if (!MULTI && find(x, e.k))
				return false;
			x.insert(front ? x.begin() : x.end(), e);
			return true;
		}
		template<class R>
		void check_ret(R&& r, V& x, const Ent& e, bool added, const Ent* was)
		{
			// r: iterator or pair<iterator,bool>
			if constexpr (is_pair_ret<std::decay_t<R>>::value) {
				if (r.second != added)
					fail("RETURN", "the insertion of key %ld reports %d", e.k, (int)r.second);
				check_ret(r.first, x, e, added, was);
			}
			else {
				if (r == x.end())
					fail("RETURN", "the insertion of key %ld returns end()", e.k);
				long w = added ? e.v : was->v;
				if (kid(*r) != e.k || vid(*r) != w)
					fail("RETURN", "the insertion of %ld:%ld returns an iterator to %ld:%ld", e.k, e.v, kid(*r), vid(*r));
			}
		}
		// the same for a position or pair<position,bool>
		template<class R>
		void check_pos(const R& r, V& x, const Ent& e, bool added, const Ent* was)
		{
			if constexpr (is_pair_ret<R>::value) {
				if (r.second != added)
					fail("RETURN", "the insertion of key %ld reports %d", e.k, (int)r.second);
				check_pos(r.first, x, e, added, was);
			}
			else {
				if (r >= x.size())
					fail("RETURN", "the insertion of key %ld returns position %zu of %zu", e.k, (size_t)r, x.size());
				check_ret(x.begin() + (std::ptrdiff_t)r, x, e, added, was);
			}
		}
		static auto nth(V& x, size_t i)
		{
			const V& cx = x;
			auto it = cx.begin();
			for (size_t q = 0; q < i; ++q)
				++it;
			return it;
		}

		// strong: an exception leaves the contents as they were; keep: it loses no element
		bool strong(int code) const
		{
			switch (code) {
				case COPYCTOR:
				case MOVECTOR:
				case CTOR_RA:
				case CTOR_IN:
				case AT_MISSING:
				case EQUALS: return true;
			}
			if (Cfg::fam == ORDERED)
				switch (code) {
					case INS:
					case INS_MV:
					case EMPL:
					case HINT:
					case HINT_MV:
					case TRY:
					case ASSIGN_KV:
					case INDEX:
					case ERASE_KEY:
					case ERASE_IT:
					case PUSHB:
					case PUSHF:
					case RESERVE:
					case REHASH: return true;
				}
			return false;
		}
		bool keeps(int code) const
		{
			if (Cfg::fam == ORDERED)
				switch (code) {
					case INS_RA:
					case INS_IN:
					case SHRINK: return true;
				}
			return Cfg::keep_on_insert && (code == INS || code == INS_MV || code == EMPL || code == HINT || code == HINT_MV || code == TRY || code == INDEX || code == INS_RA || code == INS_IN);
		}

		void apply(const Op& o, int t, Vec& exp, Vec& other, const Vec& news)
		{
			V& x = *v[t];
			V& y = *v[1 - t];
			size_t n = m[t].size();
			Ent e{ 0, 0 };
			Ent was{ 0, 0 };
			bool present = false, added = false;
			size_t at = 0;
			{
				NoSim ns;
				if (!news.empty())
					e = news[0];
				if (const Ent* f = find(m[t], e.k)) {
					present = true;
					was = *f;
				}
				added = MULTI || !present;
				at = n ? (size_t)o.a % n : 0;
			}
			auto want = [&](auto f) {
				NoSim ns;
				f(exp);
			};
			switch (o.code) {
				case INS:
				case INS_MV:
				case EMPL:
				case HINT:
				case HINT_MV: {
					want([&](auto& z) { add(z, e); });
					One w(*this, e);
					Val& s = w.get();
					size_t hint = n ? (size_t)o.b % (n + 1) : 0;
					if (o.c & 2) {
						// the right place
						hint = 0;
						NoSim ns;
						if (SORTED)
							for (auto& q : m[t])
								hint += kless(t, q.k, e.k) || (MULTI && q.k == e.k);
					}
					if constexpr (Cfg::fam == FLAT) {
						if ((o.c & 8) && o.code != HINT && o.code != HINT_MV) {
							if (o.code == INS)
								check_pos(x.insert_pos(const_cast<const Val&>(s)), x, e, added, &was);
							else if (o.code == INS_MV)
								check_pos(x.insert_pos(std::move(s)), x, e, added, &was);
							else if constexpr (MAP)
								check_pos(x.emplace_pos(s.first, s.second), x, e, added, &was);
							else
								check_pos(x.emplace_pos(const_cast<const Val&>(s)), x, e, added, &was);
							if (o.code != INS_MV && (kid(s) != e.k || vid(s) != e.v))
								fail("CONTENTS", "the source of a copy was changed");
							break;
						}
					}
					if constexpr (Cfg::het && !MAP) {
						// the key is made from a value that compares with keys
						if (o.code == EMPL && (o.c & 4)) {
							check_ret(x.emplace(e.k), x, e, added, &was);
							break;
						}
						if (o.code == HINT && (o.c & 4)) {
							check_ret(x.emplace_hint(nth(x, hint), e.k), x, e, added, &was);
							break;
						}
					}
					if constexpr (Cfg::het && MAP) {
						if (o.code == EMPL && (o.c & 4)) {
							std::pair<long, long> pr(e.k, e.v);
							check_ret(x.emplace(pr), x, e, added, &was);
							break;
						}
					}
					if (o.code == INS)
						check_ret(x.insert(const_cast<const Val&>(s)), x, e, added, &was);
					else if (o.code == INS_MV)
						check_ret(x.insert(std::move(s)), x, e, added, &was);
					else if (o.code == HINT)
						check_ret(x.insert(nth(x, hint), const_cast<const Val&>(s)), x, e, added, &was);
					else if (o.code == HINT_MV) {
						if (o.c & 4)
							check_ret(x.insert(nth(x, hint), std::move(s)), x, e, added, &was);
						else
							check_ret(x.emplace_hint(nth(x, hint), std::move(s)), x, e, added, &was);
					}
					else if constexpr (MAP)
						check_ret(x.emplace(s.first, s.second), x, e, added, &was);
					else
						check_ret(x.emplace(const_cast<const Val&>(s)), x, e, added, &was);
					if ((o.code == INS || o.code == HINT || o.code == EMPL) && (kid(s) != e.k || vid(s) != e.v))
						fail("CONTENTS", "the source of a copy was changed");
					break;
				}
				case TRY:
				case ASSIGN_KV:
				case INDEX:
					if constexpr (MAP && !MULTI) {
						const bool ends = Cfg::fam == ORDERED && (o.c & 8) && o.code != INDEX, front = ends && (o.c & 16);
						(void)front;
						want([&](auto& z) {
							if (!present)
								add(z, e, front);
							else if (o.code != TRY)
								for (auto& q : z)
									if (q.k == e.k)
										q.v = e.v;
						});
						One w(*this, e);
						Val& s = w.get();
						if constexpr (Cfg::fam == FLAT) {
							auto h = nth(x, n ? (size_t)o.b % (n + 1) : 0);
							if ((o.c & 8) && o.code == TRY) {
								switch (o.c & 6) {
									case 0: check_pos(x.try_emplace_pos(std::move(s.first), std::move(s.second)), x, e, added, &was); break;
									case 2: check_pos(x.try_emplace_pos(s.first, s.second), x, e, added, &was); break;
									case 4: check_pos(x.try_emplace_pos(h, std::move(s.first), std::move(s.second)), x, e, added, &was); break;
									default: check_pos(x.try_emplace_pos(h, s.first, s.second), x, e, added, &was); break;
								}
								break;
							}
							if ((o.c & 8) && o.code == ASSIGN_KV) {
								switch (o.c & 6) {
									case 0: check_pos(x.insert_or_assign_pos(std::move(s.first), std::move(s.second)), x, e, added, &e); break;
									case 2: check_pos(x.insert_or_assign_pos(s.first, s.second), x, e, added, &e); break;
									case 4: check_ret(x.insert_or_assign(h, std::move(s.first), std::move(s.second)), x, e, added, &e); break;
									default: check_ret(x.insert_or_assign(h, s.first, s.second), x, e, added, &e); break;
								}
								break;
							}
						}
						if constexpr (Cfg::fam == ORDERED) {
							auto h = x.end();
							if (ends && o.code == TRY) {
								switch ((o.c & 6) | (front ? 1 : 0)) {
									case 0: check_ret(x.try_emplace_back(std::move(s.first), std::move(s.second)), x, e, added, &was); break;
									case 1: check_ret(x.try_emplace_front(std::move(s.first), std::move(s.second)), x, e, added, &was); break;
									case 2: check_ret(x.try_emplace_back(s.first, s.second), x, e, added, &was); break;
									case 3: check_ret(x.try_emplace_front(s.first, s.second), x, e, added, &was); break;
									case 4: check_ret(x.try_emplace_back(h, s.first, s.second), x, e, added, &was); break;
									case 5: check_ret(x.try_emplace_front(h, s.first, s.second), x, e, added, &was); break;
									case 6: check_ret(x.try_emplace_back(h, std::move(s.first), std::move(s.second)), x, e, added, &was); break;
									default: check_ret(x.try_emplace_front(h, std::move(s.first), std::move(s.second)), x, e, added, &was); break;
								}
								break;
							}
							if (ends) {
								switch ((o.c & 6) | (front ? 1 : 0)) {
									case 0: check_ret(x.push_back_or_assign(std::move(s.first), std::move(s.second)), x, e, added, &e); break;
									case 1: check_ret(x.push_front_or_assign(std::move(s.first), std::move(s.second)), x, e, added, &e); break;
									case 2: check_ret(x.push_back_or_assign(s.first, s.second), x, e, added, &e); break;
									case 3: check_ret(x.push_front_or_assign(s.first, s.second), x, e, added, &e); break;
									case 4: check_ret(x.push_back_or_assign(h, s.first, s.second), x, e, added, &e); break;
									case 5: check_ret(x.push_front_or_assign(h, s.first, s.second), x, e, added, &e); break;
									case 6: check_ret(x.insert_or_assign(h, std::move(s.first), std::move(s.second)), x, e, added, &e); break;
									default: check_ret(x.push_front_or_assign(h, std::move(s.first), std::move(s.second)), x, e, added, &e); break;
								}
								break;
							}
						}
						if (o.code == TRY) {
							if (o.c & 2)
								check_ret(x.try_emplace(s.first, s.second), x, e, added, &was);
							else if (o.c & 4)
								check_ret(x.try_emplace(nth(x, n ? (size_t)o.b % (n + 1) : 0), s.first, s.second), x, e, added, &was);
							else {
								long old = e.v;
								check_ret(x.try_emplace(std::move(s.first), std::move(s.second)), x, e, added, &was);
								if (!added && val(s.second) != old)
									fail("RETURN", "try_emplace() consumed the value although the key was present");
							}
						}
						else if (o.code == ASSIGN_KV) {
							auto r = (o.c & 2) ? x.insert_or_assign(s.first, s.second) : x.insert_or_assign(std::move(s.first), std::move(s.second));
							if (r.second != added)
								fail("RETURN", "insert_or_assign(%ld) reports %d", e.k, (int)r.second);
							if (kid(*r.first) != e.k || vid(*r.first) != e.v)
								fail("RETURN", "insert_or_assign(%ld) returns an iterator to another element", e.k);
						}
						else {
							// strong only as a whole: the new element is inserted first, then assigned
							T& r = (o.c & 8) ? x[std::move(s.first)] : x[s.first];
							if (!present)
								want([&](auto& z) {
									for (auto& q : z)
										if (q.k == e.k)
											q.v = 0;
								});
							NoFault nf;
							r = s.second;
							want([&](auto& z) {
								for (auto& q : z)
									if (q.k == e.k)
										q.v = e.v;
							});
						}
					}
					break;
				case PUSHB:
				case PUSHF:
					if constexpr (Cfg::fam == ORDERED) {
						want([&](auto& z) { add(z, e, o.code == PUSHF); });
						One w(*this, e);
						Val& s = w.get();
						if (o.code == PUSHB) {
							if (o.c & 2)
								check_ret(x.push_back(const_cast<const Val&>(s)), x, e, added, &was);
							else if (o.c & 4)
								check_ret(x.push_back(std::move(s)), x, e, added, &was);
							else
								check_ret(x.emplace_back(std::move(s)), x, e, added, &was);
						}
						else {
							if (o.c & 2)
								check_ret(x.push_front(const_cast<const Val&>(s)), x, e, added, &was);
							else if (o.c & 4)
								check_ret(x.push_front(std::move(s)), x, e, added, &was);
							else
								check_ret(x.emplace_front(std::move(s)), x, e, added, &was);
						}
					}
					break;
				case ERASE_KEY: {
					size_t c = 0;
					want([&](auto& z) {
						for (auto it = z.begin(); it != z.end();)
							if (it->k == e.k) {
								it = z.erase(it);
								++c;
							}
							else
								++it;
					});
					One w(*this, e);
					size_t r;
					if constexpr (Cfg::het) {
						if (o.c & 4)
							r = x.erase(e.k);
						else if constexpr (MAP)
							r = x.erase(w.get().first);
						else
							r = x.erase(w.get());
					}
					else if constexpr (MAP)
						r = x.erase(w.get().first);
					else
						r = x.erase(w.get());
					if (r != c)
						fail("RETURN", "erase(%ld) returns %zu instead of %zu", e.k, r, c);
					break;
				}
				case ERASE_IT: {
					if (!n)
						break;
					auto it = nth(x, at);
					Ent g{ kid(*it), vid(*it) };
					want([&](auto& z) { z.erase(std::find(z.begin(), z.end(), g)); });
					auto nx = it;
					++nx;
					bool last = nx == const_cast<const V&>(x).end();
					Ent ng = last ? Ent{} : Ent{ kid(*nx), vid(*nx) };
					if constexpr (Cfg::fam == FLAT) {
						if (o.c & 2) {
							x.erase_pos(at);
							break;
						}
					}
					auto r = x.erase(it);
					if ((r == x.end()) != last || (!last && (kid(*r) != ng.k || vid(*r) != ng.v)))
						fail("RETURN", "erase(iterator) does not return the following element");
					break;
				}
				case ERASE_RANGE: {
					size_t b = at, en = std::min(n, at + (size_t)o.b);
					auto ib = nth(x, b), ie = nth(x, en);
					Vec gone;
					{
						NoSim ns;
						gone.reserve(en - b);
					}
					for (auto q = ib; q != ie; ++q) {
						Ent g{ kid(*q), vid(*q) };
						NoSim ns;
						gone.push_back(g);
					}
					want([&](auto& z) {
						for (auto& g : gone)
							z.erase(std::find(z.begin(), z.end(), g));
						Vec().swap(gone);
					});
					bool last = en == n;
					Ent ng = last ? Ent{} : Ent{ kid(*ie), vid(*ie) };
					if constexpr (Cfg::fam == FLAT) {
						if (o.c & 2) {
							x.erase(b, en);
							break;
						}
					}
					auto r = x.erase(ib, ie);
					if ((r == x.end()) != last || (!last && (kid(*r) != ng.k || vid(*r) != ng.v)))
						fail("RETURN", "erase(range) does not return the following element");
					break;
				}
				case INS_RA:
				case INS_IN: {
					want([&](auto& z) {
						for (auto& q : news)
							add(z, q);
					});
					Src s(*this, news);
					if (o.code == INS_RA && s.n == 3 && Cfg::init_list) {
						if constexpr (Cfg::init_list)
							x.insert({ s.d[0], s.d[1], s.d[2] });
					}
					else if (o.code == INS_RA)
						x.insert(s.d, s.d + s.n);
					else
						x.insert(s.b(), s.e());
					break;
				}
				case INS_SORTED:
					if constexpr (Cfg::fam == FLAT) {
						Vec sorted;
						{
							NoSim ns;
							for (auto& q : news)
								add(sorted, q);
							std::stable_sort(sorted.begin(), sorted.end(), [&](const Ent& a, const Ent& b) { return kless(t, a.k, b.k); });
						}
						want([&](auto& z) {
							for (auto& q : sorted)
								add(z, q);
						});
						struct Free
						{
							Vec& s;
							~Free()
							{
								NoSim ns;
								Vec().swap(s);
							}
						} fr{ sorted };
						Src s(*this, sorted);
						if constexpr (MULTI)
							x.insert(seq::sorted_equivalent, s.d, s.d + s.n);
						else
							x.insert(seq::sorted_unique, s.d, s.d + s.n);
					}
					break;
				case ASG_RA:
				case ASG_IN:
					if constexpr (Cfg::fam == FLAT) {
						want([&](auto& z) {
							z.clear();
							for (auto& q : news)
								add(z, q);
						});
						Src s(*this, news);
						if (o.code == ASG_RA && s.n == 3)
							x = std::initializer_list<Val>({ s.d[0], s.d[1], s.d[2] });
						else if (o.code == ASG_RA)
							x.assign(s.d, s.d + s.n);
						else
							x.assign(s.b(), s.e());
					}
					break;
				case CTOR_RA:
				case CTOR_IN: {
					{
						NoSim ns;
						other.clear();
						for (auto& q : news)
							add(other, q);
					}
					Src s(*this, news);
					V* c = o.code == CTOR_RA ? Cfg::construct(s.d, s.d + s.n, dir[1 - t], hmode[1 - t]) : Cfg::construct(s.b(), s.e(), dir[1 - t], hmode[1 - t]);
					delete v[1 - t];
					v[1 - t] = c;
					NoSim ns;
					addr[1 - t].clear();
					break;
				}
				case ERASE_IF: {
					long mod = o.b % 5 + 1;
					const bool most = o.b % 7 == 0; // leave a few elements only
					auto pick = [&](long k) { return most ? (k + o.a) % 97 != 0 : (k + o.a) % mod == 0; };
					size_t c = 0;
					want([&](auto& z) {
						for (auto it = z.begin(); it != z.end();)
							if (pick(it->k)) {
								it = z.erase(it);
								++c;
							}
							else
								++it;
					});
					size_t r = erase_if(x, [&](const auto& q) {
						maybe_throw(F_FUNC);
						return pick(kid(q));
					});
					if (r != c)
						fail("RETURN", "erase_if() returns %zu instead of %zu", r, c);
					break;
				}
				case MERGE:
					if constexpr (Cfg::fam == FLAT) {
						if (dir[0] != dir[1])
							break;
						want([&](auto& z) {
							other.clear();
							for (auto& q : m[1 - t])
								if (!add(z, q))
									other.push_back(q);
						});
						x.merge(y);
					}
					break;
				case CLEAR:
					want([&](auto& z) { z.clear(); });
					x.clear();
					break;
				case COPYCTOR: {
					V* c = new V(const_cast<const V&>(x));
					{
						NoSim ns;
						other = m[t];
						addr[1 - t].clear();
					}
					delete v[1 - t];
					v[1 - t] = c;
					dir[1 - t] = dir[t];
					hmode[1 - t] = hmode[t];
					break;
				}
				case COPYASSIGN: {
					dirty_dir[t] = true;
					want([&](auto& z) {
						z = m[1 - t];
						addr[t].clear();
					});
					x = const_cast<const V&>(y);
					dir[t] = dir[1 - t];
					break;
				}
				case MOVECTOR: {
					V* c = new V(std::move(x));
					{
						NoSim ns;
						other = m[t];
						exp.clear();
						addr[1 - t].swap(addr[t]);
						addr[t].clear();
					}
					delete v[1 - t];
					v[1 - t] = c;
					dir[1 - t] = dir[t];
					hmode[1 - t] = hmode[t];
					x.clear(); // valid but unspecified
					break;
				}
				case MOVEASSIGN: {
					want([&](auto& z) {
						z = m[1 - t];
						other.clear();
						addr[t].swap(addr[1 - t]);
						addr[1 - t].clear();
					});
					dirty_dir[0] = dirty_dir[1] = true;
					x = std::move(y);
					y.clear();
					dir[t] = dir[1 - t];
					hmode[t] = hmode[1 - t];
					// the state of a moved-from comparator is not known
					delete v[1 - t];
					v[1 - t] = nullptr;
					NoFault nf;
					v[1 - t] = Cfg::make(dir[1 - t], hmode[1 - t]);
					break;
				}
				case SWAP:
					want([&](auto& z) {
						z = m[1 - t];
						other = m[t];
						addr[0].swap(addr[1]);
					});
					x.swap(y);
					std::swap(dir[0], dir[1]);
					std::swap(hmode[0], hmode[1]);
					break;
				case RESERVE:
					if constexpr (Cfg::fam == ORDERED || Cfg::fam == RADIX_HASH)
						x.reserve((size_t)o.b * 3);
					break;
				case REHASH:
					if constexpr (Cfg::fam == ORDERED) {
						if (o.c & 2)
							x.rehash((size_t)o.b * 3);
						else
							x.rehash();
					}
					else if constexpr (Cfg::fam == RADIX_HASH)
						x.rehash();
					break;
				case SHRINK:
					if constexpr (Cfg::fam == ORDERED || (Cfg::fam == RADIX && !MAP)) {
						{
							NoSim ns;
							addr[t].clear();
						}
						x.shrink_to_fit();
					}
					break;
				case SORT:
					if constexpr (Cfg::fam == ORDERED) {
						bool rev = o.b & 1;
						want([&](auto& z) {
							addr[t].clear();
							std::sort(z.begin(), z.end(), [&](const Ent& a, const Ent& b) { return rev ? b.k < a.k : a.k < b.k; });
						});
						if (rev)
							x.sort([](const K& a, const K& b) { return b < a; });
						else
							x.sort();
					}
					break;
				case EXTRACT:
					if constexpr (Cfg::fam == FLAT) {
						auto c = x.extract();
						if (!x.empty())
							fail("CONTENTS", "the container is not empty after extract()");
						if (c.size() != n)
							fail("CONTENTS", "extract() returns %zu elements instead of %zu", c.size(), n);
						NoFault nf; // the debug assertion compares elements
						x.replace(std::move(c));
					}
					break;
				case SEQ_DIRECT:
					if constexpr (Cfg::fam == ORDERED) {
						// documented: fill the sequence directly, then rehash() removes later duplicates
						want([&](auto& z) {
							for (auto& q : news)
								add(z, q);
						});
						Src s(*this, news);
						fault_seen[t] = true;
						try {
							auto& sq = x.sequence();
							for (size_t i = 0; i < s.n; ++i)
								sq.push_back(s.d[i]);
							x.rehash();
						}
						catch (...) {
							NoFault nf;
							x.rehash();
							throw;
						}
					}
					break;
				case EQUALS: {
					bool eq = false;
					{
						NoSim ns;
						Vec a = m[0], b = m[1];
						if (Cfg::fam == ORDERED) {
							std::sort(a.begin(), a.end());
							std::sort(b.begin(), b.end());
						}
						eq = a == b;
					}
					if (dir[0] != dir[1] || MULTI || fault_seen[0] || fault_seen[1])
						break;
					if constexpr (Cfg::has_eq) {
						if ((x == y) != eq || (x != y) == eq)
							fail("RETURN", "operator== is %d", (int)!eq);
					}
					break;
				}
			}
		}
		bool dirty_dir[2] = { false, false };

		// ORDERED: `insert` may put an element anywhere; the others keep their order
		void settle(int t, Vec& exp, bool anywhere)
		{
			if (Cfg::fam != ORDERED || !anywhere)
				return;
			Vec g;
			read(t, g, "insertion");
			NoSim ns;
			Vec old = m[t], rest;
			for (auto& e : g)
				if (find(old, e.k))
					rest.push_back(e);
			bool same = rest.size() == old.size();
			for (size_t i = 0; same && i < rest.size(); ++i)
				same = rest[i].k == old[i].k;
			Vec a = g, b = exp;
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			if (same && a == b)
				exp = g;
			Vec().swap(g);
		}

		// which of several new elements with one key is inserted is not specified
		void choose(int t, Vec& exp, const Vec& old, const Vec& news, const char* w)
		{
			Vec g;
			read(t, g, w);
			NoSim ns;
			for (auto& e : exp)
				if (!find(old, e.k))
					if (const Ent* f = find(g, e.k))
						if (std::find(news.begin(), news.end(), *f) != news.end())
							e = *f;
			Vec().swap(g);
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live0 = g_live;
			Rng r((uint64_t)p.get("rng", 1));
			nkeys = p.get("keys", 10);
			g_shape = (int)p.get("shape", 0);
			auto key = [&](long a) {
				NoSim ns;
				return Cfg::canon((a % nkeys + nkeys) % nkeys);
			};
			for (int t = 0; t < 2; ++t) {
				dir[t] = Cfg::cmp ? (int)p.get(t ? "dirB" : "dirA") : 0;
				hmode[t] = (int)p.get(t ? "hashB" : "hashA");
				v[t] = Cfg::make(dir[t], hmode[t]);
				long n = p.get(t ? "preB" : "preA");
				for (long i = 0; i < n; ++i) {
					Ent e{ key(p.get("seqkeys") ? i : (long)(r.next() & 0xfffff)), fresh() };
					{
						One w(*this, e);
						if constexpr (Cfg::fam == ORDERED)
							v[t]->push_back(w.get());
						else
							v[t]->insert(const_cast<const Val&>(w.get()));
					}
					NoSim ns;
					add(m[t], e);
				}
				{
					NoSim ns;
					norm(t, m[t]);
				}
				same(t, "prefill");
			}
			mark_nontrivial();
			int k = 0;
			for (const Op& o : p.tasks[0]) {
				int t = o.c & 1;
				Vec exp, other, news;
				int dir0[2] = { dir[0], dir[1] };
				(void)dir0;
				{
					NoSim ns;
					exp = m[t];
					other = m[1 - t];
					size_t cnt = 0;
					switch (o.code) {
						case INS_RA:
						case INS_IN:
						case INS_SORTED:
						case ASG_RA:
						case ASG_IN:
						case CTOR_RA:
						case CTOR_IN:
						case SEQ_DIRECT: cnt = (size_t)o.b; break;
						default: cnt = 1;
					}
					bool asc = o.c & 8; // runs of consecutive keys
					long base = o.a;
					for (size_t i = 0; i < cnt; ++i) {
						Ent e{ key(i == 0 || asc ? base + (long)i : (long)(r.next() & 0xfffff)), fresh() };
						news.push_back(e);
						last_key = e.k;
					}
					char buf[200];
					snprintf(buf, sizeof(buf), "%d: %s [size %zu, other %zu] key %ld", k, show_op(p, o).c_str(), m[t].size(), m[1 - t].size(), news.empty() ? -1 : news[0].k);
					logf("%s", buf);
				}
				bool thrown = false, dirty_throw = false;
				dirty_dir[0] = dirty_dir[1] = false;
				progress();
				begin_op(o);
				try {
					apply(o, t, exp, other, news);
				}
				catch (const Injected&) {
					thrown = true;
				}
				catch (const std::bad_alloc&) {
					thrown = true;
				}
				catch (const std::logic_error&) {
					thrown = dirty_throw = true;
				}
				int f = end_op();
				logf("   -> %s", thrown ? (dirty_throw ? "refused (not rehashed)" : "threw") : "ok");
				if (dirty_throw && (Cfg::fam != ORDERED || !(fault_seen[0] || fault_seen[1])))
					fail("EXCEPTION", "%s throws logic_error although nothing failed", op_names[o.code]);
				if (thrown && !f && !dirty_throw)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				if (thrown && Cfg::fam == ORDERED)
					fault_seen[t] = true;
				if (o.code == SWAP || o.code == MOVECTOR || o.code == MOVEASSIGN)
					fault_seen[0] = fault_seen[1] = fault_seen[0] || fault_seen[1];
				std::string w;
				{
					NoSim ns;
					w = std::string(op_names[o.code]) + (thrown ? " that threw" : "");
				}
				{
					NoSim ns;
					bool range = o.code == INS_RA || o.code == INS_IN || o.code == ASG_RA || o.code == ASG_IN || o.code == CTOR_RA || o.code == CTOR_IN;
					new_lo = !thrown && range && !news.empty() ? news.front().v : 0;
					new_hi = new_lo ? news.back().v : 0;
				}
				if (!thrown) {
					if (Cfg::fam == FLAT && MAP && !MULTI && !Cfg::stable)
						switch (o.code) {
							case INS_RA:
							case INS_IN: choose(t, exp, m[t], news, w.c_str()); break;
							case ASG_RA:
							case ASG_IN: choose(t, exp, Vec(), news, w.c_str()); break;
							case CTOR_RA:
							case CTOR_IN: choose(1 - t, other, Vec(), news, w.c_str()); break;
						}
					settle(t, exp, o.code <= INDEX || o.code == INS_RA || o.code == INS_IN || o.code == CTOR_RA || o.code == CTOR_IN);
					NoSim ns;
					m[t].swap(exp);
					m[1 - t].swap(other);
					norm(t, m[t]);
					norm(1 - t, m[1 - t]);
					if (Cfg::fam == ORDERED && (o.code == CTOR_RA || o.code == CTOR_IN)) {
						Vec g;
						sim_on();
						read(1 - t, g, "constructor");
						sim_off();
						Vec a = g, b = m[1 - t];
						std::sort(a.begin(), a.end());
						std::sort(b.begin(), b.end());
						if (a == b)
							m[1 - t] = g;
					}
				}
				else if (!strong(o.code) && !dirty_throw) {
					// basic guarantee: a valid container of elements that were there or were to be there
					for (int q = 0; q < 2; ++q) {
						if (dirty_dir[q] && Cfg::cmp) {
							// an interrupted assignment: which of the two orders applies is known only by looking
							dir[q] = Cfg::dir_of(*v[q]);
						}
						Vec g;
						if (Cfg::fam == ORDERED && (o.code == SORT || o.code == SHRINK || o.code == COPYASSIGN)) {
							NoSim ns;
							addr[q].clear();
						}
						bool reset = Cfg::fam == ORDERED && q == t && (o.code == SORT || o.code == SHRINK);
						if (reset) {
							// what an interrupted sort leaves behind is only good for clearing
							sim_on();
							v[q]->clear();
							sim_off();
						}
						read(q, g, w.c_str());
						NoSim ns;
						bool two = o.code == SWAP || o.code == MOVEASSIGN || o.code == MERGE;
						Vec ok = m[q];
						if (q == t || two) {
							ok.insert(ok.end(), exp.begin(), exp.end());
							ok.insert(ok.end(), other.begin(), other.end());
							ok.insert(ok.end(), news.begin(), news.end());
							if (two)
								ok.insert(ok.end(), m[1 - q].begin(), m[1 - q].end());
						}
						for (Ent e : g) {
							if (Cfg::moved_ok && e.k == MOVED)
								continue; // a move that throws midway leaves moved-from elements
							if ((Cfg::moved_ok || o.code == COPYASSIGN) && MAP) {
								// and the move (or the assignment) of a pair may stop between its two members
								bool kk = false, vv = false;
								for (auto& z : ok) {
									kk |= z.k == e.k;
									vv |= z.v == e.v || e.v == MOVED;
								}
								if (kk && vv)
									continue;
							}
							if (e.v == MOVED || ((o.code == INDEX || o.code == ASSIGN_KV) && e.v == 0)) {
								bool kk = false;
								for (auto& z : ok)
									kk |= z.k == e.k;
								if (kk && (e.v == 0 || Cfg::moved_ok))
									continue;
							}
							if (std::find(ok.begin(), ok.end(), e) == ok.end())
								fail("CONTENTS", "after %s the container holds %ld:%ld, which nobody put there: %s", w.c_str(), e.k, e.v, str(g).c_str());
						}
						if (q != t && !two && g != m[q])
							fail("CONTENTS", "%s and changed another container", w.c_str());
						if (q == t && keeps(o.code) && !reset)
							for (auto& e : m[q])
								if (std::find(g.begin(), g.end(), e) == g.end())
									fail("CONTENTS", "%s and lost the element %ld:%ld", w.c_str(), e.k, e.v);
						if (Cfg::fam == ORDERED && q == t && keeps(o.code) && !reset) {
							// the elements that were there keep their order
							Vec rest;
							for (auto& e : g)
								if (find(m[q], e.k))
									rest.push_back(e);
							if (rest != m[q])
								fail("CONTENTS", "%s and reordered the elements", w.c_str());
						}
						m[q] = g;
						Vec().swap(g);
					}
				}
				same(0, w.c_str());
				same(1, w.c_str());
				look(t, last_key, w.c_str());
				for (int q = 0; q < 3; ++q)
					look((int)r.below(2), key((long)(r.next() & 0xfffff)), w.c_str());
				if (o.c & 16) {
					deep(0, w.c_str());
					deep(1, w.c_str());
				}
				NoSim ns;
				std::string().swap(w);
				Vec().swap(exp);
				Vec().swap(other);
				Vec().swap(news);
				++k;
			}
			// clearing and destroying need no memory and do not fail
			Op o;
			o.fk = F_ALLOC_P;
			o.fn = 1;
			begin_op(o);
			if (p.get("final_clear")) {
				v[0]->clear();
				if (!v[0]->empty() || v[0]->begin() != v[0]->end())
					fail("CONTENTS", "not empty after clear()");
			}
			delete v[0];
			delete v[1];
			end_op();
			if (g_live != live0)
				fail("LIFETIME", "%ld elements were never destroyed", g_live - live0);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
