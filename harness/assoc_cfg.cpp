// one configuration of the associative container harness, selected by -DCFG=x
#include "assoc.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <string>
#include <tuple>
#include <vector>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/radix_hash_map.hpp>
using namespace as;
namespace
{
	using E0 = Elem<false, 0>;
	using E1 = Elem<true, 0>;
	using E2 = Elem<true, 0, false>; // move construction may throw, move assignment not
	using E3 = Elem<false, 0, true>; // the other way round
	using EA = Elem<false, 0, false, 64>; // needs more alignment than operator new gives
	// shape of the keys of radix trees: where the bits are that differ
	inline long spread_key(long k)
	{
		switch (g_shape) {
			case 1: return k << 20;
			case 2: return k * 3000000000000000L - (1L << 62); // over the whole range: directories merge up to the root
			case 3: return ((k / 100) << 40) + k % 100;
			case 4: return (k << 2) - 4000;
			default: return k;
		}
	}
	inline long unspread_key(long v)
	{
		if (v == MOVED)
			return v;
		switch (g_shape) {
			case 1: return v >> 20;
			case 2: return (v + (1L << 62)) / 3000000000000000L;
			case 3: return (v >> 40) * 100 + (v & ((1L << 40) - 1));
			case 4: return (v + 4000) >> 2;
			default: return v;
		}
	}
	template<class K>
	struct RadixKeyOf
	{
		static K mk(long k) { return K(spread_key(k)); }
		static K mkey(long k) { return K(spread_key(k)); }
		static long id(const K& k) { return unspread_key(val(k)); }
		static bool rank_less(long a, long b) { return a < b; }
		static long canon(long a) { return a; }
		static bool starts(long a, long b) { return a == b; }
	};
	template<class K>
	struct KeyOf
	{
		static K mk(long k) { return K(k); }
		static K mkey(long k) { return K(k); }
		static long id(const K& k) { return val(k); }
		static bool rank_less(long a, long b) { return a < b; }
		static long canon(long a) { return a; }
		static bool starts(long a, long b) { return a == b; }
	};
	// strings that share prefixes, are prefixes of each other, contain zeros and high bytes
	struct KeyStr
	{
		static std::string mkey(long k) { return mk(k); }
		static std::string mk(long k)
		{
			if (g_shape == 1)
				return std::string((size_t)k, '\0'); // no bit differs: the deepest tree
			if (g_shape == 2) { // two dense bytes: directories merge up to the root
				k *= 21;
				return std::string(1, (char)(k >> 8)) + std::string(1, (char)k);
			}
			if (g_shape == 3) { // groups with a long common prefix, dense inside
				std::string g(30 + (size_t)(k / 1000), (char)('A' + k / 1000));
				k = k % 1000 * 65;
				return g + (char)(k >> 8) + (char)k;
			}
			if (g_shape == 4) // a common prefix for some, one byte more for each
				return std::string((size_t)(k % 60), 'p') + (char)(k / 60) + std::string((size_t)(k % 3), 'q');
			static const char* const pre[] = { "", "a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\xff\x80", "ab" };
			std::string s = pre[k % 5];
			static const char al[] = { 'a', 'b', '\0', '\xff', '0', 'c' };
			for (long q = k / 5; q; q = (q - 1) / 6)
				s += al[(q - 1) % 6];
			return s;
		}
		static std::map<std::string, long>& back()
		{
			static std::map<std::string, long> m[5];
			return m[g_shape];
		}
		static std::vector<long>& rank()
		{
			static std::vector<long> r[5];
			return r[g_shape];
		}
		static std::vector<std::string>& strs()
		{
			static std::vector<std::string> r[5];
			return r[g_shape];
		}
		static void init()
		{
			NoSim ns;
			if (!rank().empty())
				return;
			std::vector<long> canon;
			for (long i = 0; i < 3100; ++i) {
				std::string s = mk(i);
				back().emplace(s, i); // the first id of equal strings
				strs().push_back(s);
			}
			rank().resize(3100);
			long n = 0;
			for (auto& p : back())
				rank()[(size_t)p.second] = n++;
		}
		static long id(const std::string& s)
		{
			NoSim ns;
			init();
			auto it = back().find(s);
			return it == back().end() ? -1 : it->second;
		}
		static long canon(long a)
		{
			NoSim ns;
			init();
			return back()[strs()[(size_t)a]];
		}
		static bool rank_less(long a, long b)
		{
			init();
			return (a < 0 ? -1 : rank()[(size_t)a]) < (b < 0 ? -1 : rank()[(size_t)b]);
		}
		static bool starts(long a, long b)
		{
			init();
			const std::string &x = strs()[(size_t)a], &y = strs()[(size_t)b];
			return x.compare(0, y.size(), y) == 0;
		}
	};
	// other key types: M makes the key of a number, the rank is the one of std::set
	template<class M>
	struct KeyTab
	{
		using Key = decltype(M::mk(0));
		struct Tab
		{
			std::map<Key, long> back;
			std::vector<long> rank;
			std::vector<long> canon;
			std::vector<Key> keys;
			Tab()
			{
				for (long i = 0; i < 3100; ++i) {
					keys.push_back(M::mk(i));
					canon.push_back(back.emplace(keys.back(), i).first->second);
				}
				rank.resize(3100);
				long n = 0;
				for (auto& p : back)
					rank[(size_t)p.second] = n++;
			}
		};
		static Tab& tab()
		{
			NoSim ns;
			static Tab* t[5];
			if (!t[g_shape])
				t[g_shape] = new Tab();
			return *t[g_shape];
		}
		// another representation of the same key, if there is one
		template<class X>
		static X other(X k)
		{
			if constexpr (std::is_floating_point_v<X>)
				return k == 0 ? -k : k;
			else
				return k;
		}
		template<class X, class Y>
		static std::tuple<X, Y> other(std::tuple<X, Y> k)
		{
			return { other(std::get<0>(k)), other(std::get<1>(k)) };
		}
		template<class X>
		static std::vector<X> other(std::vector<X> k)
		{
			for (auto& x : k)
				x = other(x);
			return k;
		}
		static Key mkey(long k) { return other(M::mk(k)); }
		static Key mk(long k) { return M::mk(k); }
		static long id(const Key& k)
		{
			NoSim ns;
			Tab& t = tab();
			auto it = t.back.find(k);
			return it == t.back.end() ? -1 : it->second;
		}
		static long canon(long a) { return tab().canon[(size_t)a]; }
		static bool rank_less(long a, long b)
		{
			Tab& t = tab();
			return (a < 0 ? -1 : t.rank[(size_t)a]) < (b < 0 ? -1 : t.rank[(size_t)b]);
		}
		static bool starts(long a, long b)
		{
			if constexpr (M::prefix) {
				Tab& t = tab();
				const Key &x = t.keys[(size_t)a], &y = t.keys[(size_t)b];
				return x.size() >= y.size() && std::equal(y.begin(), y.end(), x.begin());
			}
			else
				return a == b;
		}
	};
	// numbers of any width, by shape: dense, both ends, spread over the whole range, alternating signs, few values
	template<class I>
	I any_int(long k)
	{
		using U = std::make_unsigned_t<I>;
		constexpr unsigned bits = sizeof(I) * 8;
		switch (g_shape) {
			case 1: return (I)((U)(k * 7) << (bits - 8 - (bits > 8 ? 8 : 0)));
			case 2: return (I)((U)k * (U)0x9E3779B97F4A7C15ull);
			case 3: return (I)((k & 1) ? -(I)(k / 2) : (I)(k / 2));
			case 4: return (I)((k % 3) == 0 ? std::numeric_limits<I>::min() + (I)(k / 3) : (k % 3) == 1 ? std::numeric_limits<I>::max() - (I)(k / 3) : (I)(k / 3));
			default: return (I)k;
		}
	}
	template<class F>
	F any_float(long k)
	{
		static const F sp[] = { 0, -(F)0, std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::denorm_min(), -std::numeric_limits<F>::denorm_min(),
					std::numeric_limits<F>::min(), -std::numeric_limits<F>::max() };
		if (k < 8)
			return sp[k];
		switch (g_shape) {
			case 1: return (F)(k - 1500);
			case 2: return ((k & 1) ? 1 : -1) * (F)std::ldexp((F)(1 + k % 17), (int)(k % 200) - 100);
			case 3: return (F)(k - 1500) / 8;
			case 4: return 1 + (F)k * std::numeric_limits<F>::epsilon();
			default: return (F)k;
		}
	}
	// sequences: the digits of k in a small alphabet after one of some prefixes, of any length
	template<class S, class Fun>
	S any_seq(long k, Fun letter)
	{
		S s;
		if (g_shape == 1) {
			for (long i = 0; i < k % 40; ++i)
				s.push_back(letter(k / 40 % 7));
			if (k >= 280)
				s.push_back(letter(k / 280));
			return s;
		}
		if (g_shape == 2) {
			s.push_back(letter(k * 37));
			s.push_back(letter(k));
			return s;
		}
		static const int pre[] = { 0, 1, 30, 2, 9 };
		for (int i = 0; i < pre[k % 5]; ++i)
			s.push_back(letter(k % 5 + (g_shape == 3 ? i : 0)));
		const long base = g_shape == 4 ? 50 : 6;
		for (long q = k / 5; q; q = (q - 1) / base)
			s.push_back(letter((q - 1) % base));
		return s;
	}
	template<class F>
	struct MkFloat
	{
		static constexpr bool prefix = false;
		static F mk(long k) { return any_float<F>(k); }
	};
	template<class I>
	struct MkInt
	{
		static constexpr bool prefix = false;
		static I mk(long k) { return any_int<I>(k); }
	};
	struct MkPtr
	{
		static constexpr bool prefix = false;
		static const char* mk(long k) { return reinterpret_cast<const char*>(any_int<uintptr_t>(k)); }
	};
	template<class C>
	struct MkWide
	{
		static constexpr bool prefix = true;
		static std::basic_string<C> mk(long k)
		{
			return any_seq<std::basic_string<C>>(k, [](long d) { return (C)(d % 3 == 1 ? 0 : d % 3 == 2 ? d * 2654435761u : d); });
		}
	};
	template<class I>
	struct MkVec
	{
		static constexpr bool prefix = false;
		static std::vector<I> mk(long k)
		{
			return any_seq<std::vector<I>>(k, [](long d) {
				if constexpr (std::is_floating_point_v<I>)
					return d % 3 == 1 ? -(I)d / 4 : (I)d;
				else
					return (I)(d % 4 == 1 ? (I)0 : d % 4 == 2 ? (I)(-d) : d % 4 == 3 ? (I)((uint64_t)d * 0x9E3779B97F4A7C15ull) : (I)d);
			});
		}
	};
	template<class I, size_t N>
	struct MkArr
	{
		static constexpr bool prefix = false;
		static std::array<I, N> mk(long k)
		{
			std::array<I, N> a{};
			for (size_t i = 0; i < N; ++i)
				a[i] = any_int<I>(i + 1 == N ? k : i == 0 ? k / 50 : k % 3);
			return a;
		}
	};
	template<class A, class B>
	struct MkTup
	{
		template<class X>
		static X num(long k)
		{
			if constexpr (std::is_floating_point_v<X>)
				return any_float<X>(k);
			else
				return any_int<X>(k);
		}
		static constexpr bool prefix = false;
		static std::tuple<A, B> mk(long k) { return { num<A>(k / 50), num<B>(k % 50) }; }
	};
	struct Base
	{
		static constexpr bool multi = false, map = false, bidir = true, cmp = false, prefix = false, stable = false, has_eq = true, keep_on_insert = false, moved_ok = false, init_list = true, het = false;
		template<class V>
		static int dir_of(const V&)
		{
			return 0;
		}
	};
	template<class K>
	struct FlatBase : Base
	{
		static constexpr Family fam = FLAT;
		static constexpr bool cmp = true;
		template<class V>
		static int dir_of(const V& v)
		{
			return v.key_comp().dir;
		}
	};
#define FLAT_MAKE                                                                                                                                                                                      \
	static V* make(int dir, int) { return new V(Cmp<K>(dir)); }                                                                                                                                     \
	template<class It>                                                                                                                                                                              \
	static V* construct(It a, It b, int dir, int)                                                                                                                                                   \
	{                                                                                                                                                                                               \
		return new V(a, b, Cmp<K>(dir));                                                                                                                                                        \
	}
#define HASH_MAKE                                                                                                                                                                                      \
	static V* make(int, int h) { return new V(H<K>(h)); }                                                                                                                                           \
	template<class It>                                                                                                                                                                              \
	static V* construct(It a, It b, int, int h)                                                                                                                                                     \
	{                                                                                                                                                                                               \
		return new V(a, b, H<K>(h));                                                                                                                                                            \
	}
#define RHASH_MAKE                                                                                                                                                                                     \
	static V* make(int, int h) { return new V(HN<K>(h)); }                                                                                                                                          \
	template<class It>                                                                                                                                                                              \
	static V* construct(It a, It b, int, int h)                                                                                                                                                     \
	{                                                                                                                                                                                               \
		return new V(a, b, HN<K>(h));                                                                                                                                                           \
	}
#define PLAIN_MAKE                                                                                                                                                                                     \
	static V* make(int, int) { return new V(); }                                                                                                                                                    \
	template<class It>                                                                                                                                                                              \
	static V* construct(It a, It b, int, int)                                                                                                                                                       \
	{                                                                                                                                                                                               \
		return new V(a, b);                                                                                                                                                                     \
	}
	inline size_t spread(int mode, long k)
	{
		size_t x = (size_t)k;
		switch (mode) {
			case 0: return x * 0x9E3779B97F4A7C15ull;
			case 1: return x;
			case 2: return x << 20;
			case 3: return x / 8;
			case 4: return x / 200;
			default: return 7;
		}
	}
	template<class K>
	struct H
	{
		int mode;
		H(int m = 0)
		  : mode(m)
		{
		}
		size_t operator()(const K& k) const
		{
			maybe_throw(F_HASH);
			return spread(mode, val(k));
		}
	};
	// radix hash tables take hash and equality as not throwing
	template<class K>
	struct HN
	{
		int mode;
		HN(int m = 0)
		  : mode(m)
		{
		}
		size_t operator()(const K& k) const noexcept { return spread(mode, val(k)); }
	};
	template<class K>
	struct EqN
	{
		bool operator()(const K& a, const K& b) const noexcept { return val(a) == val(b); }
	};
	struct LongOf
	{
		long operator()(const E0& e) const noexcept { return e.get(); }
		long operator()(long e) const noexcept { return e; }
	};

	// compare keys with the numbers they are made from
	template<class K>
	struct TCmp : Cmp<K>
	{
		using is_transparent = void;
		TCmp(int d = 0)
		  : Cmp<K>(d)
		{
		}
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			maybe_throw(F_CMP);
			return this->dir ? val(b) < val(a) : val(a) < val(b);
		}
	};
	template<class K>
	struct TH
	{
		using is_transparent = void;
		int mode;
		TH(int m = 0)
		  : mode(m)
		{
		}
		template<class A>
		size_t operator()(const A& k) const
		{
			maybe_throw(F_HASH);
			return spread(mode, val(k));
		}
	};
	struct TEq
	{
		using is_transparent = void;
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			maybe_throw(F_CMP);
			return val(a) == val(b);
		}
	};

#if CFG == 1
#define NM "flat_set"
	struct Cfg : FlatBase<E0>, KeyOf<E0>
	{
		using K = E0;
		using T = long;
		using V = seq::flat_set<K, Cmp<K>>;
		FLAT_MAKE
	};
#define BIG 300
#elif CFG == 2
#define NM "flat_map_throwing_move"
	struct Cfg : FlatBase<E1>, KeyOf<E1>
	{
		using K = E1;
		using T = E1;
		static constexpr bool map = true;
		static constexpr bool moved_ok = true, stable = true;
		using V = seq::flat_map<K, T, Cmp<K>, std::allocator<std::pair<K, T>>, true>;
		FLAT_MAKE
	};
#define BIG 200
#elif CFG == 3
#define NM "flat_multimap"
	struct Cfg : FlatBase<E0>, KeyOf<E0>
	{
		using K = E0;
		using T = E0;
		static constexpr bool map = true, multi = true, stable = true;
		using V = seq::flat_multimap<K, T, Cmp<K>, std::allocator<std::pair<K, T>>, true>;
		FLAT_MAKE
	};
#define BIG 300
#elif CFG == 4
#define NM "flat_multiset_relocatable"
	struct Cfg : FlatBase<RElem>, KeyOf<RElem>
	{
		using K = RElem;
		using T = long;
		static constexpr bool multi = true;
		using V = seq::flat_multiset<K, Cmp<K>>;
		FLAT_MAKE
	};
#define BIG 300
#elif CFG == 5
#define NM "flat_set_string"
	struct Cfg : FlatBase<std::string>, KeyStr
	{
		using K = std::string;
		using T = long;
		static constexpr bool cmp = false;
		using V = seq::flat_set<K>;
		template<class X>
		static int dir_of(const X&)
		{
			return 0;
		}
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 6
#define NM "flat_map_long"
	struct Cfg : FlatBase<long>, KeyOf<long>
	{
		using K = long;
		using T = RElem;
		static constexpr bool map = true;
		using V = seq::flat_map<K, T, Cmp<K>>;
		FLAT_MAKE
	};
#define BIG 500
#elif CFG == 7
#define NM "flat_set_throwing_construction"
	struct Cfg : FlatBase<E2>, KeyOf<E2>
	{
		using K = E2;
		using T = long;
		static constexpr bool moved_ok = true;
		using V = seq::flat_set<K, Cmp<K>>;
		FLAT_MAKE
	};
#define BIG 200
#elif CFG == 8
#define NM "flat_map_throwing_assignment"
	struct Cfg : FlatBase<long>, KeyOf<long>
	{
		using K = long;
		using T = E3;
		static constexpr bool map = true;
		static constexpr bool moved_ok = true, stable = true;
		using V = seq::flat_map<K, T, Cmp<K>, std::allocator<std::pair<K, T>>, true>;
		FLAT_MAKE
	};
#define BIG 200
#elif CFG == 9
#define NM "flat_map_transparent"
	struct Cfg : FlatBase<E1>, KeyOf<E1>
	{
		using K = E1;
		using T = E0;
		static constexpr bool map = true, het = true;
		static constexpr bool moved_ok = true, stable = true;
		using V = seq::flat_map<K, T, TCmp<K>, std::allocator<std::pair<K, T>>, true>;
		static V* make(int dir, int) { return new V(TCmp<K>(dir)); }
		template<class It>
		static V* construct(It a, It b, int dir, int)
		{
			return new V(a, b, TCmp<K>(dir));
		}
	};
#define BIG 200
#elif CFG == 10
#define NM "flat_multiset_transparent"
	struct Cfg : FlatBase<E0>, KeyOf<E0>
	{
		using K = E0;
		using T = long;
		static constexpr bool multi = true, het = true;
		using V = seq::flat_multiset<K, TCmp<K>>;
		static V* make(int dir, int) { return new V(TCmp<K>(dir)); }
		template<class It>
		static V* construct(It a, It b, int dir, int)
		{
			return new V(a, b, TCmp<K>(dir));
		}
	};
#define BIG 200
#elif CFG == 17
#define NM "ordered_map_transparent"
	struct Cfg : Base, KeyOf<E0>
	{
		static constexpr Family fam = ORDERED;
		using K = E0;
		using T = E1;
		static constexpr bool map = true, het = true;
		using V = seq::ordered_map<K, T, TH<K>, TEq>;
		static V* make(int, int h) { return new V(TH<K>(h)); }
		template<class It>
		static V* construct(It a, It b, int, int h)
		{
			return new V(a, b, TH<K>(h));
		}
	};
#define BIG 200
#elif CFG == 18
#define NM "ordered_set_transparent"
	struct Cfg : Base, KeyOf<E1>
	{
		static constexpr Family fam = ORDERED;
		using K = E1;
		using T = long;
		static constexpr bool het = true;
		using V = seq::ordered_set<K, TH<K>, TEq>;
		static V* make(int, int h) { return new V(TH<K>(h)); }
		template<class It>
		static V* construct(It a, It b, int, int h)
		{
			return new V(a, b, TH<K>(h));
		}
	};
#define BIG 200
#elif CFG == 11
#define NM "ordered_set"
	struct Cfg : Base, KeyOf<E0>
	{
		static constexpr Family fam = ORDERED;
		using K = E0;
		using T = long;
		using V = seq::ordered_set<K, H<K>>;
		HASH_MAKE
	};
#define BIG 300
#elif CFG == 12
#define NM "ordered_map"
	struct Cfg : Base, KeyOf<E0>
	{
		static constexpr Family fam = ORDERED;
		using K = E0;
		using T = E0;
		static constexpr bool map = true;
		using V = seq::ordered_map<K, T, H<K>>;
		HASH_MAKE
	};
#define BIG 300
#elif CFG == 13
#define NM "ordered_map_throwing_move"
	struct Cfg : Base, KeyOf<E1>
	{
		static constexpr Family fam = ORDERED;
		using K = E1;
		using T = E1;
		static constexpr bool map = true;
		using V = seq::ordered_map<K, T, H<K>>;
		HASH_MAKE
	};
#define BIG 200
#elif CFG == 14
#define NM "ordered_map_long"
	struct Cfg : Base, KeyOf<long>
	{
		static constexpr Family fam = ORDERED;
		using K = long;
		using T = RElem;
		static constexpr bool map = true;
		using V = seq::ordered_map<K, T, H<K>>;
		HASH_MAKE
	};
#define BIG 300
#elif CFG == 16
#define NM "ordered_set_over_aligned"
	struct Cfg : Base, KeyOf<EA>
	{
		static constexpr Family fam = ORDERED;
		using K = EA;
		using T = long;
		using V = seq::ordered_set<K, H<K>>;
		HASH_MAKE
	};
#define BIG 200
#elif CFG == 15
#define NM "ordered_set_throwing_construction"
	struct Cfg : Base, KeyOf<E2>
	{
		static constexpr Family fam = ORDERED;
		using K = E2;
		using T = long;
		using V = seq::ordered_set<K, H<K>>;
		HASH_MAKE
	};
#define BIG 200
#elif CFG == 21
#define NM "radix_set_string"
	struct Cfg : Base, KeyStr
	{
		static constexpr Family fam = RADIX;
		using K = std::string;
		using T = long;
		static constexpr bool prefix = true;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 22
#define NM "radix_map_long"
	struct Cfg : Base, RadixKeyOf<long>
	{
		static constexpr Family fam = RADIX;
		using K = long;
		using T = E0;
		static constexpr bool map = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 23
#define NM "radix_map_string_throwing_move"
	struct Cfg : Base, KeyStr
	{
		static constexpr Family fam = RADIX;
		using K = std::string;
		using T = E1;
		static constexpr bool map = true, prefix = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 24
#define NM "radix_set_extract"
	struct Cfg : Base, RadixKeyOf<E0>
	{
		static constexpr Family fam = RADIX;
		using K = E0;
		using T = long;
		using V = seq::radix_set<K, LongOf>;
		static long mkey(long k) { return spread_key(k); }
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 25
#define NM "radix_hash_set"
	struct Cfg : Base, KeyOf<E0>
	{
		static constexpr Family fam = RADIX_HASH;
		static constexpr bool bidir = false;
		using K = E0;
		using T = long;
		using V = seq::radix_hash_set<K, HN<K>, EqN<K>>;
		RHASH_MAKE
	};
#define BIG 600
#elif CFG == 26
#define NM "radix_hash_map_throwing_move"
	struct Cfg : Base, KeyOf<E1>
	{
		static constexpr Family fam = RADIX_HASH;
		static constexpr bool bidir = false;
		using K = E1;
		using T = E1;
		static constexpr bool map = true;
		using V = seq::radix_hash_map<K, T, HN<K>, EqN<K>>;
		RHASH_MAKE
	};
#define BIG 300
#elif CFG == 27
#define NM "radix_map_throwing_assignment"
	struct Cfg : Base, RadixKeyOf<long>
	{
		static constexpr Family fam = RADIX;
		using K = long;
		using T = E3;
		static constexpr bool map = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 28
#define NM "radix_hash_set_throwing_construction"
	struct Cfg : Base, KeyOf<E2>
	{
		static constexpr Family fam = RADIX_HASH;
		static constexpr bool bidir = false;
		using K = E2;
		using T = long;
		using V = seq::radix_hash_set<K, HN<K>, EqN<K>>;
		RHASH_MAKE
	};
#define BIG 300
#elif CFG == 29
#define NM "radix_set_double"
	using KT = KeyTab<MkFloat<double>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 30
#define NM "radix_map_short"
	using KT = KeyTab<MkInt<short>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = E0;
		static constexpr bool map = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 31
#define NM "radix_set_wstring"
	using KT = KeyTab<MkWide<wchar_t>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		static constexpr bool prefix = true;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 32
#define NM "radix_set_vector_u64"
	using KT = KeyTab<MkVec<uint64_t>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 33
#define NM "radix_set_vector_int"
	using KT = KeyTab<MkVec<int>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 34
#define NM "radix_set_array_short"
	using KT = KeyTab<MkArr<short, 3>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 35
#define NM "radix_map_tuple_short_byte"
	using KT = KeyTab<MkTup<short, unsigned char>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = E0;
		static constexpr bool map = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 36
#define NM "radix_set_tuple_double_int"
	using KT = KeyTab<MkTup<double, int>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 37
#define NM "radix_set_pointer"
	using KT = KeyTab<MkPtr>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 38
#define NM "radix_set_tuple_float_int"
	using KT = KeyTab<MkTup<float, int>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 39
#define NM "radix_set_u16string"
	using KT = KeyTab<MkWide<char16_t>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		static constexpr bool prefix = true;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 40
#define NM "radix_set_byte"
	using KT = KeyTab<MkInt<signed char>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 300
#elif CFG == 41
#define NM "radix_set_vector_float"
	using KT = KeyTab<MkVec<float>>;
	struct Cfg : Base, KT
	{
		static constexpr Family fam = RADIX;
		using K = KT::Key;
		using T = long;
		using V = seq::radix_set<K>;
		PLAIN_MAKE
	};
#define BIG 200
#elif CFG == 42
#define NM "radix_map_over_aligned"
	struct Cfg : Base, RadixKeyOf<long>
	{
		static constexpr Family fam = RADIX;
		using K = long;
		using T = EA;
		static constexpr bool map = true;
		using V = seq::radix_map<K, T>;
		PLAIN_MAKE
	};
#define BIG 600
#elif CFG == 43
#define NM "radix_hash_set_over_aligned"
	struct Cfg : Base, KeyOf<EA>
	{
		static constexpr Family fam = RADIX_HASH;
		static constexpr bool bidir = false;
		using K = EA;
		using T = long;
		using V = seq::radix_hash_set<K, HN<K>, EqN<K>>;
		RHASH_MAKE
	};
#define BIG 300
#endif
	constexpr GenOpt G{ Cfg::fam, Cfg::map, Cfg::multi, moves_throw<Cfg::K>::value || moves_throw<Cfg::T>::value, true, BIG };
	void g(Plan& p, Rng& r) { gen(p, r, G); }
}
#if CFG <= 10
#define PROP "C14"
#elif CFG < 20
#define PROP "C15"
#else
#define PROP "C16"
#endif
SIM_SCENARIO(NM, g, run_cfg<Cfg>, show_op, 1, PROP);
