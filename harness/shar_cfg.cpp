// one configuration of the shared-instance harness, selected by -DCFG=n
#include "shar.hpp"
#include <seq/any.hpp>
#include <seq/concurrent_map.hpp>
#include <seq/devector.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/tiny_string.hpp>
using namespace sh;
namespace
{
	struct Pt
	{
		long x, y;
		bool operator==(const Pt& o) const { return x == o.x && y == o.y; }
	};
	struct Late // only ever held by the tasks: its type is met first while they run
	{
		long x;
		std::string s;
	};
}
namespace seq
{
	template<>
	struct is_hashable<Pt> : std::false_type
	{
	};
	template<>
	struct is_hashable<Late> : std::false_type
	{
	};
	template<>
	struct is_hashable<std::vector<long>> : std::false_type
	{
	};
}
namespace
{
	long g_shape; // written before the tasks start, simulation off

	template<class V>
	auto shrink(V& v, int) -> decltype(v.shrink_to_fit())
	{
		v.shrink_to_fit();
	}
	template<class V>
	void shrink(V&, long)
	{
	}
	template<class K>
	struct Key;
	template<>
	struct Key<long>
	{
		static long mk(long k)
		{
			switch (g_shape) {
				case 1: return k << 20;
				case 2: return k * 30000000000000000L - (1L << 62);
				case 3: return ((k / 16) << 40) + k % 16;
				case 4: return (k % 16 << 56) + (k / 16);
				case 5: return (k << 33) - (1L << 36);
				default: return k;
			}
		}
	};
	template<class S>
	struct StrKey
	{
		static S mk(long k)
		{
			std::string s;
			switch (g_shape) {
				case 1: s = std::string((size_t)(30 + k / 16), 'p') + char('a' + k % 16); break;
				case 2: s = std::string(1, char(k >> 1)) + std::string((size_t)(k & 1) * 20, 'x'); break;
				case 3: s = "a long common prefix that does not fit in place / " + std::to_string(k); break;
				case 4: s = std::string(20 + (size_t)(k % 8) * 5, char('A' + k % 8)) + std::to_string(k); break;
				case 5: s = std::string((size_t)(k % 90), 'z'); break;
				default: s = std::to_string(k * 7919 % 1000) + "/" + std::to_string(k); break;
			}
			return S(s.data(), s.size());
		}
	};
	template<>
	struct Key<std::string> : StrKey<std::string>
	{
	};
	template<>
	struct Key<seq::tstring> : StrKey<seq::tstring>
	{
	};

	// a key made with the simulation off, then copied into simulated memory where that matters
	template<class K>
	struct KeyBox
	{
		alignas(K) unsigned char b[sizeof(K)];
		explicit KeyBox(long k)
		{
			NoSim ns;
			new (b) K(Key<K>::mk(k));
		}
		~KeyBox()
		{
			NoSim ns;
			reinterpret_cast<K*>(b)->~K();
		}
		const K& get() const { return *reinterpret_cast<const K*>(b); }
	};

	enum Kind
	{
		SORTED,
		UNORDERED,
		CONCURRENT
	};

	template<class Vec, class K, bool Map, Kind Ord, bool Bidir = true>
	struct Assoc
	{
		using V = Vec;
		using Model = std::map<K, long>;
		static uint64_t kept() { return 0; }
		static constexpr long shapes = 6;

		template<class T>
		static const K& key(const T& x)
		{
			if constexpr (Map)
				return x.first;
			else
				return x;
		}
		template<class T>
		static long mapped(const T& x)
		{
			if constexpr (Map)
				return x.second;
			else
				return 0;
		}
		static void add(V& v, Model& m, long k)
		{
			KeyBox<K> q(k);
			bool ok;
			if constexpr (Ord == CONCURRENT) {
				if constexpr (Map)
					ok = v.emplace(q.get(), k);
				else
					ok = v.emplace(q.get());
			}
			else if constexpr (Map)
				ok = v.emplace(q.get(), k).second;
			else
				ok = v.emplace(q.get()).second;
			NoSim ns;
			if (ok != m.emplace(q.get(), Map ? k : 0).second)
				fail("RESULT", "an insertion says %d, expected %d", ok, !ok);
		}
		static void add_many(V& v, Model& m, long k, long n)
		{
			for (long i = 0; i < n; ++i)
				add(v, m, k + i);
		}
		static void del(V& v, Model& m, long k)
		{
			KeyBox<K> q(k);
			size_t n = v.erase(q.get());
			NoSim ns;
			if (n != m.erase(q.get()))
				fail("RESULT", "an erasure says %zu, expected %zu", n, 1 - n);
		}
		static void del_some(V& v, Model& m, long k)
		{
			for (long i = 0; i < 64; i += 1 + k % 3)
				del(v, m, k + i);
		}
		static void reserve(V& v, Model& m, long k)
		{
			if constexpr (Ord == CONCURRENT)
				v.reserve((size_t)k);
			else if (k & 1)
				shrink(v, 0);
			else
				del(v, m, k);
		}
		static void wipe(V& v) { v.clear(); }
		static bool same(const V& a, const V& b)
		{
			return a == b;
		}
		static void hit(const Model& m, const K& q, bool found, long val)
		{
			NoSim ns;
			auto it = m.find(q);
			if (found != (it != m.end()))
				fail("RESULT", "a lookup finds %d, expected %d", found, !found);
			if (found && it->second != val)
				fail("RESULT", "a lookup finds value %ld, expected %ld", val, it->second);
		}
		static void find(const V& v, const Model& m, long k)
		{
			KeyBox<K> q(k);
			if constexpr (Ord == CONCURRENT) {
				long val = 0;
				size_t n = v.visit(q.get(), [&](const auto& x) { val = mapped(x); });
				hit(m, q.get(), n == 1, val);
			}
			else {
				auto it = v.find(q.get());
				bool f = it != v.end();
				hit(m, q.get(), f, f ? mapped(*it) : 0);
			}
		}
		template<class It>
		static void expect(const V& v, const It& it, const Model& m, typename Model::const_iterator e)
		{
			bool end = it == v.end();
			NoSim ns;
			if (end != (e == m.end()))
				fail("RESULT", "a bound is %s the end", end ? "at" : "before");
			if (!end && (!(key(*it) == e->first) || mapped(*it) != e->second))
				fail("RESULT", "a bound is at another element than expected");
		}
		static void bounds(const V& v, const Model& m, long k)
		{
			KeyBox<K> q(k);
			if constexpr (Ord == SORTED) {
				auto l = v.lower_bound(q.get()), u = v.upper_bound(q.get());
				auto e = v.equal_range(q.get());
				typename Model::const_iterator ml, mu;
				{
					NoSim ns;
					ml = m.lower_bound(q.get());
					mu = m.upper_bound(q.get());
				}
				expect(v, l, m, ml);
				expect(v, u, m, mu);
				expect(v, e.first, m, ml);
				expect(v, e.second, m, mu);
			}
			else {
				size_t n = v.count(q.get());
				hit(m, q.get(), n == 1, n ? m.find(q.get())->second : 0);
			}
		}
		static void walk(const V& v, const Model& m)
		{
			size_t n = 0;
			auto mi = m.begin();
			auto visit = [&](const auto& x) {
				NoSim ns;
				++n;
				if (n > m.size())
					fail("RESULT", "a traversal meets more than the %zu elements there are", m.size());
				if (Ord == SORTED ? !(key(x) == mi->first) : (mi = m.find(key(x))) == m.end())
					fail("RESULT", "a traversal meets an unexpected element");
				if (mapped(x) != mi->second)
					fail("RESULT", "a traversal meets value %ld, expected %ld", mapped(x), mi->second);
				if (Ord == SORTED)
					++mi;
			};
			if constexpr (Ord == CONCURRENT)
				v.visit_all([&](const auto& x) {
					visit(x);
					return true;
				});
			else
				for (const auto& x : v)
					visit(x);
			if (n != m.size() || v.size() != n || v.empty() != (n == 0))
				fail("RESULT", "a traversal meets %zu elements, size() is %zu, expected %zu", n, v.size(), m.size());
		}
		static void partial(const V& v, const Model& m, long k, long n)
		{
			if constexpr (Ord == CONCURRENT)
				walk(v, m);
			else if constexpr (!Bidir) {
				long c = 0;
				for (auto it = v.begin(); it != v.end() && c < n; ++it, ++c)
					hit(m, key(*it), true, mapped(*it));
			}
			else {
				(void)k;
				auto it = v.end();
				auto mi = m.end();
				for (long i = 0; i < n && it != v.begin(); ++i) {
					--it;
					if (Ord == SORTED) {
						{
							NoSim ns;
							if (mi == m.begin())
								fail("RESULT", "a backward traversal meets more elements than there are");
							--mi;
						}
						expect(v, it, m, mi);
					}
					else
						hit(m, key(*it), true, mapped(*it));
				}
			}
		}
		static void misc(const V& v, const Model& m, long k)
		{
			KeyBox<K> q(k);
			bool c = v.contains(q.get());
			{
				NoSim ns;
				if (c != (m.count(q.get()) != 0))
					fail("RESULT", "contains() says %d", c);
			}
			if constexpr (Map && Ord != CONCURRENT) {
				bool thrown = false;
				long val = 0;
				try {
					val = v.at(q.get());
				}
				catch (const std::out_of_range&) {
					thrown = true;
				}
				hit(m, q.get(), !thrown, val);
			}
			if (v.size() != m.size() || v.empty() != m.empty())
				fail("RESULT", "size() is %zu, expected %zu", v.size(), m.size());
		}
	};

	// sequential containers: the model is a vector; a bag when the container chooses the place
	template<class Vec, class T, bool Random = true>
	struct Linear
	{
		using V = Vec;
		using Model = std::vector<T>;
		static uint64_t kept() { return 0; }
		static constexpr long shapes = 6;

		static void add(V& v, Model& m, long k)
		{
			KeyBox<T> q(k);
			switch (k % 3) {
				case 0: v.push_back(q.get()); break;
				case 1: v.push_front(q.get()); break;
				default:
					if constexpr (Random)
						v.insert(v.begin() + (long)(v.size() / 2), q.get());
					else
						v.emplace_back(q.get());
			}
			NoSim ns;
			switch (k % 3) {
				case 0: m.push_back(q.get()); break;
				case 1: m.insert(m.begin(), q.get()); break;
				default: m.insert(Random ? m.begin() + (long)(m.size() / 2) : m.end(), q.get());
			}
		}
		static void add_many(V& v, Model& m, long k, long n)
		{
			for (long i = 0; i < n; ++i)
				add(v, m, k + i);
		}
		static void del(V& v, Model& m, long k)
		{
			if (m.empty())
				return;
			size_t i;
			switch (k % 3) {
				case 0:
					v.pop_back();
					i = m.size() - 1;
					break;
				case 1:
					v.pop_front();
					i = 0;
					break;
				default: i = (size_t)k % m.size(); v.erase(std::next(v.begin(), (long)i));
			}
			NoSim ns;
			m.erase(m.begin() + (long)i);
		}
		static void del_some(V& v, Model& m, long k)
		{
			size_t a = m.size() / 4, b = m.size() - m.size() / 4;
			if (k & 1)
				a = 0;
			v.erase(std::next(v.begin(), (long)a), std::next(v.begin(), (long)b));
			NoSim ns;
			m.erase(m.begin() + (long)a, m.begin() + (long)b);
		}
		static void reserve(V& v, Model& m, long k)
		{
			if (k % 3 == 0)
				shrink(v, 0);
			else if (k % 3 == 1) {
				v.resize((size_t)k / 2);
				NoSim ns;
				m.resize((size_t)k / 2);
			}
			else if constexpr (Random) {
				std::sort(v.begin(), v.end());
				NoSim ns;
				std::sort(m.begin(), m.end());
			}
			else {
				v.sort();
				NoSim ns;
				std::sort(m.begin(), m.end());
			}
		}
		static void wipe(V& v) { v.clear(); }
		static bool same(const V& a, const V& b)
		{
			return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
		}
		static void is(const Model& m, size_t i, const T& x)
		{
			NoSim ns;
			if (i >= m.size() || !(m[i] == x))
				fail("RESULT", "position %zu does not hold the element it should", i);
		}
		static void find(const V& v, const Model& m, long k)
		{
			KeyBox<T> q(k);
			auto it = std::find(v.begin(), v.end(), q.get());
			size_t i = (size_t)std::distance(v.begin(), it), e;
			{
				NoSim ns;
				e = (size_t)(std::find(m.begin(), m.end(), q.get()) - m.begin());
			}
			if (i != e)
				fail("RESULT", "a search ends at %zu, expected %zu", i, e);
		}
		static void bounds(const V& v, const Model& m, long k)
		{
			if (m.empty())
				return;
			is(m, 0, v.front());
			is(m, m.size() - 1, v.back());
			if constexpr (Random) {
				size_t i = (size_t)k % m.size();
				is(m, i, v[i]);
				is(m, i, v.at(i));
				is(m, i, *(v.begin() + (long)i));
				is(m, i, *(v.end() - (long)(m.size() - i)));
				bool thrown = false;
				try {
					(void)v.at(m.size() + (size_t)k);
				}
				catch (const std::out_of_range&) {
					thrown = true;
				}
				if (!thrown)
					fail("RESULT", "at() past the end does not throw");
			}
		}
		static void walk(const V& v, const Model& m)
		{
			size_t i = 0;
			for (const auto& x : v)
				is(m, i++, x);
			if (i != m.size() || v.size() != i || v.empty() != (i == 0))
				fail("RESULT", "a traversal meets %zu elements, size() is %zu, expected %zu", i, v.size(), m.size());
		}
		static void partial(const V& v, const Model& m, long, long n)
		{
			size_t i = m.size();
			for (auto it = v.end(); it != v.begin() && n > 0; --n) {
				--it;
				--i;
				is(m, i, *it);
			}
			n = 0;
			for (auto it = v.rbegin(); it != v.rend() && n < 5; ++it, ++n)
				is(m, m.size() - 1 - (size_t)n, *it);
		}
		static void misc(const V& v, const Model& m, long k)
		{
			if (v.size() != m.size() || v.empty() != m.empty())
				fail("RESULT", "size() is %zu, expected %zu", v.size(), m.size());
			auto it = v.cbegin();
			auto d = std::distance(it, v.cend());
			if ((size_t)d != m.size())
				fail("RESULT", "the distance from begin to end is %ld, expected %zu", (long)d, m.size());
			(void)k;
		}
	};

	template<class Str>
	struct Text
	{
		using V = Str;
		using Model = std::string;
		static uint64_t kept() { return 0; }
		static constexpr long shapes = 1;
		static std::string piece(long k)
		{
			return std::string((size_t)(k % 5), 'a') + std::to_string(k);
		}
		static void add(V& v, Model& m, long k)
		{
			KeyBox<std::string> q(k % 20);
			if (k & 1)
				v.append(q.get().data(), q.get().size());
			else
				v.insert(0, q.get().data(), q.get().size());
			NoSim ns;
			m.insert(k & 1 ? m.size() : 0, q.get());
		}
		static void add_many(V& v, Model& m, long k, long n)
		{
			for (long i = 0; i < n; ++i)
				add(v, m, k + i);
		}
		static void del(V& v, Model& m, long k)
		{
			if (m.empty())
				return;
			size_t i = (size_t)k % m.size();
			v.erase(i, 1 + (size_t)k % 7);
			NoSim ns;
			m.erase(i, 1 + (size_t)k % 7);
		}
		static void del_some(V& v, Model& m, long k)
		{
			size_t i = m.size() / 3;
			v.replace(i, m.size() / 2, (size_t)k % 30, '#');
			NoSim ns;
			m.replace(i, m.size() / 2, (size_t)k % 30, '#');
		}
		static void reserve(V& v, Model& m, long k)
		{
			if (k % 3 == 0)
				shrink(v, 0);
			else if (k % 3 == 1)
				v.reserve((size_t)k);
			else {
				v.resize((size_t)k, '.');
				NoSim ns;
				m.resize((size_t)k, '.');
			}
		}
		static void wipe(V& v) { v.clear(); }
		static bool same(const V& a, const V& b) { return a == b; }
		static void find(const V& v, const Model& m, long k)
		{
			KeyBox<std::string> q(k % 20);
			const std::string& s = q.get();
			size_t a = v.find(s.data(), 0, s.size()), b = v.rfind(s.data(), V::npos, s.size()), ea, eb;
			{
				NoSim ns;
				ea = m.find(s);
				eb = m.rfind(s);
			}
			if (a != ea || b != eb)
				fail("RESULT", "find() gives %zu and rfind() %zu, expected %zu and %zu", a, b, ea, eb);
		}
		static void bounds(const V& v, const Model& m, long k)
		{
			KeyBox<std::string> q(k % 20);
			const std::string& s = q.get();
			int c = v.compare(s.data()), e;
			size_t h0 = std::hash<V>()(v), h1;
			{
				NoSim ns;
				e = m.compare(s);
				h1 = std::hash<V>()(V(m.data(), m.size()));
			}
			if ((c < 0) != (e < 0) || (c > 0) != (e > 0))
				fail("RESULT", "compare() gives %d, expected %d", c, e);
			if (h0 != h1)
				fail("RESULT", "equal strings have different hash values");
		}
		static void eq(const char* p, size_t n, const std::string& m)
		{
			bool ok = n == m.size();
			for (size_t i = 0; ok && i < n; ++i)
				ok = p[i] == m[i];
			if (!ok)
				fail("RESULT", "the characters are not those expected");
		}
		static void walk(const V& v, const Model& m)
		{
			eq(v.data(), v.size(), m);
			if (v.c_str()[v.size()] != 0)
				fail("RESULT", "the string does not end with a null character");
		}
		static void partial(const V& v, const Model& m, long k, long n)
		{
			if (m.empty())
				return;
			size_t i = (size_t)k % m.size();
			auto t = v.substr(i, (size_t)n);
			std::string* e;
			{
				NoSim ns;
				e = new std::string(m.substr(i, (size_t)n));
			}
			eq(t.data(), t.size(), *e);
			NoSim ns;
			delete e;
		}
		static void misc(const V& v, const Model& m, long k)
		{
			if (v.size() != m.size() || v.empty() != m.empty())
				fail("RESULT", "size() is %zu, expected %zu", v.size(), m.size());
			if (!m.empty() && (v.front() != m.front() || v.back() != m.back() || v[(size_t)k % m.size()] != m[(size_t)k % m.size()]))
				fail("RESULT", "a character is not the one expected");
		}
	};

	template<class Any>
	struct Dyn
	{
		using V = Any;
		using Model = std::pair<int, long>;
		static constexpr long shapes = 1;
		static uint64_t kept() { return 0; }
		static std::string str(long k) { return "a string that is too long to be held in place " + std::to_string(k); }
		static void put(V& v, int t, long k)
		{
			switch (t) {
				case 1: v = (int)k; break;
				case 2: v = (double)k + 0.5; break;
				case 3: {
					KeyBox<std::string> q(k);
					v = q.get();
					break;
				}
				case 4: {
					KeyBox<seq::tstring> q(k);
					v = q.get();
					break;
				}
				case 5: v = Pt{ k, -k }; break;
				case 6: v = std::vector<long>((size_t)k % 40 + 1, k); break;
				case 7: v = Late{ k, std::string((size_t)k % 50, 'l') }; break;
				case 8: v = (unsigned char)k; break;
				default: v.reset();
			}
		}
		static void add(V& v, Model& m, long k)
		{
			int t = (int)(k % 9);
			put(v, t, k);
			NoSim ns;
			m = Model(t, t == 0 ? 0 : t == 8 ? k & 255 : k);
		}
		static void add_many(V& v, Model& m, long k, long n)
		{
			V t;
			put(t, (int)(n % 9), k);
			v = t;
			NoSim ns;
			m = Model((int)(n % 9), n % 9 == 0 ? 0 : n % 9 == 8 ? k & 255 : k);
		}
		static void del(V& v, Model& m, long)
		{
			v.reset();
			NoSim ns;
			m = Model();
		}
		static void del_some(V& v, Model& m, long k) { add(v, m, k / 9 * 9 + 3); }
		static void reserve(V& v, Model& m, long k)
		{
			v.template emplace<Pt>(Pt{ k, -k });
			NoSim ns;
			m = Model(5, k);
		}
		static void wipe(V& v) { v.reset(); }
		static bool same(const V& a, const V& b)
		{
			bool e = a == b; // numbers compare by value; a type without comparison is never equal
			if (a.type_id() != b.type_id())
				return false;
			const Late *x = ptr<Late>(a), *y = ptr<Late>(b);
			return x && y ? x->x == y->x : e;
		}
		template<class T>
		static const T* ptr(const V& v)
		{
			return seq::any_cast<T>(&v);
		}
		static void bad(const Model& m) { fail("RESULT", "a dynamic value does not hold the value #%ld of type %d it should", m.second, m.first); }
		static void walk(const V& v, const Model& m)
		{
			long k = m.second;
			bool ok = true;
			switch (m.first) {
				case 1: ok = ptr<int>(v) && *ptr<int>(v) == k; break;
				case 2: ok = ptr<double>(v) && *ptr<double>(v) == (double)k + 0.5; break;
				case 3: {
					KeyBox<std::string> q(k);
					ok = ptr<std::string>(v) && *ptr<std::string>(v) == q.get();
					break;
				}
				case 4: {
					KeyBox<seq::tstring> q(k);
					ok = ptr<seq::tstring>(v) && *ptr<seq::tstring>(v) == q.get();
					break;
				}
				case 5: ok = ptr<Pt>(v) && *ptr<Pt>(v) == Pt{ k, -k }; break;
				case 6: ok = ptr<std::vector<long>>(v) && ptr<std::vector<long>>(v)->size() == (size_t)k % 40 + 1 && ptr<std::vector<long>>(v)->back() == k; break;
				case 7: ok = ptr<Late>(v) && ptr<Late>(v)->x == k && ptr<Late>(v)->s.size() == (size_t)k % 50; break;
				case 8: ok = ptr<unsigned char>(v) && *ptr<unsigned char>(v) == k; break;
			}
			if (!ok || v.empty() != (m.first == 0) || v.has_value() == (m.first == 0))
				bad(m);
		}
		static void find(const V& v, const Model& m, long k)
		{
			// casts, also to another type
			walk(v, m);
			try {
				bool r = true;
				switch (k % 5) {
					case 0: {
						int x = v.template cast<int>();
						r = m.first == 1 || m.first == 8 ? x == (int)m.second : m.first == 2 ? x == (int)m.second : m.first == 3 || m.first == 4 || (m.first == 5 && x == (int)m.second);
						break;
					}
					case 1: r = (long)v.template cast<std::string>().size() >= 0 && m.first != 0 && (m.first < 5 || m.first == 8); break;
					case 2: r = v.template cast<Pt>() == Pt{ m.second, -m.second } && m.first == 5; break;
					case 3: r = v.template cast<std::vector<long>>().size() == (size_t)m.second % 40 + 1 && m.first == 6; break;
					case 4: r = v.template cast<Late>().x == m.second && m.first == 7; break;
				}
				if (!r)
					bad(m);
			}
			catch (const std::bad_cast&) {
				bool must = (m.first == 5 && (k % 5 == 0 || k % 5 == 2)) || (m.first == 6 && k % 5 == 3) || (m.first == 7 && k % 5 == 4) || (m.first > 0 && m.first < 3 && k % 5 < 2);
				if (must)
					fail("RESULT", "a value of type %d cannot be cast to type #%ld", m.first, k % 5);
			}
		}
		static void bounds(const V& v, const Model& m, long k)
		{
			try {
				size_t a = v.hash();
				V w;
				put(w, m.first, k / 256 * 256 + m.second % 256 == m.second ? m.second : m.second);
				if (a != w.hash())
					fail("RESULT", "equal dynamic values have different hash values");
			}
			catch (const seq::bad_any_function_call&) {
				if (m.first != 7 && m.first != 5 && m.first != 6)
					bad(m);
			}
			bool e, d;
			e = m.first == 1 && v == (int)m.second;
			d = m.first == 5 && v == Pt{ m.second, -m.second };
			if (e != (m.first == 1) || d != (m.first == 5))
				fail("RESULT", "a dynamic value is not equal to what it holds");
		}
		static void partial(const V& v, const Model& m, long, long)
		{
			int t = v.type_id();
			size_t s = v.sizeof_type();
			static constexpr size_t sz[] = { 0, sizeof(int), sizeof(double), sizeof(std::string), sizeof(seq::tstring), sizeof(Pt), sizeof(std::vector<long>), sizeof(Late), 1 };
			if (s != sz[m.first] || (t == 0) != (m.first == 0) || (m.first == 5 && t != seq::get_type_id<Pt>()) || (m.first == 7 && t != seq::get_type_id<Late>()))
				bad(m);
		}
		static void misc(const V& v, const Model& m, long k)
		{
			// types get distinct numbers, whoever asks first
			int a = seq::get_type_id<Pt>(), b = seq::get_type_id<Late>(), c = seq::get_type_id<std::vector<long>>();
			if (a == b || b == c || a == c)
				fail("RESULT", "two types have the same number (%d, %d, %d)", a, b, c);
			(void)v, (void)m, (void)k;
		}
		static void prepare()
		{
			NoSim ns;
			seq::register_any_conversion<Pt, int>([](const Pt& p) { return (int)p.x; });
			seq::register_any_equal_comparison<Pt, Pt>();
		}
	};
#if CFG == 1
	using Ad = Assoc<seq::flat_set<long>, long, false, SORTED>;
#define NM "share_flat_set"
#elif CFG == 2
	using Ad = Assoc<seq::flat_map<std::string, long>, std::string, true, SORTED>;
#define NM "share_flat_map_string"
#elif CFG == 3
	using Ad = Assoc<seq::ordered_set<std::string>, std::string, false, UNORDERED>;
#define NM "share_ordered_set_string"
#elif CFG == 4
	using Ad = Assoc<seq::ordered_map<long, long>, long, true, UNORDERED>;
#define NM "share_ordered_map"
#elif CFG == 5
	using Ad = Assoc<seq::radix_set<std::string>, std::string, false, SORTED>;
#define NM "share_radix_set_string"
#elif CFG == 6
	using Ad = Assoc<seq::radix_map<long, long>, long, true, SORTED>;
#define NM "share_radix_map"
#elif CFG == 7
	using Ad = Assoc<seq::radix_hash_set<long>, long, false, UNORDERED, false>;
#define NM "share_radix_hash_set"
#elif CFG == 8
	using Ad = Assoc<seq::radix_hash_map<std::string, long>, std::string, true, UNORDERED, false>;
#define NM "share_radix_hash_map_string"
#elif CFG == 9
	using Ad = Assoc<seq::concurrent_map<long, long, std::hash<long>, std::equal_to<>, std::allocator<std::pair<long, long>>, seq::no_concurrency>, long, true, CONCURRENT>;
#define NM "share_concurrent_map_no_concurrency"
#elif CFG == 10
	using Ad = Assoc<seq::concurrent_set<std::string>, std::string, false, CONCURRENT>;
#define NM "share_concurrent_set_string"
#elif CFG == 11
	using Ad = Linear<seq::devector<std::string>, std::string>;
#define NM "share_devector_string"
#elif CFG == 12
	using Ad = Linear<seq::tiered_vector<long, std::allocator<long>, 4>, long>;
#define NM "share_tiered_vector"
#elif CFG == 13
	using Ad = Linear<seq::sequence<std::string>, std::string, false>;
#define NM "share_sequence_string"
#elif CFG == 14
	using Ad = Text<seq::tstring>;
#define NM "share_tstring"
#elif CFG == 15
	using Ad = Assoc<seq::radix_map<seq::tstring, long>, seq::tstring, true, SORTED>;
#define NM "share_radix_map_tstring"
#elif CFG == 16
	using Ad = Dyn<seq::any>;
#define NM "share_any"
#elif CFG == 17
	using Ad = Dyn<seq::r_any>;
#define NM "share_r_any"
#endif
	template<class A>
	auto prepare(int) -> decltype(A::prepare())
	{
		A::prepare();
	}
	template<class A>
	void prepare(long)
	{
	}
	void run(const Plan& p)
	{
		{
			NoSim ns;
			g_shape = p.get("shape") % Ad::shapes;
		}
		prepare<Ad>(0);
		run_cfg<Ad>(p);
	}
}
SIM_SCENARIO(NM, gen, run, show_op, 1, "C09");
