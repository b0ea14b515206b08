// Sequential containers (devector, tiered_vector) against a std::vector model, with failing allocations and throwing elements.
#pragma once
#include "surface.hpp"
#include <seq/type_traits.hpp>
#include <algorithm>
#include <iterator>
#include <vector>

namespace seq
{
	template<>
	struct is_relocatable<h::RElem> : std::true_type
	{
	};
}

namespace sq
{
	using namespace h;

	enum
	{
		PUSHB,
		PUSHB_MV,
		EMPB,
		PUSHF,
		PUSHF_MV,
		EMPF,
		POPB,
		POPF,
		INS,
		INS_MV,
		EMPL,
		INS_N,
		INS_RA,
		INS_IN,
		ERASE,
		ERASE_R,
		RESIZE,
		RESIZE_V,
		RESF,
		RESF_V,
		ASSIGN_N,
		ASSIGN_RA,
		ASSIGN_IN,
		CLEAR,
		SHRINK,
		RESERVE,
		RESERVE_B,
		RESERVE_F,
		COPYCTOR,
		COPYASSIGN,
		MOVECTOR,
		MOVEASSIGN,
		SWAP,
		ALIAS_PB,
		ALIAS_PF,
		ALIAS_INS,
		SELFASSIGN,
		CTOR_N,
		CTOR_NV,
		CTOR_RA,
		CTOR_IN,
		SORT,
		SET,
		AT,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	struct GenOpt
	{
		bool throwing, tiered;
		long big; // largest interesting size
		bool nofault_alias;
	};
	void gen(Plan& p, Rng& r, GenOpt g);

	// input iterator over an array, may throw
	template<class T>
	struct InIt
	{
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		reference operator*() const
		{
			maybe_throw(F_FUNC);
			return *p;
		}
		InIt& operator++()
		{
			maybe_throw(F_FUNC);
			++p;
			return *this;
		}
		InIt operator++(int)
		{
			InIt t = *this;
			++*this;
			return t;
		}
		bool operator==(const InIt& o) const { return p == o.p; }
		bool operator!=(const InIt& o) const { return p != o.p; }
	};

	template<class Cfg>
	struct Runner
	{
		using V = typename Cfg::V;
		using E = typename Cfg::E;
		V* v[2] = { nullptr, nullptr };
		std::vector<long> m[2];
		long counter = 0;
		long fresh() { return ++counter; }

		// reads the whole container through iterators; every element must be alive
		void read(V& x, std::vector<long>& out)
		{
			{
				NoSim ns;
				out.clear();
			}
			size_t n = x.size(), k = 0;
			if (x.empty() != (n == 0))
				fail("CONTENTS", "empty() is %d with size() %zu", (int)x.empty(), n);
			auto e = x.end();
			for (auto it = x.begin(); it != e; ++it, ++k) {
				if (k >= n)
					fail("CONTENTS", "iteration meets more than size() = %zu elements", n);
				long g = val(*it);
				NoSim ns;
				out.push_back(g);
			}
			if (k != n)
				fail("CONTENTS", "iteration meets %zu elements, size() is %zu", k, n);
		}
		static std::string str(const std::vector<long>& a)
		{
			std::string s = "{";
			for (size_t i = 0; i < a.size() && i < 80; ++i)
				s += (i ? "," : "") + (a[i] == MOVED ? std::string("moved") : std::to_string(a[i]));
			return s + (a.size() > 80 ? ",...}" : "}");
		}
		void same(int t, const char* what)
		{
			std::vector<long> g;
			{
				NoSim ns;
				g.reserve(64);
			}
			read(*v[t], g);
			NoSim ns;
			if (g != m[t])
				fail("CONTENTS", "%s: the container holds %s (%zu), should hold %s (%zu)", what, str(g).c_str(), g.size(), str(m[t]).c_str(), m[t].size());
			uint64_t hsh = 1469598103934665603ull;
			for (long x : g)
				hsh = (hsh ^ (uint64_t)x) * 1099511628211ull;
			state_hash(hsh);
			std::vector<long>().swap(g);
		}
		// the other ways of reading
		void deep(int t, Rng& r)
		{
			V& x = *v[t];
			const V& cx = x;
			size_t n = m[t].size();
			for (size_t i = 0; i < n; ++i) {
				long w;
				{
					NoSim ns;
					w = m[t][i];
				}
				if (val(x[i]) != w || val(cx[i]) != w || val(x.at(i)) != w)
					fail("CONTENTS", "[%zu] is %ld, at() is %ld, should be %ld", i, val(cx[i]), val(x.at(i)), w);
			}
			size_t i = n;
			for (auto it = cx.rbegin(); it != cx.rend(); ++it) {
				long w;
				{
					NoSim ns;
					if (i == 0)
						fail("CONTENTS", "reverse iteration meets too many elements");
					w = m[t][--i];
				}
				if (val(*it) != w)
					fail("CONTENTS", "reverse iteration meets %ld at %zu, should be %ld", val(*it), i, w);
			}
			if (i)
				fail("CONTENTS", "reverse iteration misses %zu elements", i);
			if (n) {
				if (val(x.front()) != m[t][0] || val(x.back()) != m[t][n - 1])
					fail("CONTENTS", "front()/back() differ from the first/last element");
				for (int q = 0; q < 6; ++q) {
					long a = r.range(0, (long)n), b = r.range(0, (long)n);
					auto ia = cx.begin() + a, ib = cx.end() - ((long)n - b);
					if (ib - ia != b - a || (ia < ib) != (a < b) || (ia == ib) != (a == b) || (ia <= ib) != (a <= b))
						fail("CONTENTS", "iterators at %ld and %ld of %zu: distance %ld, order %d", a, b, n, (long)(ib - ia), (int)(ia < ib));
					ia += b - a;
					if (b < (long)n && val(*ia) != m[t][(size_t)b])
						fail("CONTENTS", "iterator arithmetic reaches %ld instead of element %ld = %ld", val(*ia), b, m[t][(size_t)b]);
				}
			}
			{
				NoFault nf;
				auto is = [&](const E& e, size_t i) { return val(e) == m[t][i]; };
				surface_walk(x, n, r, is);
				surface_ra(x, n, r, is, 3);
				if (n && (val(cx.front()) != m[t][0] || val(cx.back()) != m[t][n - 1]))
					fail("CONTENTS", "front()/back() const differ from the first/last element");
				if (n) {
					size_t i = (size_t)r.below(n);
					if (val(cx.at(i)) != m[t][i])
						fail("CONTENTS", "at(%zu) const is another element", i);
					if constexpr (!Cfg::tiered)
						if (val(x.data()[i]) != m[t][i] || val(cx.data()[i]) != m[t][i])
							fail("CONTENTS", "data()[%zu] is another element", i);
				}
			}
			bool thrown = false;
			try {
				(void)(r.chance(1, 2) ? x.at(n) : cx.at(n));
			}
			catch (const std::out_of_range&) {
				thrown = true;
			}
			if (!thrown)
				fail("CONTENTS", "at(size()) does not throw");
			if constexpr (Cfg::tiered) {
				long a = (long)r.below(n + 1), b = a + (long)r.below(n + 1 - (size_t)a);
				long k = a;
				x.for_each((size_t)a, (size_t)b, [&](E& e) {
					if (k >= b || val(e) != m[t][(size_t)k])
						fail("CONTENTS", "for_each(%ld,%ld) shows %ld at %ld", a, b, val(e), k);
					++k;
				});
				if (k != b)
					fail("CONTENTS", "for_each(%ld,%ld) stops at %ld", a, b, k);
			}
		}

		// source elements, built without faults
		struct Src
		{
			E* d = nullptr;
			size_t n;
			std::vector<long> w;
			Src(Runner& r, size_t k)
			  : n(k)
			{
				NoFault nf;
				d = static_cast<E*>(::operator new(sizeof(E) * (k + 1), std::align_val_t(alignof(E))));
				for (size_t i = 0; i < k; ++i) {
					long f = r.fresh();
					new (d + i) E(f);
					NoSim ns;
					w.push_back(f);
				}
			}
			~Src()
			{
				for (size_t i = 0; i < n; ++i) {
					if (val(d[i]) != w[i])
						fail("CONTENTS", "a source element of a copying operation was changed");
					d[i].~E();
				}
				::operator delete(d, sizeof(E) * (n + 1), std::align_val_t(alignof(E)));
				NoSim ns;
				std::vector<long>().swap(w);
			}
			Src(const Src&) = delete;
		};

		static constexpr bool nothrow_move = std::is_nothrow_move_constructible_v<E> && std::is_nothrow_move_assignable_v<E>;
		bool strong(int code) const
		{
			switch (code) {
				case COPYCTOR:
				case MOVECTOR:
				case CTOR_N:
				case CTOR_NV:
				case CTOR_RA:
				case CTOR_IN: return true;
			}
			if (Cfg::tiered) {
				if (!Cfg::fixed_bs)
					return false;
				return code <= POPF;
			}
			if (!nothrow_move)
				return code == SHRINK || code == RESERVE;
			switch (code) {
				case ASSIGN_N:
				case ASSIGN_RA:
				case ASSIGN_IN:
				case COPYASSIGN:
				case SORT:
				case SET: return false;
			}
			return true;
		}

		// applies an operation; `exp` is the contents the target must have afterwards
		void apply(const Op& o, int t, size_t pos, std::vector<long>& exp, std::vector<long>& other)
		{
			V& x = *v[t];
			V& y = *v[1 - t];
			size_t n = m[t].size();
			auto want = [&](auto f) {
				NoSim ns;
				f(exp);
			};
			auto retpos = [&](auto it, size_t p) {
				if ((size_t)(it - x.begin()) != p)
					fail("CONTENTS", "%s returns an iterator to %ld instead of %zu", op_names[o.code], (long)(it - x.begin()), p);
			};
			(void)retpos;
			auto at = [&](size_t i) { return x.begin() + (std::ptrdiff_t)i; };
			bool alt = o.c & 2;
			switch (o.code) {
				case PUSHB:
				case PUSHB_MV:
				case EMPB:
				case PUSHF:
				case PUSHF_MV:
				case EMPF: {
					long w = fresh();
					bool front = o.code >= PUSHF;
					want([&](auto& e) { e.insert(front ? e.begin() : e.end(), w); });
					if (o.code == EMPB) {
						if (val(x.emplace_back(w)) != w)
							fail("CONTENTS", "emplace_back() does not return the new element");
					}
					else if (o.code == EMPF) {
						if (val(x.emplace_front(w)) != w)
							fail("CONTENTS", "emplace_front() does not return the new element");
					}
					else {
						E e = mk(w);
						if (o.code == PUSHB)
							x.push_back(e);
						else if (o.code == PUSHF)
							x.push_front(e);
						else if (o.code == PUSHB_MV)
							x.push_back(std::move(e));
						else
							x.push_front(std::move(e));
						if (o.code != PUSHB_MV && o.code != PUSHF_MV && val(e) != w)
							fail("CONTENTS", "the source of a copy was changed");
					}
					break;
				}
				case POPB:
				case POPF: {
					if (!n)
						break;
					want([&](auto& e) { e.erase(o.code == POPB ? e.end() - 1 : e.begin()); });
					if (o.code == POPB)
						x.pop_back();
					else
						x.pop_front();
					break;
				}
				case INS:
				case INS_MV:
				case EMPL: {
					long w = fresh();
					want([&](auto& e) { e.insert(e.begin() + (long)pos, w); });
					E e = mk(w);
					if constexpr (Cfg::tiered) {
						if (alt && o.code != EMPL) {
							if (o.code == INS)
								x.insert(pos, e);
							else
								x.insert(pos, std::move(e));
							break;
						}
						if (o.code == EMPL) {
							if (val(alt ? x.emplace(pos, w) : x.emplace(at(pos), w)) != w)
								fail("CONTENTS", "emplace() does not return the new element");
							break;
						}
					}
					else if (o.code == EMPL) {
						retpos(x.emplace(at(pos), w), pos);
						break;
					}
					if (o.code == INS)
						retpos(x.insert(at(pos), e), pos);
					else
						retpos(x.insert(at(pos), std::move(e)), pos);
					break;
				}
				case INS_N: {
					long w = fresh();
					size_t k = (size_t)o.b;
					want([&](auto& e) { e.insert(e.begin() + (long)pos, k, w); });
					E e = mk(w);
					if constexpr (Cfg::tiered)
						if (alt) {
							x.insert(pos, k, e);
							break;
						}
					retpos(x.insert(at(pos), k, e), pos);
					break;
				}
				case INS_RA:
				case INS_IN: {
					Src s(*this, (size_t)o.b);
					want([&](auto& e) { e.insert(e.begin() + (long)pos, s.w.begin(), s.w.end()); });
					if (o.code == INS_RA)
						retpos(x.insert(at(pos), s.d, s.d + s.n), pos);
					else
						retpos(x.insert(at(pos), InIt<E>{ s.d }, InIt<E>{ s.d + s.n }), pos);
					break;
				}
				case ERASE: {
					if (!n)
						break;
					if (pos == n)
						--pos;
					want([&](auto& e) { e.erase(e.begin() + (long)pos); });
					if constexpr (Cfg::tiered)
						if (alt) {
							x.erase(pos);
							break;
						}
					auto it = x.erase(at(pos));
					if ((size_t)(it - x.cbegin()) != pos)
						fail("CONTENTS", "erase() returns an iterator to %ld instead of %zu", (long)(it - x.cbegin()), pos);
					break;
				}
				case ERASE_R: {
					size_t last = std::min(n, pos + (size_t)o.b);
					want([&](auto& e) { e.erase(e.begin() + (long)pos, e.begin() + (long)last); });
					if constexpr (Cfg::tiered)
						if (alt) {
							x.erase(pos, last);
							break;
						}
					auto it = x.erase(at(pos), at(last));
					if ((size_t)(it - x.cbegin()) != pos)
						fail("CONTENTS", "erase(range) returns an iterator to %ld instead of %zu", (long)(it - x.cbegin()), pos);
					break;
				}
				case RESIZE:
				case RESIZE_V: {
					long w = o.code == RESIZE ? 0 : fresh();
					want([&](auto& e) { e.resize((size_t)o.b, w); });
					if (o.code == RESIZE)
						x.resize((size_t)o.b);
					else {
						E e = mk(w);
						x.resize((size_t)o.b, e);
					}
					break;
				}
				case RESF:
				case RESF_V: {
					long w = o.code == RESF ? 0 : fresh();
					want([&](auto& e) {
						if ((size_t)o.b < e.size())
							e.erase(e.begin(), e.end() - o.b);
						else
							e.insert(e.begin(), (size_t)o.b - e.size(), w);
					});
					if (o.code == RESF)
						x.resize_front((size_t)o.b);
					else {
						E e = mk(w);
						x.resize_front((size_t)o.b, e);
					}
					break;
				}
				case ASSIGN_N: {
					long w = fresh();
					want([&](auto& e) { e.assign((size_t)o.b, w); });
					E e = mk(w);
					x.assign((size_t)o.b, e);
					break;
				}
				case ASSIGN_RA:
				case ASSIGN_IN: {
					Src s(*this, (size_t)o.b);
					want([&](auto& e) { e = s.w; });
					if (o.code == ASSIGN_RA)
						x.assign(s.d, s.d + s.n);
					else
						x.assign(InIt<E>{ s.d }, InIt<E>{ s.d + s.n });
					break;
				}
				case CLEAR:
					want([&](auto& e) { e.clear(); });
					x.clear();
					break;
				case SHRINK:
					if constexpr (!Cfg::tiered)
						x.shrink_to_fit();
					break;
				case RESERVE:
					if constexpr (!Cfg::tiered) {
						x.reserve((size_t)o.b);
						if (x.capacity() < (size_t)o.b)
							fail("CONTENTS", "capacity() is %zu after reserve(%ld)", x.capacity(), o.b);
					}
					break;
				case RESERVE_B:
					if constexpr (!Cfg::tiered) {
						x.reserve_back((size_t)o.b);
						if (x.back_capacity() < (size_t)o.b)
							fail("CONTENTS", "back_capacity() is %zu after reserve_back(%ld)", x.back_capacity(), o.b);
					}
					break;
				case RESERVE_F:
					if constexpr (!Cfg::tiered) {
						x.reserve_front((size_t)o.b);
						if (x.front_capacity() < (size_t)o.b)
							fail("CONTENTS", "front_capacity() is %zu after reserve_front(%ld)", x.front_capacity(), o.b);
					}
					break;
				case COPYCTOR: {
					// the copy replaces the other one
					V* c = new V(x);
					{
						NoSim ns;
						other = m[t];
					}
					delete v[1 - t];
					v[1 - t] = c;
					break;
				}
				case COPYASSIGN: {
					V& d = x;
					want([&](auto& e) { e = m[1 - t]; });
					d = y;
					break;
				}
				case MOVECTOR: {
					V* c = new V(std::move(x));
					{
						NoSim ns;
						other = m[t];
						exp.clear();
					}
					delete v[1 - t];
					v[1 - t] = c;
					x.clear(); // valid but unspecified
					break;
				}
				case MOVEASSIGN: {
					want([&](auto& e) {
						e = m[1 - t];
						other.clear();
					});
					x = std::move(y);
					y.clear();
					break;
				}
				case SWAP:
					want([&](auto& e) {
						e = m[1 - t];
						other = m[t];
					});
					x.swap(y);
					break;
				case ALIAS_PB:
				case ALIAS_PF:
				case ALIAS_INS: {
					if (!n)
						break;
					size_t from = (size_t)o.b % n;
					size_t where = o.code == ALIAS_PB ? n : o.code == ALIAS_PF ? 0 : pos;
					want([&](auto& e) {
						long w = e[from];
						e.insert(e.begin() + (long)where, w);
					});
					const E& a = x[from];
					if (o.code == ALIAS_PB)
						x.push_back(a);
					else if (o.code == ALIAS_PF)
						x.push_front(a);
					else
						x.insert(at(where), a);
					break;
				}
				case SELFASSIGN: {
					const V& c = x;
					x = c;
					break;
				}
				case CTOR_N:
				case CTOR_NV:
				case CTOR_RA:
				case CTOR_IN: {
					V* c = nullptr;
					if (o.code == CTOR_N) {
						NoSim* z = nullptr;
						(void)z;
						{
							NoSim ns;
							other.assign((size_t)o.b, 0);
						}
						c = new V((size_t)o.b);
					}
					else if (o.code == CTOR_NV) {
						long w = fresh();
						{
							NoSim ns;
							other.assign((size_t)o.b, w);
						}
						E e = mk(w);
						c = new V((size_t)o.b, e, std::allocator<E>());
					}
					else {
						Src s(*this, (size_t)o.b);
						{
							NoSim ns;
							other = s.w;
						}
						if (o.code == CTOR_RA)
							c = new V(s.d, s.d + s.n);
						else
							c = new V(InIt<E>{ s.d }, InIt<E>{ s.d + s.n });
					}
					delete v[1 - t];
					v[1 - t] = c;
					break;
				}
				case SORT:
					want([&](auto& e) { std::sort(e.begin(), e.end()); });
					if ((o.b & 1) || alignof(E) > 16) // the buffer of std::stable_sort() has no more alignment
						std::sort(x.begin(), x.end());
					else
						std::stable_sort(x.begin(), x.end());
					break;
				case SET:
					if (!n)
						break;
					if (pos == n)
						--pos;
					{
						long w = fresh();
						want([&](auto& e) { e[pos] = w; });
						E e = mk(w);
						x[pos] = e;
					}
					break;
				case AT: break;
			}
		}
		E mk(long w)
		{
			NoFault nf;
			return E(w);
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live0 = g_live;
			Rng r((uint64_t)p.get("rng", 1));
			v[0] = new V();
			v[1] = new V();
			for (int t = 0; t < 2; ++t)
				for (long i = 0; i < p.get(t ? "preB" : "preA"); ++i) {
					long w = fresh();
					bool fr = p.get("prefront") && (i & 1);
					if (fr)
						v[t]->emplace_front(w);
					else
						v[t]->emplace_back(w);
					NoSim ns;
					m[t].insert(fr ? m[t].begin() : m[t].end(), w);
				}
			same(0, "prefill");
			same(1, "prefill");
			mark_nontrivial();
			int k = 0;
			for (const Op& o : p.tasks[0]) {
				int t = o.c & 1;
				std::vector<long> exp, other;
				size_t pos;
				{
					NoSim ns;
					exp = m[t];
					other = m[1 - t];
					pos = m[t].empty() ? 0 : (size_t)o.a % (m[t].size() + 1);
					if ((o.c & 12) == 4)
						pos = std::min<size_t>(pos % 3, m[t].size()); // near the front
					else if ((o.c & 12) == 8)
						pos = m[t].size() - std::min<size_t>(pos % 3, m[t].size());
					char buf[160];
					snprintf(buf, sizeof(buf), "%d: %s [size %zu, other %zu]", k, show_op(p, o).c_str(), m[t].size(), m[1 - t].size());
					logf("%s", buf);
				}
				bool thrown = false;
				progress();
				begin_op(o);
				try {
					apply(o, t, pos, exp, other);
				}
				catch (const Injected&) {
					thrown = true;
				}
				catch (const std::bad_alloc&) {
					thrown = true;
				}
				int f = end_op();
				if (thrown && !f)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				logf("   -> %s", thrown ? "threw" : "ok");
				if (!thrown) {
					NoSim ns;
					m[t].swap(exp);
					m[1 - t].swap(other);
				}
				else if (!strong(o.code)) {
					// basic guarantee: a valid container of alive elements
					for (int q = 0; q < 2; ++q) {
						std::vector<long> g;
						read(*v[q], g);
						NoSim ns;
						std::vector<long> ok = m[q], okk = exp;
						for (long x : g)
							if (x != MOVED && x != 0 && std::find(ok.begin(), ok.end(), x) == ok.end() && std::find(okk.begin(), okk.end(), x) == okk.end())
								fail("CONTENTS", "after %s threw the container holds %ld, which nobody put there", op_names[o.code], x);
						if (q != t && o.code != SWAP && o.code != MOVEASSIGN && g != m[q])
							fail("CONTENTS", "%s threw and changed another container", op_names[o.code]);
						m[q] = g;
						std::vector<long>().swap(g);
					}
				}
				std::string w;
				{
					NoSim ns;
					w = std::string(op_names[o.code]) + (thrown ? " that threw" : "");
				}
				same(0, w.c_str());
				same(1, w.c_str());
				if (o.c & 16) {
					deep(0, r);
					deep(1, r);
				}
				NoSim ns;
				std::string().swap(w);
				std::vector<long>().swap(exp);
				std::vector<long>().swap(other);
				++k;
			}
			// clearing and destroying need no memory and do not fail
			Op o;
			o.fk = F_ALLOC_P;
			o.fn = 1;
			begin_op(o);
			if (p.get("final_clear")) {
				v[0]->clear();
				if (!v[0]->empty())
					fail("CONTENTS", "not empty after clear()");
			}
			delete v[0];
			delete v[1];
			end_op();
			if (g_live != live0)
				fail("LIFETIME", "%ld elements were never destroyed", g_live - live0);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
