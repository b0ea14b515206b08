// seq::sequence against a model that knows the value and the address of every element, with failing allocations and throwing elements.
#pragma once
#include "surface.hpp"
#include <seq/sequence.hpp>
#include <algorithm>
#include <memory>
#include <vector>

namespace sn
{
	using namespace h;

	enum
	{
		PUSHB,
		PUSHB_MV,
		EMPB,
		EMPB_IT,
		PUSHF,
		PUSHF_MV,
		EMPF,
		EMPF_IT,
		INS,
		INS_MV,
		EMP,
		POPB,
		POPF,
		ERASE,
		ERASE_R,
		ERASE_MANY,
		RESIZE,
		RESIZE_V,
		RESF,
		RESF_V,
		ASSIGN_N,
		ASSIGN_RA,
		ASSIGN_IN,
		CLEAR,
		SHRINK,
		SORT,
		RESERVE,
		COPYCTOR,
		COPYASSIGN,
		MOVECTOR,
		MOVECTOR_A,
		MOVEASSIGN,
		SWAP,
		SELFASSIGN,
		ALIAS,
		CTOR_N,
		CTOR_NV,
		CTOR_RA,
		CTOR_IN,
		SET,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r, bool throwing);

	// allocators of different ids cannot free each other's memory
	template<class T, bool Propagate>
	struct IdAlloc
	{
		using value_type = T;
		using propagate_on_container_copy_assignment = std::integral_constant<bool, Propagate>;
		using propagate_on_container_move_assignment = std::true_type;
		using propagate_on_container_swap = std::true_type;
		using is_always_equal = std::false_type;
		int id;
		IdAlloc(int i = 0) noexcept
		  : id(i)
		{
		}
		template<class U>
		IdAlloc(const IdAlloc<U, Propagate>& o) noexcept
		  : id(o.id)
		{
		}
		template<class U>
		struct rebind
		{
			using other = IdAlloc<U, Propagate>;
		};
		static constexpr size_t head() { return alignof(T) > 16 ? alignof(T) : 16; }
		T* allocate(size_t n)
		{
			char* p = static_cast<char*>(alignof(T) > 16 ? ::operator new(n * sizeof(T) + head(), std::align_val_t(alignof(T))) : ::operator new(n * sizeof(T) + head()));
			*reinterpret_cast<int*>(p) = id;
			return reinterpret_cast<T*>(p + head());
		}
		void deallocate(T* q, size_t n) noexcept
		{
			char* p = reinterpret_cast<char*>(q) - head();
			if (*reinterpret_cast<int*>(p) != id)
				fail("ALLOCATOR", "memory of allocator %d is given back to allocator %d", *reinterpret_cast<int*>(p), id);
			if (alignof(T) > 16)
				::operator delete(p, n * sizeof(T) + head(), std::align_val_t(alignof(T)));
			else
				::operator delete(p, n * sizeof(T) + head());
		}
		template<class U>
		bool operator==(const IdAlloc<U, Propagate>& o) const noexcept
		{
			return id == o.id;
		}
		template<class U>
		bool operator!=(const IdAlloc<U, Propagate>& o) const noexcept
		{
			return id != o.id;
		}
	};

	template<class T>
	struct InIt
	{
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		reference operator*() const
		{
			maybe_throw(F_FUNC);
			return *p;
		}
		InIt& operator++()
		{
			maybe_throw(F_FUNC);
			++p;
			return *this;
		}
		InIt operator++(int)
		{
			InIt t = *this;
			++*this;
			return t;
		}
		bool operator==(const InIt& o) const { return p == o.p; }
		bool operator!=(const InIt& o) const { return p != o.p; }
	};
	struct Less
	{
		bool rev;
		template<class T>
		bool operator()(const T& a, const T& b) const
		{
			maybe_throw(F_FUNC);
			return rev ? val(b) / 4 < val(a) / 4 : val(a) < val(b);
		}
	};

	struct Slot
	{
		long v;
		const void* at;
		bool operator==(const Slot& o) const { return v == o.v && at == o.at; }
	};
	using Model = std::vector<Slot>;

	template<class Cfg>
	struct Runner
	{
		using V = typename Cfg::V;
		using E = typename Cfg::E;
		using A = typename V::allocator_type;
		V* v[2] = { nullptr, nullptr };
		int aid[2] = { 0, 0 };
		Model m[2];
		long counter = 0;
		long fresh() { return ++counter; }

		static A alloc(int id)
		{
			if constexpr (Cfg::ids)
				return A(id);
			else
				return A();
		}
		E mk(long w)
		{
			NoFault nf;
			return E(w);
		}
		void read(V& x, Model& out)
		{
			{
				NoSim ns;
				out.clear();
			}
			size_t n = x.size(), k = 0;
			if (x.empty() != (n == 0))
				fail("CONTENTS", "empty() is %d with size() %zu", (int)x.empty(), n);
			auto e = x.end();
			for (auto it = x.begin(); it != e; ++it, ++k) {
				if (k >= n)
					fail("CONTENTS", "iteration meets more than size() = %zu elements", n);
				Slot s{ val(*it), &*it };
				NoSim ns;
				out.push_back(s);
			}
			if (k != n)
				fail("CONTENTS", "iteration meets %zu elements, size() is %zu", k, n);
		}
		static std::string str(const Model& a)
		{
			std::string s = "{";
			for (size_t i = 0; i < a.size() && i < 200; ++i)
				s += (i ? "," : "") + (a[i].v == MOVED ? std::string("moved") : std::to_string(a[i].v));
			return s + (a.size() > 200 ? ",...}" : "}");
		}
		// `fixed`: the addresses known to the model must still be right; unknown ones (null) are learned
		void same(int t, const char* what)
		{
			Model g;
			read(*v[t], g);
			NoSim ns;
			bool ok = g.size() == m[t].size();
			uint64_t hsh = 1469598103934665603ull;
			for (size_t i = 0; ok && i < g.size(); ++i) {
				ok = g[i].v == m[t][i].v;
				hsh = (hsh ^ (uint64_t)g[i].v) * 1099511628211ull;
			}
			if (!ok)
				fail("CONTENTS", "%s: the container holds %s (%zu), should hold %s (%zu)", what, str(g).c_str(), g.size(), str(m[t]).c_str(), m[t].size());
			for (size_t i = 0; i < g.size(); ++i)
				if (m[t][i].at && m[t][i].at != g[i].at)
					fail("STABILITY", "%s: element %ld moved in memory", what, g[i].v);
			state_hash(hsh);
			m[t].swap(g);
			Model().swap(g);
		}
		void deep(int t, Rng& r)
		{
			V& x = *v[t];
			const V& cx = x;
			long n = (long)m[t].size();
			long i = n;
			for (auto it = cx.rbegin(); it != cx.rend(); ++it) {
				if (i == 0)
					fail("CONTENTS", "reverse iteration meets too many elements");
				--i;
				if (val(*it) != m[t][(size_t)i].v)
					fail("CONTENTS", "reverse iteration meets %ld at %ld, should be %ld", val(*it), i, m[t][(size_t)i].v);
			}
			if (i)
				fail("CONTENTS", "reverse iteration misses %ld elements", i);
			if (n && (val(cx.front()) != m[t][0].v || val(cx.back()) != m[t][(size_t)n - 1].v || val(x.front()) != m[t][0].v || val(x.back()) != m[t][(size_t)n - 1].v))
				fail("CONTENTS", "front()/back() differ from the first/last element");
			if (cx.capacity() < (size_t)n)
				fail("CONTENTS", "capacity() is %zu with %ld elements", cx.capacity(), n);
			for (int q = 0; q < 6; ++q) {
				long a = r.range(0, n), b = r.range(0, n);
				if (q == 0)
					a = 0;
				if (q == 1)
					b = n;
				auto ia = cx.iterator_at((size_t)a);
				auto ib = x.iterator_at((size_t)b);
				if (a < n && (val(*ia) != m[t][(size_t)a].v || &*ia != m[t][(size_t)a].at))
					fail("CONTENTS", "iterator_at(%ld) is on %ld", a, val(*ia));
				if (b == n && ib != x.end())
					fail("CONTENTS", "iterator_at(size()) is not end()");
				auto ja = cx.begin() + a;
				auto jb = cx.end() - (n - b);
				typename V::const_iterator cib = ib;
				if (ja != ia || jb != cib)
					fail("CONTENTS", "iterator arithmetic reaches another place than iterator_at(%ld), iterator_at(%ld) of %ld", a, b, n);
				long d = (long)(cib - ia);
				if (d != b - a)
					fail("CONTENTS", "the distance from %ld to %ld of %ld is given as %ld", a, b, n, d);
				if ((ia < cib) != (a < b) || (ia > cib) != (a > b) || (ia <= cib) != (a <= b) || (ia >= cib) != (a >= b) || (ia == cib) != (a == b))
					fail("CONTENTS", "iterators at %ld and %ld of %ld are ordered wrongly", a, b, n);
				ja += b - a;
				if (ja != cib)
					fail("CONTENTS", "iterator at %ld + %ld does not reach %ld", a, b - a, b);
				ja -= b - a;
				if (ja != ia)
					fail("CONTENTS", "iterator at %ld - %ld does not reach %ld", b, b - a, a);
			}
			NoFault nf;
			auto is = [&](const E& e, size_t k) { return val(e) == m[t][k].v && &e == m[t][k].at; };
			surface_walk(x, (size_t)n, r, is);
			surface_ra(x, (size_t)n, r, is, 2);
		}
		struct Src
		{
			E* d = nullptr;
			size_t n;
			std::vector<long> w;
			Src(Runner& r, size_t k)
			  : n(k)
			{
				NoFault nf;
				d = static_cast<E*>(::operator new(sizeof(E) * (k + 1), std::align_val_t(alignof(E))));
				for (size_t i = 0; i < k; ++i) {
					long f = r.fresh();
					new (d + i) E(f);
					NoSim ns;
					w.push_back(f);
				}
			}
			~Src()
			{
				for (size_t i = 0; i < n; ++i) {
					if (val(d[i]) != w[i])
						fail("CONTENTS", "a source element of a copying operation was changed");
					d[i].~E();
				}
				::operator delete(d, sizeof(E) * (n + 1), std::align_val_t(alignof(E)));
				NoSim ns;
				std::vector<long>().swap(w);
			}
			Src(const Src&) = delete;
		};
		static bool strong(int code)
		{
			switch (code) {
				case COPYCTOR:
				case MOVECTOR:
				case CTOR_N:
				case CTOR_NV:
				case CTOR_RA:
				case CTOR_IN: return true;
			}
			return code <= EMP || code == ALIAS;
		}
		static void forget(Model& a)
		{
			for (Slot& s : a)
				s.at = nullptr;
		}
		static void setv(Model& a, const std::vector<long>& w)
		{
			a.clear();
			for (long x : w)
				a.push_back({ x, nullptr });
		}

		void apply(const Op& o, int t, size_t pos, Model& exp, Model& other, long& anywhere, int* naid)
		{
			V& x = *v[t];
			V& y = *v[1 - t];
			size_t n = m[t].size();
			auto want = [&](auto f) {
				NoSim ns;
				f(exp);
			};
			auto on = [&](auto it, long w) {
				if (val(*it) != w)
					fail("CONTENTS", "%s returns an iterator to %ld instead of %ld", op_names[o.code], val(*it), w);
			};
			switch (o.code) {
				case PUSHB:
				case PUSHB_MV:
				case EMPB:
				case EMPB_IT:
				case PUSHF:
				case PUSHF_MV:
				case EMPF:
				case EMPF_IT: {
					long w = fresh();
					bool front = o.code >= PUSHF;
					want([&](auto& e) { e.insert(front ? e.begin() : e.end(), Slot{ w, nullptr }); });
					E e = mk(w);
					switch (o.code) {
						case PUSHB: x.push_back(e); break;
						case PUSHF: x.push_front(e); break;
						case PUSHB_MV: x.push_back(std::move(e)); break;
						case PUSHF_MV: x.push_front(std::move(e)); break;
						case EMPB:
						case EMPF:
							if (val(front ? x.emplace_front(w) : x.emplace_back(w)) != w)
								fail("CONTENTS", "%s does not return the new element", op_names[o.code]);
							break;
						default: on(front ? x.emplace_front_iter(w) : x.emplace_back_iter(w), w);
					}
					if ((o.code == PUSHB || o.code == PUSHF) && val(e) != w)
						fail("CONTENTS", "the source of a copy was changed");
					break;
				}
				case INS:
				case INS_MV:
				case EMP: {
					long w = fresh();
					E e = mk(w);
					auto it = o.code == INS ? x.insert(e) : o.code == INS_MV ? x.insert(std::move(e)) : x.emplace(w);
					on(it, w);
					anywhere = w;
					break;
				}
				case ALIAS: {
					if (!n)
						break;
					size_t from = (size_t)o.b % n;
					long w;
					const E& a = *x.iterator_at(from);
					want([&](auto& e) {
						w = e[from].v;
						if (o.c & 2)
							e.insert(e.begin(), Slot{ w, nullptr });
						else
							e.push_back(Slot{ w, nullptr });
					});
					if (o.c & 2)
						x.push_front(a);
					else
						x.push_back(a);
					break;
				}
				case POPB:
				case POPF:
					if (!n)
						break;
					want([&](auto& e) { e.erase(o.code == POPB ? e.end() - 1 : e.begin()); });
					if (o.code == POPB)
						x.pop_back();
					else
						x.pop_front();
					break;
				case ERASE: {
					if (!n)
						break;
					if (pos == n)
						--pos;
					want([&](auto& e) { e.erase(e.begin() + (long)pos); });
					auto it = x.erase(x.iterator_at(pos));
					if (pos + 1 == n ? it != x.end() : (size_t)std::distance(x.begin(), it) != pos)
						fail("CONTENTS", "erase() does not return the following element");
					break;
				}
				case ERASE_R: {
					size_t last = std::min(n, pos + (size_t)o.b);
					want([&](auto& e) { e.erase(e.begin() + (long)pos, e.begin() + (long)last); });
					auto it = x.erase(x.iterator_at(pos), x.iterator_at(last));
					if (last == n ? it != x.end() : (size_t)std::distance(x.begin(), it) != pos)
						fail("CONTENTS", "erase(range) does not return the following element");
					break;
				}
				case ERASE_MANY: {
					// leaves holes everywhere
					size_t every = (size_t)(o.b % 7) + 2, k = 0;
					want([&](auto& e) {
						Model c;
						for (size_t i = 0; i < e.size(); ++i)
							if (i % every == 0)
								c.push_back(e[i]);
						e.swap(c);
					});
					for (auto it = x.begin(); it != x.end(); ++k)
						if (k % every)
							it = x.erase(it);
						else
							++it;
					break;
				}
				case RESIZE:
				case RESIZE_V:
				case RESF:
				case RESF_V: {
					bool front = o.code >= RESF;
					long w = o.code == RESIZE || o.code == RESF ? 0 : fresh();
					want([&](auto& e) {
						if (!front)
							e.resize((size_t)o.b, Slot{ w, nullptr });
						else if ((size_t)o.b < e.size())
							e.erase(e.begin(), e.end() - o.b);
						else
							e.insert(e.begin(), (size_t)o.b - e.size(), Slot{ w, nullptr });
					});
					if (o.code == RESIZE)
						x.resize((size_t)o.b);
					else if (o.code == RESF)
						x.resize_front((size_t)o.b);
					else {
						E e = mk(w);
						if (front)
							x.resize_front((size_t)o.b, e);
						else
							x.resize((size_t)o.b, e);
					}
					break;
				}
				case ASSIGN_N: {
					long w = fresh();
					want([&](auto& e) { e.assign((size_t)o.b, Slot{ w, nullptr }); });
					E e = mk(w);
					x.assign((size_t)o.b, e);
					break;
				}
				case ASSIGN_RA:
				case ASSIGN_IN: {
					Src s(*this, (size_t)o.b);
					want([&](auto& e) { setv(e, s.w); });
					if (o.code == ASSIGN_RA)
						x.assign(s.d, s.d + s.n);
					else
						x.assign(InIt<E>{ s.d }, InIt<E>{ s.d + s.n });
					break;
				}
				case CLEAR:
					want([&](auto& e) { e.clear(); });
					x.clear();
					break;
				case SHRINK:
					want(forget);
					x.shrink_to_fit();
					break;
				case SORT: {
					bool rev = o.b & 1;
					want([&](auto& e) {
						forget(e);
						std::stable_sort(e.begin(), e.end(), [rev](const Slot& a, const Slot& b) { return rev ? b.v / 4 < a.v / 4 : a.v < b.v; });
					});
					if (o.b & 2) {
						std::vector<E> buf;
						{
							NoFault nf;
							buf.resize((size_t)o.b % 50);
						}
						x.sort(Less{ rev }, seq::buffer<E*>{ buf.data(), buf.size() });
					}
					else
						x.sort(Less{ rev });
					// not a stable sort: any order of equivalent elements
					Model g;
					read(x, g);
					NoSim ns;
					Model a = g, b = exp;
					auto byv = [](const Slot& p, const Slot& q) { return p.v < q.v; };
					std::sort(a.begin(), a.end(), byv);
					std::sort(b.begin(), b.end(), byv);
					bool ok = a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Slot& p, const Slot& q) { return p.v == q.v; });
					for (size_t i = 1; ok && i < g.size(); ++i)
						ok = rev ? g[i - 1].v / 4 >= g[i].v / 4 : g[i - 1].v <= g[i].v;
					if (!ok)
						fail("CONTENTS", "sort: the container holds %s, should hold a sorted permutation of %s", str(g).c_str(), str(exp).c_str());
					exp.swap(g);
					forget(exp);
					break;
				}
				case RESERVE: x.reserve((size_t)o.b); break;
				case COPYCTOR:
				case MOVECTOR:
				case MOVECTOR_A: {
					int id = o.code == MOVECTOR_A || (o.b & 1) ? (int)(o.b >> 1) % 3 : aid[t];
					V* c = o.code == MOVECTOR	? new V(std::move(x))
					       : o.code == MOVECTOR_A ? new V(std::move(x), alloc(id))
					       : (o.b & 1)	      ? new V(x, alloc(id))
								      : new V(x);
					if (o.code == MOVECTOR)
						id = aid[t];
					{
						NoSim ns;
						other = m[t];
						if (o.code == COPYCTOR || (o.code == MOVECTOR_A && Cfg::ids && id != aid[t]))
							forget(other);
						if (o.code != COPYCTOR)
							exp.clear();
					}
					delete v[1 - t];
					v[1 - t] = c;
					naid[1 - t] = id;
					if (o.code != COPYCTOR)
						x.clear();
					break;
				}
				case COPYASSIGN:
					want([&](auto& e) {
						e = m[1 - t];
						forget(e);
					});
					if (Cfg::propagate)
						naid[t] = aid[1 - t];
					x = y;
					break;
				case MOVEASSIGN:
					want([&](auto& e) {
						e = m[1 - t];
						other.clear();
					});
					naid[t] = aid[1 - t];
					naid[1 - t] = aid[t];
					x = std::move(y);
					y.clear();
					break;
				case SWAP:
					want([&](auto& e) {
						e = m[1 - t];
						other = m[t];
					});
					naid[t] = aid[1 - t];
					naid[1 - t] = aid[t];
					x.swap(y);
					break;
				case SELFASSIGN: {
					const V& c = x;
					x = c;
					break;
				}
				case CTOR_N:
				case CTOR_NV:
				case CTOR_RA:
				case CTOR_IN: {
					V* c = nullptr;
					int id = (int)(o.a % 3);
					if (o.code == CTOR_N) {
						{
							NoSim ns;
							other.assign((size_t)o.b, Slot{ 0, nullptr });
						}
						c = new V((size_t)o.b, alloc(id));
					}
					else if (o.code == CTOR_NV) {
						long w = fresh();
						{
							NoSim ns;
							other.assign((size_t)o.b, Slot{ w, nullptr });
						}
						E e = mk(w);
						c = new V((size_t)o.b, e, alloc(id));
					}
					else {
						Src s(*this, (size_t)o.b);
						{
							NoSim ns;
							setv(other, s.w);
						}
						if (o.code == CTOR_RA)
							c = new V(s.d, s.d + s.n, alloc(id));
						else
							c = new V(InIt<E>{ s.d }, InIt<E>{ s.d + s.n }, alloc(id));
					}
					delete v[1 - t];
					v[1 - t] = c;
					naid[1 - t] = id;
					break;
				}
				case SET:
					if (!n)
						break;
					if (pos == n)
						--pos;
					{
						long w = fresh();
						want([&](auto& e) { e[pos].v = w; });
						E e = mk(w);
						*x.iterator_at(pos) = e;
					}
					break;
			}
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live0 = g_live;
			Rng r((uint64_t)p.get("rng", 1));
			for (int t = 0; t < 2; ++t) {
				aid[t] = p.get("sameid") ? 0 : t;
				v[t] = p.get("lazy") && !Cfg::ids ? new V() : new V(alloc(aid[t]));
				for (long i = 0; i < p.get(t ? "preB" : "preA"); ++i) {
					long w = fresh();
					bool fr = p.get("prefront") == 2 || (p.get("prefront") && (i & 1));
					if (fr)
						v[t]->emplace_front(w);
					else
						v[t]->emplace_back(w);
					NoSim ns;
					m[t].insert(fr ? m[t].begin() : m[t].end(), Slot{ w, nullptr });
				}
			}
			same(0, "prefill");
			same(1, "prefill");
			mark_nontrivial();
			int k = 0;
			for (const Op& o : p.tasks[0]) {
				int t = o.c & 1;
				Model exp, other;
				size_t pos;
				{
					NoSim ns;
					exp = m[t];
					other = m[1 - t];
					pos = m[t].empty() ? 0 : (size_t)o.a % (m[t].size() + 1);
					if ((o.c & 12) == 4)
						pos = std::min<size_t>(pos % 3, m[t].size());
					else if ((o.c & 12) == 8)
						pos = m[t].size() - std::min<size_t>(pos % 3, m[t].size());
					char buf[160];
					snprintf(buf, sizeof(buf), "%d: %s [size %zu, other %zu]", k, show_op(p, o).c_str(), m[t].size(), m[1 - t].size());
					logf("%s", buf);
				}
				bool thrown = false;
				long anywhere = -1;
				int naid[2] = { aid[0], aid[1] };
				progress();
				begin_op(o);
				try {
					apply(o, t, pos, exp, other, anywhere, naid);
				}
				catch (const Injected&) {
					thrown = true;
				}
				catch (const std::bad_alloc&) {
					thrown = true;
				}
				int f = end_op();
				if (thrown && !f)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				logf("   -> %s", thrown ? "threw" : "ok");
				if (!thrown) {
					if (anywhere >= 0) {
						// the new element may be anywhere, the others keep their order
						Model g;
						read(*v[t], g);
						NoSim ns;
						size_t i = 0;
						while (i < g.size() && g[i].v != anywhere)
							++i;
						if (i == g.size())
							fail("CONTENTS", "the inserted element is not met by an iteration");
						exp.insert(exp.begin() + (long)std::min(i, exp.size()), Slot{ anywhere, nullptr });
						Model().swap(g);
					}
					NoSim ns;
					m[t].swap(exp);
					m[1 - t].swap(other);
					aid[0] = naid[0];
					aid[1] = naid[1];
				}
				else if (!strong(o.code)) {
					if (o.code == COPYASSIGN && Cfg::propagate)
						aid[t] = v[t]->get_allocator() == alloc(naid[t]) ? naid[t] : aid[t];
					for (int q = 0; q < 2; ++q) {
						Model g;
						read(*v[q], g);
						NoSim ns;
						auto known = [](const Model& a, long x) { return std::find_if(a.begin(), a.end(), [x](const Slot& s) { return s.v == x; }) != a.end(); };
						for (const Slot& x : g)
							if (x.v != MOVED && x.v != 0 && !known(m[q], x.v) && !known(exp, x.v) && !(o.code == MOVECTOR_A && known(m[1 - q], x.v)))
								fail("CONTENTS", "after %s threw the container holds %ld, which nobody put there", op_names[o.code], x.v);
						if (q != t && !(g == m[q]))
							fail("CONTENTS", "%s threw and changed another container", op_names[o.code]);
						m[q] = g;
						Model().swap(g);
					}
				}
				std::string w;
				{
					NoSim ns;
					w = std::string(op_names[o.code]) + (thrown ? " that threw" : "");
				}
				same(0, w.c_str());
				same(1, w.c_str());
				if (o.c & 16) {
					deep(0, r);
					deep(1, r);
				}
				NoSim ns;
				std::string().swap(w);
				Model().swap(exp);
				Model().swap(other);
				++k;
			}
			Op o;
			o.fk = F_ALLOC_P;
			o.fn = 1;
			begin_op(o);
			if (p.get("final_clear")) {
				v[0]->clear();
				if (!v[0]->empty())
					fail("CONTENTS", "not empty after clear()");
			}
			delete v[0];
			delete v[1];
			end_op();
			if (g_live != live0)
				fail("LIFETIME", "%ld elements were never destroyed", g_live - live0);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
