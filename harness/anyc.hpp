// seq::hold_any against a small model (type, value), with failing allocations and throwing operations of the held types,
// and with values that are part of the object they are assigned to.
#pragma once
#include "common.hpp"
#include <seq/any.hpp>
#include <memory>
#include <new>
#include <string>
#include <vector>

namespace an
{
	using namespace h;

	enum
	{
		CTOR,
		COPYCTOR,
		MOVECTOR,
		ASSIGN,
		ASSIGN_MOVE,
		EMPLACE,
		MAKE,
		COPYASSIGN,
		MOVEASSIGN,
		SWAP,
		RESET,
		CAST,
		CONVERT,
		COMPARE,
		COMPARE_VALUE,
		SELF_PART,
		NEST,
		RELOCATE,
		SET,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r);

	// a tracked object of 8 bytes
	template<bool Reloc>
	struct Small
	{
		uint32_t tag;
		int32_t v;

		static constexpr uint32_t gone = 0xDEADBEEFu;
		uint32_t mine() const
		{
			if (Reloc)
				return 0x600DA11Eu;
			uint64_t a = (uint64_t)reinterpret_cast<uintptr_t>(this) * 0x9E3779B97F4A7C15ull;
			return (uint32_t)(a >> 32) | 1;
		}
		void check(const char* what) const
		{
			if (tag != mine())
				fail("LIFETIME", "%s small object that is not alive here (%s)", what, tag == gone ? "already destroyed" : "never constructed, or relocated bytewise");
		}
		void born(long x)
		{
			tag = mine();
			v = (int32_t)x;
			live_add(1);
		}
		explicit Small(long x = 0)
		{
			maybe_throw(F_CTOR);
			born(x);
		}
		Small(const Small& o)
		{
			o.check("copy of a");
			maybe_throw(F_COPY);
			born(o.v);
		}
		Small(Small&& o) noexcept(Reloc)
		{
			o.check("move of a");
			if (!Reloc)
				maybe_throw(F_MOVE);
			born(o.v);
			o.v = (int32_t)MOVED;
		}
		Small& operator=(const Small& o)
		{
			check("assignment to a");
			o.check("copy of a");
			maybe_throw(F_COPY);
			v = o.v;
			return *this;
		}
		Small& operator=(Small&& o) noexcept(Reloc)
		{
			check("assignment to a");
			o.check("move of a");
			if (!Reloc)
				maybe_throw(F_MOVE);
			int32_t x = o.v;
			if (&o != this)
				o.v = (int32_t)MOVED;
			v = x;
			return *this;
		}
		~Small()
		{
			check("destruction of a");
			tag = gone;
			live_add(-1);
		}
		long get() const
		{
			check("reading a");
			return v;
		}
		bool operator==(const Small& o) const
		{
			maybe_throw(F_CMP);
			return get() == o.get();
		}
		bool operator<(const Small& o) const
		{
			maybe_throw(F_CMP);
			return get() < o.get();
		}
	};
	// no comparison, trivially copyable, too big for most buffers
	struct Pod
	{
		long a, b, c;
		explicit Pod(long x = 0)
		  : a(x)
		  , b(~x)
		  , c(x * 3)
		{
		}
		long get() const
		{
			if (b != ~a || c != a * 3)
				fail("CONTENTS", "a trivially copyable object is damaged");
			return a;
		}
	};
	// needs more alignment than operator new gives
	struct alignas(64) Wide
	{
		Elem<true, 3> e;
		explicit Wide(long x = 0)
		  : e(x)
		{
			at("construction");
		}
		Wide(const Wide& o)
		  : e(o.e)
		{
			at("copy");
		}
		Wide(Wide&& o)
		  : e(std::move(o.e))
		{
			at("move");
		}
		Wide& operator=(const Wide&) = default;
		Wide& operator=(Wide&&) = default;
		void at(const char* what) const
		{
			if (address_of(this) % 64)
				fail("ALIGNMENT", "%s of an object that needs 64 bytes alignment at an address that has %lu modulo 64", what, (unsigned long)(address_of(this) % 64));
		}
		long get() const { return e.get(); }
		bool operator==(const Wide& o) const { return e == o.e; }
		bool operator<(const Wide& o) const { return e < o.e; }
	};
	// alignment 16, 16 bytes
	struct alignas(16) Sse
	{
		long a, b;
		explicit Sse(long x = 0)
		  : a(x)
		  , b(~x)
		{
			at();
		}
		Sse(const Sse& o)
		  : a(o.a)
		  , b(o.b)
		{
			at();
			maybe_throw(F_COPY);
		}
		Sse& operator=(const Sse& o)
		{
			maybe_throw(F_COPY);
			a = o.a;
			b = o.b;
			return *this;
		}
		void at() const
		{
			if (address_of(this) % 16)
				fail("ALIGNMENT", "an object that needs 16 bytes alignment is at an address that has %lu modulo 16", (unsigned long)(address_of(this) % 16));
		}
		long get() const
		{
			at();
			return a == ~b ? a : -1;
		}
		bool operator==(const Sse& o) const { return a == o.a; }
		bool operator<(const Sse& o) const { return a < o.a; }
	};
	// can be constructed but not assigned
	struct Fixed
	{
		const Elem<false, 4> e;
		explicit Fixed(long x = 0)
		  : e(x)
		{
		}
		long get() const { return e.get(); }
		bool operator==(const Fixed& o) const { return e == o.e; }
		bool operator<(const Fixed& o) const { return e < o.e; }
	};
	// an object whose parts are assigned to the hold_any that holds it
	struct Box
	{
		Elem<false, 5> e;
		RElem r;
		explicit Box(long x = 0)
		  : e(x)
		  , r(x + 1)
		{
		}
		Box(const Box&) = default;
		Box(Box&&) = default;
		Box& operator=(const Box& o)
		{
			Box t(o);
			e = std::move(t.e);
			r = std::move(t.r);
			return *this;
		}
		Box& operator=(Box&&) = default;
		long get() const { return e.get(); }
	};
	// objects that hold the same kind of dynamic value
	template<class Any>
	struct Tree
	{
		std::vector<Any> v;
		Tree() {}
		Tree(const Tree&) = default;
		Tree(Tree&&) = default;
		Tree& operator=(const Tree& o)
		{
			std::vector<Any> t(o.v);
			v.swap(t);
			return *this;
		}
		Tree& operator=(Tree&& o) noexcept
		{
			std::vector<Any> t(std::move(o.v));
			v.swap(t);
			return *this;
		}
	};
	template<class T>
	struct is_tree : std::false_type
	{
	};
	template<class A>
	struct is_tree<Tree<A>> : std::true_type
	{
	};

	enum
	{
		T_INT,
		T_DOUBLE,
		T_CSTR,
		T_STRING,
		T_TSTRING,
		T_ELEM,
		T_ELEMX,
		T_SMALL,
		T_SMALLR,
		T_UNIQUE,
		T_POD,
		T_WIDE,
		T_SSE,
		T_FIXED,
		T_BOX,
		T_RELEM,
		T_TREE,
		NTYPES
	};
	extern const char* const type_names[NTYPES];
	using Uniq = std::unique_ptr<Elem<false, 6>>;

	template<class Any, int I>
	struct TypeOf;
#define AN_TYPE(i, ...)                                                                                                                                                                                            \
	template<class Any>                                                                                                                                                                                        \
	struct TypeOf<Any, i>                                                                                                                                                                                      \
	{                                                                                                                                                                                                          \
		using type = __VA_ARGS__;                                                                                                                                                                          \
	};
	AN_TYPE(T_INT, int)
	AN_TYPE(T_DOUBLE, double)
	AN_TYPE(T_CSTR, const char*)
	AN_TYPE(T_STRING, std::string)
	AN_TYPE(T_TSTRING, seq::tstring)
	AN_TYPE(T_ELEM, Elem<false, 5>)
	AN_TYPE(T_ELEMX, Elem<true, 2>)
	AN_TYPE(T_SMALL, Small<false>)
	AN_TYPE(T_SMALLR, Small<true>)
	AN_TYPE(T_UNIQUE, Uniq)
	AN_TYPE(T_POD, Pod)
	AN_TYPE(T_WIDE, Wide)
	AN_TYPE(T_SSE, Sse)
	AN_TYPE(T_FIXED, Fixed)
	AN_TYPE(T_BOX, Box)
	AN_TYPE(T_RELEM, RElem)
	AN_TYPE(T_TREE, Tree<Any>)
}
namespace seq
{
#define AN_NOHASH(...)                                                                                                                                                                                             \
	template<>                                                                                                                                                                                                 \
	struct is_hashable<__VA_ARGS__> : std::false_type                                                                                                                                                          \
	{                                                                                                                                                                                                          \
	};
	AN_NOHASH(h::Elem<false, 5>)
	AN_NOHASH(h::Elem<true, 2>)
	AN_NOHASH(an::Small<false>)
	AN_NOHASH(an::Small<true>)
	AN_NOHASH(an::Pod)
	AN_NOHASH(an::Wide)
	AN_NOHASH(an::Sse)
	AN_NOHASH(an::Fixed)
	AN_NOHASH(an::Box)
	AN_NOHASH(h::RElem)
	AN_NOHASH(an::Uniq)
	template<class A>
	struct is_hashable<an::Tree<A>> : std::false_type
	{
	};
	template<>
	struct is_relocatable<an::Small<true>> : std::true_type
	{
	};
	template<>
	struct is_relocatable<h::RElem> : std::true_type
	{
	};
}
namespace an
{
	// what a slot holds: no type, or a type and a number
	struct MV
	{
		int type = -1;
		long k = 0;
		std::vector<MV> sub;
		bool operator==(const MV& o) const { return type == o.type && k == o.k && sub == o.sub; }
	};
	std::string str(const MV& m);
	const char* cstr(long k); // a literal that stands for k

	inline constexpr int NS = 4;

	template<class Cfg>
	struct Runner
	{
		using Any = typename Cfg::A;
		template<int I>
		using T = typename TypeOf<Any, I>::type;
		struct Guard
		{
			Any* p;
			~Guard()
			{
				if (p)
					new (p) Any();
			}
		};
		Any* v[NS] = {};
		MV m[NS];
		Rng r{ 1 };

		template<class F, int I = 0>
		static void with(int type, F f)
		{
			if constexpr (I < NTYPES) {
				if (type == I)
					f(std::integral_constant<int, I>());
				else
					with<F, I + 1>(type, f);
			}
		}
		static std::string text(long k)
		{
			std::string s = std::to_string(k);
			if (k & 1)
				s = std::string(40, '0') + s;
			return s;
		}
		// the value k as an object of type I; Tree: k elements
		template<int I>
		static T<I> make(long k)
		{
			if constexpr (I == T_INT)
				return (int)k;
			else if constexpr (I == T_DOUBLE)
				return (double)k + 0.5;
			else if constexpr (I == T_CSTR)
				return cstr(k);
			else if constexpr (I == T_STRING)
				return text(k);
			else if constexpr (I == T_TSTRING) {
				std::string s = text(k);
				return seq::tstring(s.data(), s.size());
			}
			else if constexpr (I == T_UNIQUE)
				return Uniq(new Elem<false, 6>(k));
			else if constexpr (I == T_TREE) {
				Tree<Any> t;
				for (long i = 0; i < k % 4; ++i) {
					if ((k + i) % 3 == 0)
						t.v.emplace_back(make<T_ELEM>(k + i));
					else if ((k + i) % 3 == 1)
						t.v.emplace_back(make<T_SMALL>(k + i));
					else
						t.v.emplace_back(make<T_INT>(k + i));
				}
				return t;
			}
			else
				return T<I>(k);
		}
		static MV model(int type, long k)
		{
			MV x;
			x.type = type;
			x.k = k;
			if (type == T_TREE) {
				x.k = 0;
				for (long i = 0; i < k % 4; ++i)
					x.sub.push_back(model((k + i) % 3 == 0 ? T_ELEM : (k + i) % 3 == 1 ? T_SMALL : T_INT, k + i));
			}
			return x;
		}
		static MV moved(const MV& a)
		{
			MV x = a;
			switch (a.type) {
				case T_STRING:
				case T_TSTRING:
				case T_ELEM:
				case T_ELEMX:
				case T_SMALL:
				case T_SMALLR:
				case T_UNIQUE:
				case T_WIDE:
				case T_RELEM:
				case T_BOX: x.k = MOVED; break;
				case T_TREE: x.sub.clear(); break;
				default: break;
			}
			return x;
		}
		static MV snap(const Any& a)
		{
			NoFault nf;
			MV x;
			if (a.empty() != !a.has_value() || a.empty() != !(bool)a || a.empty() != (a.type() == nullptr))
				fail("CONTENTS", "empty(), has_value(), bool and type() disagree");
			if (a.empty()) {
				if (a.type_id() != 0 || a.sizeof_type() != 0)
					fail("CONTENTS", "an empty object has a type");
				return x;
			}
			for (int i = 0; i < NTYPES; ++i)
				with(i, [&](auto I) {
					if (a.type() == Any::template get_type<T<I>>()) {
						if (x.type >= 0)
							fail("CONTENTS", "two types at once");
						x.type = i;
						if (a.sizeof_type() != sizeof(T<I>) || a.type_id() != seq::get_type_id<T<I>>())
							fail("CONTENTS", "type_id() or sizeof_type() is not that of the held type");
						const T<I>* p = static_cast<const T<I>*>(a.data());
						if (address_of(p) % alignof(T<I>))
							fail("ALIGNMENT", "an object of type %s is not aligned", type_names[i]);
						x.k = num<I>(*p, x);
					}
				});
			if (x.type < 0)
				fail("CONTENTS", "the type held is none of those ever stored");
			return x;
		}
		template<int I>
		static long num(const T<I>& t, MV& x)
		{
			if constexpr (I == T_INT)
				return t;
			else if constexpr (I == T_DOUBLE)
				return (long)(t - 0.5);
			else if constexpr (I == T_CSTR || I == T_STRING || I == T_TSTRING) {
				std::string s;
				NoSim ns;
				if constexpr (I == T_CSTR)
					s = t;
				else
					s.assign(t.data(), t.size());
				if (s.empty())
					return MOVED;
				long k = atol(s.c_str());
				if (I != T_CSTR && s != text(k))
					fail("CONTENTS", "a string holds \"%s\"", s.c_str());
				return k;
			}
			else if constexpr (I == T_UNIQUE)
				return t ? t->get() : MOVED;
			else if constexpr (I == T_BOX) {
				long a = t.e.get(), b = t.r.get();
				if (a == MOVED ? b != MOVED : b != a + 1)
					fail("CONTENTS", "the parts of an object do not fit");
				return a;
			}
			else if constexpr (I == T_TREE) {
				for (const Any& a : t.v) {
					MV y = snap(a);
					NoSim ns;
					x.sub.push_back(std::move(y));
				}
				return 0;
			}
			else
				return t.get();
		}

		void same(int i, const char* what)
		{
			MV g = snap(*v[i]);
			NoSim ns;
			if (!(g == m[i]))
				fail("CONTENTS", "%s: object %c holds %s, should hold %s", what, 'A' + i, str(g).c_str(), str(m[i]).c_str());
			state_hash((uint64_t)(g.type + 1) * 1000003 + (uint64_t)g.k + 77 * g.sub.size());
		}
		// the slot has one of these values; it becomes the model
		void one_of(int i, const char* what, std::initializer_list<MV> l)
		{
			MV g = snap(*v[i]);
			NoSim ns;
			for (const MV& x : l)
				if (g == x) {
					m[i] = g;
					return;
				}
			std::string w;
			for (const MV& x : l)
				w += (w.empty() ? "" : " or ") + str(x);
			fail("CONTENTS", "%s: object %c holds %s, should hold %s", what, 'A' + i, str(g).c_str(), w.c_str());
		}

		static bool arith(int t) { return t == T_INT || t == T_DOUBLE; }
		static bool string(int t) { return t == T_CSTR || t == T_STRING || t == T_TSTRING; }
		static bool has_eq(int t) { return t != T_POD && t != T_BOX && t != T_TREE; }
		static bool has_less(int t) { return t != T_POD && t != T_BOX && t != T_TREE; }
		static double num(const MV& a) { return a.type == T_DOUBLE ? (double)a.k + 0.5 : (double)a.k; }
		static std::string stext(const MV& a) { return a.k == MOVED ? std::string() : a.type == T_CSTR ? std::string(cstr(a.k)) : text(a.k); }
		static int type_id(int t)
		{
			int id = 0;
			with(t, [&](auto I) { id = seq::get_type_id<T<I>>(); });
			return id;
		}
		// -1: must throw bad_function_call, otherwise the result
		static int model_less(const MV& a, const MV& b)
		{
			if (a.type < 0 || b.type < 0)
				return a.type < 0 && b.type >= 0;
			if (a.type == b.type) {
				if (!has_less(a.type))
					return -1;
				if (a.type == T_CSTR)
					return cstr(a.k) < cstr(b.k);
				if (string(a.type))
					return stext(a) < stext(b);
				return a.k < b.k;
			}
			if (arith(a.type) && arith(b.type))
				return num(a) < num(b);
			if (string(a.type) && string(b.type))
				return stext(a) < stext(b);
			return type_id(a.type) < type_id(b.type);
		}
		static bool model_eq(const MV& a, const MV& b)
		{
			if (a.type < 0 || b.type < 0)
				return a.type == b.type;
			if (a.type == b.type)
				return has_eq(a.type) && a.k == b.k;
			if (arith(a.type) && arith(b.type))
				return num(a) == num(b);
			if (string(a.type) && string(b.type))
				return stext(a) == stext(b);
			return false;
		}

		void apply(const Op& o, int i, int j, MV* exp, bool& moved_from)
		{
			Any& a = *v[i];
			Any& b = *v[j];
			const int ty = (int)(o.b % NTYPES);
			const long k = o.a % 1000;
			auto set = [&](int at, const MV& x) {
				NoSim ns;
				exp[at] = x;
			};
			auto fresh = [&]() {
				NoSim ns;
				exp[i] = model(ty, k);
			};
			switch (o.code) {
				case CTOR:
				case MAKE:
					// a new object takes the place of the old one
					a.~Any();
					new (&a) Any();
					set(i, MV());
					if (o.code == MAKE)
						with(ty, [&](auto I) {
							if constexpr (I == T_ELEM || I == T_ELEMX || I == T_BOX || I == T_SMALL || I == T_SMALLR || I == T_RELEM || I == T_WIDE || I == T_SSE || I == T_POD) {
								Guard g{ &a };
								a.~Any();
								new (&a) Any(seq::make_any<Any, T<I>>(k));
								g.p = nullptr;
								fresh();
							}
						});
					else
						with(ty, [&](auto I) {
							auto x = make<I>(k);
							Guard g{ &a };
							a.~Any();
							if constexpr (I != T_UNIQUE) {
								if (o.c & 1)
									new (&a) Any(x);
								else
									new (&a) Any(std::move(x));
							}
							else
								new (&a) Any(std::move(x));
							g.p = nullptr;
							fresh();
						});
					break;
				case COPYCTOR:
				case MOVECTOR: {
					if (i == j)
						break;
					Guard g{ &a };
					a.~Any();
					set(i, MV());
					if (o.code == COPYCTOR)
						new (&a) Any(static_cast<const Any&>(b));
					else {
						moved_from = true;
						new (&a) Any(std::move(b));
					}
					g.p = nullptr;
					set(i, m[j]);
					break;
				}
				case ASSIGN:
				case ASSIGN_MOVE:
					with(ty, [&](auto I) {
						if constexpr (I != T_FIXED) {
							auto x = make<I>(k);
							if constexpr (I != T_UNIQUE) {
								if (o.code == ASSIGN) {
									const auto& cx = x;
									a = cx;
								}
								else
									a = std::move(x);
							}
							else
								a = std::move(x);
							fresh();
						}
					});
					break;
				case EMPLACE:
					with(ty, [&](auto I) {
						if constexpr (I == T_INT || I == T_ELEM || I == T_ELEMX || I == T_BOX || I == T_SMALL || I == T_SMALLR || I == T_RELEM || I == T_WIDE || I == T_SSE || I == T_POD) {
							T<I>& x = a.template emplace<T<I>>((int)k);
							fresh();
							if (&x != static_cast<T<I>*>(a.data()))
								fail("CONTENTS", "emplace() returns another object");
						}
						else if constexpr (I == T_STRING || I == T_TSTRING) {
							T<I>& x = a.template emplace<T<I>>({ '1', '2' });
							set(i, model(ty, 12));
							if (&x != static_cast<T<I>*>(a.data()))
								fail("CONTENTS", "emplace() returns another object");
						}
					});
					break;
				case COPYASSIGN:
					a = static_cast<const Any&>(b);
					set(i, m[j]);
					break;
				case MOVEASSIGN:
					moved_from = true;
					a = std::move(b);
					set(i, m[j]);
					break;
				case SWAP:
					if (o.c & 1)
						a.swap(b);
					else
						swap(a, b);
					set(i, m[j]);
					set(j, m[i]);
					break;
				case RESET:
					a.reset();
					set(i, MV());
					break;
				case SET:
					// through a reference to the held object
					with(m[i].type, [&](auto I) {
						if constexpr (I != T_FIXED && I != T_TREE && I != T_CSTR) {
							T<I>& x = a.template cast<T<I>&>();
							x = make<I>(k);
							NoSim ns;
							exp[i] = model(m[i].type, k);
						}
					});
					break;
				case CAST: cast(o, a, m[i], ty); break;
				case CONVERT: convert(o, a, m[i]); break;
				case COMPARE: compare(a, b, m[i], m[j]); break;
				case COMPARE_VALUE: compare_value(a, m[i], ty, k); break;
				case SELF_PART: self_part(o, i, a, exp); break;
				case NEST: {
					// the object becomes a tree that holds another one
					Tree<Any> t;
					t.v.reserve(2);
					t.v.push_back(b);
					t.v.push_back(Any((int)k));
					a = std::move(t);
					NoSim ns;
					MV x;
					x.type = T_TREE;
					x.sub.push_back(m[j]);
					x.sub.push_back(model(T_INT, k));
					exp[i] = x;
					break;
				}
				case RELOCATE:
					if constexpr (Cfg::reloc) {
						static_assert(seq::is_relocatable<Any>::value, "");
						// the bytes move to another place
						void* n = ::operator new(sizeof(Any));
						memcpy(n, static_cast<void*>(v[i]), sizeof(Any));
						memset(static_cast<void*>(v[i]), 0xCD, sizeof(Any));
						::operator delete(static_cast<void*>(v[i]), sizeof(Any));
						v[i] = static_cast<Any*>(n);
					}
					break;
			}
		}
		// assignment of a part of what the object holds
		void self_part(const Op& o, int i, Any& a, MV* exp)
		{
			auto set = [&](const MV& x) {
				NoSim ns;
				exp[i] = x;
			};
			if (m[i].type == T_BOX) {
				Box& bx = a.template cast<Box&>();
				if (m[i].k == MOVED)
					return;
				switch (o.c % 6) {
					case 0: a = bx.e; set(model(T_ELEM, m[i].k)); break;
					case 1: a = bx.r; set(model(T_RELEM, m[i].k + 1)); break;
					case 2: a = std::move(bx.e); set(model(T_ELEM, m[i].k)); break;
					case 3: a.template emplace<Elem<false, 5>>(bx.e); set(model(T_ELEM, m[i].k)); break;
					case 4: a.template emplace<RElem>(std::move(bx.r)); set(model(T_RELEM, m[i].k + 1)); break;
					case 5: a = bx; break;
				}
			}
			else if (m[i].type == T_TREE && !m[i].sub.empty()) {
				Tree<Any>& t = a.template cast<Tree<Any>&>();
				size_t n = (size_t)o.a % t.v.size();
				MV x;
				{
					NoSim ns;
					x = m[i].sub[n];
				}
				switch (o.c % 3) {
					case 0: a = static_cast<const Any&>(t.v[n]); break;
					case 1: a = std::move(t.v[n]); break;
					case 2:
						if (x.type == T_ELEM)
							a = t.v[n].template cast<T<T_ELEM>&>();
						else if (x.type == T_INT)
							a = t.v[n].template cast<const int&>();
						else {
							NoSim ns;
							MV().sub.swap(x.sub);
							return;
						}
						break;
				}
				set(x);
				NoSim ns;
				std::vector<MV>().swap(x.sub);
			}
			else if (m[i].type == T_STRING) {
				if (o.c & 1) {
					a = std::string_view(a.template cast<std::string&>()).size() > 20 ? 1 : 0;
					set(model(T_INT, m[i].k != MOVED && (m[i].k & 1)));
				}
				else {
					// same text, other type
					const std::string& s = a.template cast<std::string&>();
					a.template emplace<seq::tstring>(s.data(), s.size());
					MV x = m[i];
					x.type = T_TSTRING;
					set(x);
				}
			}
		}
		void cast(const Op& o, Any& a, const MV& mv, int ty)
		{
			const Any& ca = a;
			if ((o.c & 3) == 3)
				ty = mv.type;
			if (ty < 0)
				ty = T_ELEM;
			with(ty, [&](auto I) {
				using X = T<I>;
				bool is = mv.type == ty;
				X* p = seq::any_cast<X>(&a);
				const X* cp = seq::any_cast<X>(&ca);
				if (is ? (p != a.data() || cp != p) : (p || cp))
					fail("CAST", "any_cast<%s>(&a) gives %s although the object holds %s", type_names[ty], p ? "a pointer" : "nullptr", mv.type < 0 ? "nothing" : type_names[mv.type]);
				bool bad = false;
				try {
					X& x = (o.c & 4) ? a.template cast<X&>() : seq::any_cast<X&>(a);
					if (&x != p)
						fail("CAST", "cast<T&>() gives another object");
				}
				catch (const std::bad_cast&) {
					bad = true;
				}
				if (bad == is)
					fail("CAST", "cast<%s&>() %s although the object holds %s", type_names[ty], bad ? "throws" : "succeeds", mv.type < 0 ? "nothing" : type_names[mv.type]);
				if constexpr (I == T_ELEM || I == T_ELEMX || I == T_SMALL || I == T_RELEM || I == T_BOX || I == T_WIDE) {
					bad = false;
					try {
						if (is) {
							X x = (o.c & 8) ? a.template cast<X>() : ca.template cast<X>();
							MV t;
							if (num<I>(x, t) != mv.k)
								fail("CAST", "cast<%s>() gives another value", type_names[ty]);
						}
					}
					catch (const std::bad_cast&) {
						bad = true;
					}
					if (bad)
						fail("CAST", "cast<%s>() throws bad_cast", type_names[ty]);
				}
			});
		}
		void convert(const Op& o, Any& a, const MV& mv)
		{
			// documented conversions: between numbers, between strings, from one to the other
			bool bad = false, possible = mv.type >= 0 && (arith(mv.type) || string(mv.type));
			if (o.c & 1) {
				std::string want;
				try {
					if (o.c & 2) {
						std::string s = a.template cast<std::string>();
						check_text(mv, s.data(), s.size());
					}
					else {
						seq::tstring s = a.template cast<seq::tstring>();
						check_text(mv, s.data(), s.size());
					}
				}
				catch (const std::bad_cast&) {
					bad = true;
				}
			}
			else {
				if (mv.k == MOVED)
					return;
				try {
					if (o.c & 2) {
						double d = a.template cast<double>();
						if (d != num(mv))
							fail("CAST", "cast<double>() gives %g", d);
					}
					else {
						long l = a.template cast<long>();
						if (l != (long)num(mv))
							fail("CAST", "cast<long>() gives %ld", l);
					}
				}
				catch (const std::bad_cast&) {
					bad = true;
				}
			}
			if (bad == possible)
				fail("CAST", "a conversion %s for %s", bad ? "throws" : "succeeds", mv.type < 0 ? "nothing" : type_names[mv.type]);
		}
		static void check_text(const MV& mv, const char* p, size_t n)
		{
			NoSim ns;
			std::string want = mv.type == T_INT ? std::to_string(mv.k) : mv.type == T_DOUBLE ? std::to_string(mv.k) + ".5" : stext(mv);
			if (std::string(p, n) != want)
				fail("CAST", "conversion to a string gives \"%.*s\", should be \"%s\"", (int)n, p, want.c_str());
		}
		template<class F>
		static int outcome(F f)
		{
			try {
				return f() ? 1 : 0;
			}
			catch (const std::bad_function_call&) {
				return -1;
			}
		}
		void compare(const Any& a, const Any& b, const MV& x, const MV& y)
		{
			int lt, gt, eq;
			if (x.type == T_UNIQUE && y.type == T_UNIQUE)
				return; // addresses are compared
			{
				NoSim ns;
				lt = model_less(x, y);
				gt = model_less(y, x);
				eq = model_eq(x, y);
			}
			auto chk = [&](const char* op, int got, int want) {
				if (got != want) {
					NoSim ns;
					fail("COMPARE", "%s %s %s gives %d, should give %d (-1: throws)", str(x).c_str(), op, str(y).c_str(), got, want);
				}
			};
			auto inv = [](int w) { return w < 0 ? w : !w; };
			chk("==", outcome([&] { return a == b; }), eq);
			chk("!=", outcome([&] { return a != b; }), !eq);
			chk("<", outcome([&] { return a < b; }), lt);
			chk(">", outcome([&] { return a > b; }), gt);
			chk("<=", outcome([&] { return a <= b; }), inv(gt));
			chk(">=", outcome([&] { return a >= b; }), inv(lt));
			if (Cfg::hash && eq && x.type >= 0 && (x.type == y.type ? string(x.type) || arith(x.type) : string(x.type))) {
				if (a.hash() != b.hash())
					fail("COMPARE", "equal objects of types %s and %s have different hash values", type_names[x.type], type_names[y.type]);
			}
		}
		void compare_value(const Any& a, const MV& x, int ty, long k)
		{
			with(ty, [&](auto I) {
				if constexpr (I == T_INT || I == T_DOUBLE || I == T_STRING || I == T_TSTRING || I == T_ELEM || I == T_SMALL || I == T_RELEM) {
					const T<I> val = make<I>(k);
					MV y;
					y.type = I;
					y.k = k;
					int lt = model_less(x, y), gt = model_less(y, x);
					bool eq = model_eq(x, y);
					auto chk = [&](const char* op, int got, int want) {
						if (got != want) {
							NoSim ns;
							fail("COMPARE", "%s %s %s gives %d, should give %d (-1: throws)", str(x).c_str(), op, str(y).c_str(), got, want);
						}
					};
					auto inv = [](int w) { return w < 0 ? w : !w; };
					chk("== value", outcome([&] { return a == val; }), eq);
					chk("!= value", outcome([&] { return a != val; }), !eq);
					chk("< value", outcome([&] { return a < val; }), lt);
					chk("> value", outcome([&] { return a > val; }), gt);
					chk("<= value", outcome([&] { return a <= val; }), inv(gt));
					chk(">= value", outcome([&] { return a >= val; }), inv(lt));
				}
			});
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live = g_live;
			r = Rng((uint64_t)p.get("rng", 1));
			for (int i = 0; i < NS; ++i) {
				v[i] = static_cast<Any*>(::operator new(sizeof(Any)));
				new (v[i]) Any();
				same(i, "construction");
			}
			mark_nontrivial();
			int n = 0;
			for (const Op& o : p.tasks[0]) {
				int i = (int)(o.c >> 8) % NS, j = (int)(o.c >> 12) % NS;
				MV exp[NS], old[NS];
				{
					NoSim ns;
					for (int q = 0; q < NS; ++q)
						exp[q] = old[q] = m[q];
					std::string s = std::to_string(n) + ": " + show_op(p, o);
					for (int q = 0; q < NS; ++q)
						s += std::string(q ? ", " : "  [") + char('A' + q) + "=" + str(m[q]);
					logf("%s]", s.c_str());
				}
				int what = 0; // 1: failed by injection, 2: not copyable
				bool moved_from = false;
				progress();
				begin_op(o);
				try {
					apply(o, i, j, exp, moved_from);
				}
				catch (const Injected&) {
					what = 1;
				}
				catch (const std::bad_alloc&) {
					what = 1;
				}
				catch (const std::bad_function_call&) {
					what = 2;
				}
				int f = end_op();
				if (what == 1 && !f)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				logf("   -> %s", what == 1 ? "threw" : what == 2 ? "not copyable" : "ok");
				bool copies = o.code == COPYCTOR || o.code == COPYASSIGN || o.code == NEST || (o.code == SELF_PART && (m[i].type == T_TREE));
				bool nocopy = copies && move_only(m[o.code == SELF_PART ? i : j]);
				if (what == 2 && !nocopy)
					fail("EXCEPTION", "%s throws bad_function_call", op_names[o.code]);
				if (what == 0 && nocopy && o.code != SELF_PART && !(i == j && o.code != NEST))
					fail("CONTENTS", "%s of a move-only object succeeds", op_names[o.code]);
				std::string w;
				{
					NoSim ns;
					w = std::string(op_names[o.code]) + (what == 1 ? " that threw" : what == 2 ? " of a move-only object" : "");
				}
				for (int q = 0; q < NS; ++q) {
					if (what == 0) {
						bool src = moved_from && q == j;
						if (!src) {
							{
								NoSim ns;
								m[q] = exp[q];
							}
							same(q, w.c_str());
						}
						else
							one_of(q, w.c_str(), { old[j], moved(old[j]), MV(), old[i] });
					}
					else if (q == i || (q == j && (moved_from || o.code == SWAP)))
						one_of(q, w.c_str(), { old[q], exp[q], MV(), q == j || o.code == SWAP || o.code == SELF_PART ? moved(old[q]) : old[q], o.code == SWAP ? moved(old[q == i ? j : i]) : old[q], o.code == SWAP ? old[q == i ? j : i] : old[q] });
					else
						same(q, w.c_str());
				}
				NoSim ns;
				++n;
				std::string().swap(w);
				for (int q = 0; q < NS; ++q) {
					exp[q].sub = std::vector<MV>();
					old[q].sub = std::vector<MV>();
				}
			}
			Op o;
			o.fk = F_ALLOC_P;
			o.fn = 1;
			begin_op(o);
			for (int i = 0; i < NS; ++i) {
				v[i]->~Any();
				::operator delete(static_cast<void*>(v[i]), sizeof(Any));
			}
			end_op();
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
			if (g_live != live)
				fail("LEAK", "%ld objects were never destroyed", g_live - live);
		}
		static bool move_only(const MV& a)
		{
			if (a.type == T_UNIQUE)
				return true;
			for (const MV& s : a.sub)
				if (move_only(s))
					return true;
			return false;
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
