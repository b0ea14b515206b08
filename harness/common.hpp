// Element types with lifetime tracking and fault points, shared by all harnesses.
#pragma once
#include "../sim/sim.hpp"
#include <cstring>
#include <type_traits>
#include <utility>

namespace h
{
	using namespace sim;

	constexpr uint32_t ALIVE = 0x600DA11Eu;
	constexpr uint32_t DEAD = 0xDEADBEEFu;

	extern long g_live; // live tracked objects (inside the simulated heap or not)
	void live_add(long n) noexcept; // out of line: never kept in a register across a scheduling point

	// Lifetime tracking. `self` detects objects that were relocated by copying their bytes.
	struct Life
	{
		uint32_t magic;
		uint32_t reloc_ok;
		const void* self;

		void born(const char* what)
		{
			NoSim ns;
			// constructing over a live object leaks it
			if (in_arena(this) && magic == ALIVE && self == this)
				fail("LIFETIME", "%s constructed over a live object", what);
			magic = ALIVE;
			reloc_ok = 0;
			self = this;
			live_add(1);
		}
		void check(const char* what) const
		{
			NoSim ns;
			if (magic != ALIVE)
				fail("LIFETIME", "%s used while not alive (%s)", what, magic == DEAD ? "already destroyed" : "never constructed");
			if (self != this)
				fail("LIFETIME", "%s was relocated bytewise although its type is not trivially relocatable", what);
		}
		void dead(const char* what)
		{
			NoSim ns;
			if (magic != ALIVE)
				fail("LIFETIME", "%s destroyed while not alive (%s)", what, magic == DEAD ? "already destroyed" : "never constructed");
			if (self != this)
				fail("LIFETIME", "%s was relocated bytewise although its type is not trivially relocatable", what);
			magic = DEAD;
			self = nullptr;
			live_add(-1);
		}
	};

	constexpr long MOVED = -777777; // content of a moved-from element

	// the compiler takes the alignment of an object for granted: hide where the address comes from
	inline uintptr_t address_of(const void* p)
	{
		uintptr_t a = reinterpret_cast<uintptr_t>(p);
		__asm__ volatile("" : "+r"(a));
		return a;
	}
	template<class T>
	inline void check_align(const T* p)
	{
		if (size_t m = address_of(p) % alignof(T))
			fail("ALIGNMENT", "an element that needs %zu bytes alignment is constructed at an address that has %zu modulo %zu", alignof(T), m, alignof(T));
	}
	// Copies may throw. ThrowC: move construction may throw, ThrowA: move assignment may throw.
	template<bool ThrowC, int Tag, bool ThrowA = ThrowC, size_t Align = 8>
	struct alignas(Align) Elem
	{
		static constexpr bool throwing_moves = ThrowC || ThrowA;
		Life l;
		long v;
		long dup;

		Elem()
		{
			maybe_throw(F_CTOR);
			l.born("element");
			check_align(this);
			v = dup = 0;
		}
		explicit Elem(long x)
		{
			maybe_throw(F_CTOR);
			l.born("element");
			check_align(this);
			v = dup = x;
		}
		Elem(const Elem& o)
		{
			o.l.check("copied element");
			maybe_throw(F_COPY);
			l.born("element");
			check_align(this);
			v = o.v;
			dup = o.dup;
		}
		Elem(Elem&& o) noexcept(!ThrowC)
		{
			o.l.check("moved element");
			if constexpr (ThrowC)
				maybe_throw(F_MOVE);
			l.born("element");
			check_align(this);
			v = o.v;
			dup = o.dup;
			o.v = o.dup = MOVED;
		}
		Elem& operator=(const Elem& o)
		{
			l.check("assigned element");
			o.l.check("copied element");
			maybe_throw(F_COPY);
			v = o.v;
			dup = o.dup;
			return *this;
		}
		Elem& operator=(Elem&& o) noexcept(!ThrowA)
		{
			l.check("assigned element");
			o.l.check("moved element");
			if constexpr (ThrowA)
				maybe_throw(F_MOVE);
			long a = o.v, b = o.dup;
			if (&o != this)
				o.v = o.dup = MOVED;
			v = a;
			dup = b;
			return *this;
		}
		~Elem() { l.dead("element"); }

		long get() const
		{
			l.check("read element");
			long a = v, b = dup;
			if (a != b)
				fail("TORN-READ", "an element is seen half written (%ld / %ld)", a, b);
			return a;
		}
		void set(long x)
		{
			l.check("written element");
			v = x;
			point();
			dup = x;
		}
		bool operator==(const Elem& o) const
		{
			l.check("compared element");
			o.l.check("compared element");
			maybe_throw(F_CMP);
			return v == o.v;
		}
		bool operator!=(const Elem& o) const { return !(*this == o); }
		bool operator<(const Elem& o) const
		{
			l.check("compared element");
			o.l.check("compared element");
			maybe_throw(F_CMP);
			return v < o.v;
		}
		bool operator>(const Elem& o) const { return o < *this; }
		bool operator<=(const Elem& o) const { return !(o < *this); }
		bool operator>=(const Elem& o) const { return !(*this < o); }
	};

	template<class T, class = void>
	struct moves_throw : std::false_type
	{
	};
	template<class T>
	struct moves_throw<T, std::void_t<decltype(T::throwing_moves)>> : std::bool_constant<T::throwing_moves>
	{
	};

	// Owns memory through a plain pointer: duplicating its bytes is a double free, losing them is a leak.
	// Declared relocatable to seq (see H_RELEM_TRAITS).
	struct RElem
	{
		long* p;

		RElem()
		{
			maybe_throw(F_CTOR);
			p = new long(0);
		}
		explicit RElem(long x)
		{
			maybe_throw(F_CTOR);
			p = new long(x);
		}
		RElem(const RElem& o)
		{
			maybe_throw(F_COPY);
			p = o.p ? new long(*o.p) : nullptr;
		}
		RElem(RElem&& o) noexcept
		  : p(o.p)
		{
			o.p = nullptr;
		}
		RElem& operator=(const RElem& o)
		{
			maybe_throw(F_COPY);
			if (this != &o) {
				long* n = o.p ? new long(*o.p) : nullptr;
				delete p;
				p = n;
			}
			return *this;
		}
		RElem& operator=(RElem&& o) noexcept
		{
			if (this != &o) {
				long* n = o.p;
				o.p = nullptr;
				delete p;
				p = n;
			}
			return *this;
		}
		~RElem()
		{
			delete p;
			p = reinterpret_cast<long*>(0x10); // a second destruction is a bad free
		}
		long get() const { return p ? *p : MOVED; }
		void set(long x)
		{
			if (p)
				*p = x;
		}
		bool operator==(const RElem& o) const
		{
			maybe_throw(F_CMP);
			return get() == o.get();
		}
		bool operator!=(const RElem& o) const { return !(*this == o); }
		bool operator<(const RElem& o) const
		{
			maybe_throw(F_CMP);
			return get() < o.get();
		}
		bool operator>(const RElem& o) const { return o < *this; }
		bool operator<=(const RElem& o) const { return !(o < *this); }
		bool operator>=(const RElem& o) const { return !(*this < o); }
	};

	template<class T>
	inline long val(const T& x)
	{
		if constexpr (std::is_arithmetic_v<T>)
			return (long)x;
		else
			return x.get();
	}

	inline bool chance_fault(Rng& r, Op& o, const int* kinds, int n, unsigned num, unsigned den, unsigned bits)
	{
		if (!r.chance(num, den))
			return false;
		o.fk = kinds[r.below((uint64_t)n)];
		o.fn = (int)r.logu(bits);
		return true;
	}
}
