// The input stream adapters of charconv over simulated files and streams: short reads, errors, failing seeks,
// sources that cannot seek, failing opens and allocations, against an independent reader of the same text.
#pragma once
#include "common.hpp"
#include <cmath>
#include <cstdio>
#include <istream>
#include <memory>
#include <streambuf>
#include <string>
#include <vector>
namespace sm
{
	FILE* sim_fopen(const char* name, const char* mode) noexcept;
}
#define fopen sm::sim_fopen
#include <seq/tiny_string.hpp>
#include <seq/charconv.hpp>
#undef fopen

namespace sm
{
	using namespace h;

	enum
	{
		GETC,
		READ,
		BACK,
		SEEK,
		INT,
		DBL,
		WORD,
		LINE,
		REOPEN,
		NOTOPEN,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan& p, const Op& o);
	void gen(Plan& p, Rng& r);
	std::string make_text(const Plan& p);

	enum Kind
	{
		BUF,
		FIL,
		STD
	};
	using State = seq::StreamState;

	// where the characters come from
	struct Device
	{
		size_t n = 0, at = 0, piece = 1;
		bool seekable = true, throws = false, one_seek = false;
		int closed = 0;
		// of the current operation
		bool err = false, seeked = false, seek_err = false;
		size_t err_at = 0;
		void begin() { err = seeked = seek_err = false; }
		bool error()
		{
			if (!fault_point(F_IO_ERR))
				return false;
			if (seeked)
				seek_err = true; // hit a read that belongs to a seek, or follows one
			else {
				err = true;
				err_at = at;
			}
			return true;
		}
		size_t take(size_t want)
		{
			size_t k = std::min(std::min(want, piece), n - at);
			if (k > 1 && fault_point(F_IO_SHORT))
				k = 1;
			return k;
		}
		bool seek_to(size_t pos)
		{
			if (!seekable || pos > n)
				return false;
			// the C library loses its position when the second of the two seeks it makes for one fseek() fails
			if (!(one_seek && seeked) && fault_point(F_IO_SEEK)) {
				seek_err = true;
				return false;
			}
			seeked = true;
			at = pos;
			return true;
		}
	};
	extern Device* g_dev;
	extern const char* g_text;
	FILE* open_dev(int bufsize); // a FILE over g_dev

	template<class Ch>
	struct InBuf : std::basic_streambuf<Ch>
	{
		using Tr = std::char_traits<Ch>;
		using pos_type = typename Tr::pos_type;
		using off_type = typename Tr::off_type;
		Device* d;
		Ch* text;
		InBuf(Device* dev, Ch* t)
		  : d(dev)
		  , text(t)
		{
		}
		typename Tr::int_type underflow() override
		{
			if (d->error()) {
				if (d->throws)
					throw Injected{ F_IO_ERR };
				return Tr::eof();
			}
			size_t k = d->take(size_t(-1));
			if (k == 0)
				return Tr::eof();
			Ch* p = text + d->at;
			this->setg(p, p, p + k);
			d->at += k;
			return Tr::to_int_type(*p);
		}
		size_t where() const { return d->at - (size_t)(this->egptr() - this->gptr()); }
		pos_type to(size_t pos)
		{
			bool was = d->seek_err;
			if (!d->seek_to(pos)) {
				if (d->throws && d->seek_err && !was)
					throw Injected{ F_IO_SEEK };
				return pos_type(off_type(-1));
			}
			this->setg(nullptr, nullptr, nullptr);
			return pos_type((off_type)pos);
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
		{
			if (!d->seekable)
				return pos_type(off_type(-1));
			if (dir == std::ios_base::cur && off == 0) {
				if (fault_point(F_IO_SEEK)) {
					d->seek_err = true;
					if (d->throws)
						throw Injected{ F_IO_SEEK };
					return pos_type(off_type(-1));
				}
				return pos_type((off_type)where());
			}
			off_type base = dir == std::ios_base::cur ? (off_type)where() : dir == std::ios_base::end ? (off_type)d->n : 0;
			if (base + off < 0)
				return pos_type(off_type(-1));
			return to((size_t)(base + off));
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode) override
		{
			if (off_type(p) < 0)
				return pos_type(off_type(-1));
			return to((size_t)off_type(p));
		}
	};

	inline bool sp(long c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
	inline bool eol(long c) { return c == '\n' || c == '\r'; }
	inline bool dig(long c) { return c >= '0' && c <= '9'; }
	inline int digit(long c) { return dig(c) ? (int)(c - '0') : c >= 'a' && c <= 'z' ? (int)(c - 'a') + 10 : c >= 'A' && c <= 'Z' ? (int)(c - 'A') + 10 : 99; }

	template<class Cfg>
	struct Runner
	{
		using S = typename Cfg::S;
		using Ch = typename S::char_type;
		using Str = std::basic_string<Ch>;
		static constexpr Kind kind = Cfg::kind;

		enum St
		{
			OK,
			END,
			BAD,
			FAILED // END or BAD
		};
		struct Out
		{
			long double v = 0;
			Str s;
			size_t pos = 0;
			St st = OK;
			bool anyv = false;
			bool near_ = false;
			long double tol = 0;
		};

		Device dev;
		std::vector<char> narrow; // what the FILE reads
		Ch* T = nullptr;
		size_t n = 0, pos = 0, high = 0;
		St st = OK;
		bool pipe = false, mask = false, own = false;
		int vbuf = 0;
		FILE* f = nullptr;
		std::unique_ptr<InBuf<Ch>> ib;
		std::unique_ptr<std::basic_istream<Ch>> is;
		S* s = nullptr;

		static St of(State x) { return x == seq::Ok ? OK : x == seq::EndOfFile ? END : BAD; }
		static const char* name(St x)
		{
			static const char* const t[] = { "Ok", "EndOfFile", "BadInputFormat", "a failure" };
			return t[x];
		}

		// ------------------------------------------------------------ the reader the streams are compared with
		long at(size_t i, size_t L) const { return i < L ? (long)T[i] : -1; }
		void ref_int(Out& o, size_t p, size_t L, int base, bool sgn, int bits) const
		{
			size_t save = p;
			while (p < L && sp(T[p]))
				++p;
			if (p == L) {
				o.pos = L;
				o.st = END;
				return;
			}
			bool neg = false;
			if (T[p] == '+' || T[p] == '-') {
				neg = T[p] == '-';
				++p;
			}
			size_t first = p;
			if (neg && !sgn) {
				o.pos = save;
				o.st = FAILED;
				return;
			}
			if (base == 16 && at(p, L) == '0' && (at(p + 1, L) == 'x' || at(p + 1, L) == 'X')) {
				p += 2;
				first = p;
			}
			unsigned __int128 v = 0;
			bool over = false;
			while (p < L && digit(T[p]) < base) {
				v = v * (unsigned)base + (unsigned)digit(T[p]);
				if (v >> 100)
					v = (unsigned __int128)1 << 99;
				++p;
			}
			if (p == first) {
				o.pos = save;
				o.st = FAILED;
				return;
			}
			if (v >> (bits - (sgn ? 1 : 0)))
				over = true;
			o.pos = p;
			o.st = OK;
			o.anyv = over;
			if (!over)
				o.v = neg ? -(long double)(int64_t)v : (long double)(uint64_t)v;
		}
		bool ref_dbl(Out& o, size_t p, size_t L, bool flt) const
		{
			while (p < L && sp(T[p]))
				++p;
			size_t b = p;
			if (p < L && (T[p] == '+' || T[p] == '-'))
				++p;
			size_t d = p;
			while (p < L && dig(T[p]))
				++p;
			if (p == d)
				return false;
			if (p < L && T[p] == '.') {
				++p;
				while (p < L && dig(T[p]))
					++p;
			}
			if (p < L && (T[p] == 'e' || T[p] == 'E')) {
				++p;
				if (p < L && (T[p] == '+' || T[p] == '-'))
					++p;
				size_t e = p;
				while (p < L && dig(T[p]))
					++p;
				if (p == e || p - e > 2 || (p - e == 2 && T[e] > '1'))
					return false;
			}
			if (p < L && !sp(T[p]))
				return false;
			std::string t(T + b, T + p);
			o.v = std::strtold(t.c_str(), nullptr);
			long double a = std::fabs(o.v);
			if (a != 0 && (a > 1e30 || a < 1e-30))
				return false;
			o.near_ = true;
			o.tol = a * (flt ? 1e-5 : 1e-9);
			o.pos = p;
			o.st = OK;
			return true;
		}
		void ref_word(Out& o, size_t p, size_t L, bool line) const
		{
			while (p < L && sp(T[p]))
				++p;
			if (p == L) {
				o.pos = L;
				o.st = END;
				return;
			}
			size_t b = p;
			while (p < L && !(line ? eol(T[p]) : sp(T[p])))
				++p;
			o.s.assign(T + b, p - b);
			o.pos = p;
			o.st = OK;
		}
		static int base_of(const Op& o)
		{
			static const int b[] = { 10, 10, 16, 16, 2, 36, 8, 7 };
			return b[o.a & 7];
		}
		static seq::chars_format fmt_of(const Op& o) { return (o.a >> 3) % 6 == 0 ? seq::scientific : (o.a >> 3) % 6 == 1 ? seq::fixed : seq::general; }
		static char dot_of(const Op& o) { return (o.a >> 6) % 8 == 0 ? ',' : '.'; }
		// what the operation gives if the text ends at L
		Out expect(const Op& o, size_t L, size_t arg)
		{
			Out r;
			r.pos = pos;
			r.st = st;
			switch (o.code) {
				case GETC:
					if (pos < L)
						r.v = (long)T[r.pos++];
					else {
						r.v = EOF;
						r.st = END;
					}
					break;
				case READ: {
					size_t k = std::min(arg, L - pos);
					r.s.assign(T + pos, k);
					r.v = (long)k;
					r.pos += k;
					if (k < arg)
						r.st = END;
					break;
				}
				case BACK:
					if (r.pos)
						--r.pos;
					break;
				case SEEK: r.pos = arg; break;
				case INT:
					switch (o.b & 3) {
						case 0: ref_int(r, pos, L, base_of(o), true, 64); break;
						case 1: ref_int(r, pos, L, base_of(o), true, 32); break;
						case 2: ref_int(r, pos, L, base_of(o), false, 16); break;
						default: ref_int(r, pos, L, base_of(o), false, 64); break;
					}
					break;
				case DBL: {
					if (fmt_of(o) == seq::general && dot_of(o) == '.' && ref_dbl(r, pos, L, (o.b & 3) == 0))
						break;
					seq::buffer_input_stream<Ch> b(T, L);
					b.seek(pos);
					switch (o.b & 3) {
						case 0: {
							float v;
							seq::from_stream(b, v, fmt_of(o), dot_of(o));
							r.v = v;
							break;
						}
						case 1: {
							long double v;
							seq::from_stream(b, v, fmt_of(o), dot_of(o));
							r.v = v;
							break;
						}
						default: {
							double v;
							seq::from_stream(b, v, fmt_of(o), dot_of(o));
							r.v = v;
						}
					}
					r.pos = b.tell();
					r.st = of(b.state());
					break;
				}
				case WORD: ref_word(r, pos, L, false); break;
				case LINE: ref_word(r, pos, L, true); break;
			}
			return r;
		}
		static bool same(const Out& e, const Out& g)
		{
			if (e.pos != g.pos || e.s != g.s)
				return false;
			if (e.st == FAILED ? g.st == OK : e.st != g.st)
				return false;
			if (e.anyv)
				return true;
			if (e.near_)
				return std::fabs(e.v - g.v) <= e.tol;
			return e.v == g.v || (std::isnan(e.v) && std::isnan(g.v));
		}
		static std::string str(const Out& o)
		{
			char b[100];
			snprintf(b, sizeof(b), "%.12Lg, position %zu, state %s", o.v, o.pos, name(o.st));
			std::string r = b;
			if (!o.s.empty()) {
				r += ", text '";
				for (Ch c : o.s)
					r += c >= 32 && c < 127 ? (char)c : '?';
				r += "'";
			}
			if (o.anyv)
				r = "any value, " + r;
			return r;
		}

		// ------------------------------------------------------------ the stream under test
		void open_source(size_t start)
		{
			NoSim ns;
			g_dev = &dev;
			if (kind == FIL) {
				f = open_dev(vbuf);
				if (start)
					fseek(f, (long)start, SEEK_SET);
			}
			else if (kind == STD) {
				ib.reset(new InBuf<Ch>(&dev, T));
				is.reset(new std::basic_istream<Ch>(ib.get()));
				if (start)
					is->seekg((long)start);
				if (mask)
					is->exceptions(std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
			}
		}
		void open_stream(long how)
		{
			NoFault nf;
			if constexpr (kind == BUF) {
				new (s) S(T, n);
				s->seek(pos);
			}
			else if constexpr (kind == FIL) {
				if (how & 1)
					new (s) S(f, own);
				else {
					new (s) S();
					s->open(f, own);
				}
			}
			else {
				if (how & 1)
					new (s) S(*is);
				else {
					new (s) S();
					s->open(*is);
				}
			}
			if (!s->is_open())
				fail("STREAM", "the stream is not open");
			if (s->tell() != pos)
				fail("STREAM", "a stream opened on a source at position %zu is at position %zu", pos, (size_t)s->tell());
			if (s->state() != seq::Ok)
				fail("STREAM", "a stream that was just opened is in state %s", name(of(s->state())));
			st = OK;
		}
		Out perform(const Op& o, size_t arg)
		{
			Out g;
			switch (o.code) {
				case GETC: g.v = (long)s->getc(); break;
				case READ: {
					Ch* d = static_cast<Ch*>(::operator new(arg * sizeof(Ch)));
					size_t k = (size_t)s->read(d, arg);
					{
						NoSim ns;
						if (k > arg)
							fail("STREAM", "read() of %zu characters says that it read %zu", arg, k);
						g.v = (long)k;
						g.s.assign(d, k);
					}
					::operator delete(d);
					break;
				}
				case BACK: s->back(); break;
				case SEEK: s->seek(arg); break;
				case INT:
					switch (o.b & 3) {
						case 0: {
							int64_t v = 77;
							seq::from_stream(*s, v, base_of(o));
							g.v = v;
							break;
						}
						case 1: {
							int v = 77;
							seq::from_stream(*s, v, base_of(o));
							g.v = v;
							break;
						}
						case 2: {
							unsigned short v = 77;
							seq::from_stream(*s, v, base_of(o));
							g.v = v;
							break;
						}
						default: {
							uint64_t v = 77;
							seq::from_stream(*s, v, base_of(o));
							g.v = v;
						}
					}
					break;
				case DBL:
					switch (o.b & 3) {
						case 0: {
							float v = 77;
							seq::from_stream(*s, v, fmt_of(o), dot_of(o));
							g.v = v;
							break;
						}
						case 1: {
							long double v = 77;
							seq::from_stream(*s, v, fmt_of(o), dot_of(o));
							g.v = v;
							break;
						}
						default: {
							double v = 77;
							seq::from_stream(*s, v, fmt_of(o), dot_of(o));
							g.v = v;
						}
					}
					break;
				case WORD:
				case LINE:
					if (o.b & 1) {
						Str v(3, Ch('q'));
						if (o.code == WORD)
							seq::from_stream(*s, v);
						else
							seq::read_line_from_stream(*s, v);
						NoSim ns;
						g.s.assign(v.data(), v.size());
					}
					else {
						seq::tiny_string<Ch> v(3, Ch('q'));
						if (o.code == WORD)
							seq::from_stream(*s, v);
						else
							seq::read_line_from_stream(*s, v);
						NoSim ns;
						g.s.assign(v.data(), v.size());
					}
					break;
			}
			g.pos = (size_t)s->tell();
			g.st = of(s->state());
			return g;
		}
		// after a failure that leaves the position open: characters and position still belong together
		void settle(const char* what)
		{
			NoFault nf;
			pos = (size_t)s->tell();
			if (pos > n)
				fail("STREAM", "after %s the stream is at position %zu of a text of %zu characters", what, pos, n);
			s->set_state(seq::Ok);
			long c = (long)s->getc();
			if (c != at(pos, n))
				fail("STREAM", "after %s the stream is at position %zu and gives character %ld, the text has %ld there", what, pos, c, at(pos, n));
			if (pos < n)
				++pos;
			st = of(s->state());
		}
		void reopen(const Op& o, bool faulty)
		{
			long how = o.a >> 4;
			if (o.a & 1)
				s->close();
			else {
				s->~S();
				new (s) S();
			}
			if (s->is_open() || s->state() != seq::Ok)
				fail("STREAM", "a stream that was closed is open");
			NoFault nf;
			if (kind == FIL) {
				long p = ftell(f);
				if (!faulty && p != (long)pos)
					fail("STREAM", "the stream was closed at position %zu and leaves its FILE at position %ld", pos, p);
				if (dev.closed)
					fail("STREAM", "closing the stream closes a FILE that it does not own");
				int c = fgetc(f);
				if (!faulty && c != at(pos, n))
					fail("STREAM", "the FILE gives character %d after the stream was closed at position %zu, the text has %ld there", c, pos, at(pos, n));
				NoSim ns;
				clearerr(f);
				fseek(f, (long)pos, SEEK_SET);
			}
			else if (kind == STD) {
				NoSim ns;
				is->exceptions(std::ios_base::goodbit);
				if (!faulty && is->rdstate() != std::ios_base::goodbit)
					fail("STREAM", "closing the stream leaves its istream in state %d", (int)is->rdstate());
				is->clear();
				long p = (long)is->tellg();
				if (!faulty && p != (long)pos)
					fail("STREAM", "the stream was closed at position %zu and leaves its istream at position %ld", pos, p);
				is->clear();
				is->seekg((long)pos);
				if (mask)
					is->exceptions(std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
			}
			if (!(o.a & 1))
				s->~S();
			else
				s->~S(); // closing twice does nothing
			open_stream(how);
		}
		// a stream whose source could not be opened
		void not_open(const Op& o)
		{
			void* mem = ::operator new(sizeof(S));
			S* x;
			if constexpr (kind == FIL) {
				if (o.a & 1)
					x = new (mem) S("missing", "r");
				else
					x = new (mem) S();
			}
			else if constexpr (kind == STD) {
				std::basic_istream<Ch>* broken;
				{
					NoSim ns;
					broken = new std::basic_istream<Ch>(nullptr);
				}
				if (o.a & 1)
					x = new (mem) S(*broken);
				else
					x = new (mem) S();
				NoSim ns;
				delete broken;
			}
			else
				x = new (mem) S();
			if (x->is_open())
				fail("STREAM", "a stream that could not be opened is open");
			if (x->tell() != 0)
				fail("STREAM", "a stream that could not be opened is at position %zu", (size_t)x->tell());
			Ch b[4];
			for (int k = 0; k < 4; ++k) {
				switch ((o.b + k) % 6) {
					case 0:
						if ((long)x->getc() != EOF || x->state() != seq::EndOfFile)
							fail("STREAM", "a stream that could not be opened gives a character");
						break;
					case 1:
						if (x->read(b, 4) != 0 || x->state() != seq::EndOfFile)
							fail("STREAM", "a stream that could not be opened gives characters");
						break;
					case 2: x->back(); break;
					case 3: x->seek(0); break;
					case 4: {
						int v = 77;
						seq::from_stream(*x, v);
						if (v != 0 || *x)
							fail("STREAM", "a stream that could not be opened gives the number %d", v);
						break;
					}
					case 5: {
						double v = 77;
						seq::from_stream(*x, v);
						if (v != 0 || *x)
							fail("STREAM", "a stream that could not be opened gives the number %g", v);
						break;
					}
				}
				if (x->tell() != 0)
					fail("STREAM", "a stream that could not be opened is at position %zu", (size_t)x->tell());
			}
			x->~S();
			::operator delete(mem);
		}

		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			size_t start = 0;
			{
				NoSim ns;
				std::string t = make_text(p);
				n = t.size();
				logf("text: %s", show(t).c_str());
				narrow.assign(t.begin(), t.end());
				dev.n = n;
				dev.piece = (size_t)std::max(p.get("piece", 1), 1l);
				pipe = kind != BUF && p.get("pipe") != 0;
				dev.seekable = !pipe;
				dev.one_seek = kind == FIL;
				mask = p.get("mask") != 0;
				dev.throws = p.get("throws") != 0 && !pipe;
				own = p.get("own") != 0;
				vbuf = (int)p.get("vbuf");
				start = pipe ? 0 : std::min((size_t)p.get("start"), n);
				g_text = narrow.data();
			}
			T = static_cast<Ch*>(::operator new((n ? n : 1) * sizeof(Ch)));
			for (size_t i = 0; i < n; ++i)
				T[i] = Cfg::wide && narrow[i] == '~' ? (Ch)0x161 : (Ch)narrow[i];
			open_source(start);
			pos = high = start;
			s = static_cast<S*>(::operator new(sizeof(S)));
			open_stream(p.get("start"));
			std::vector<Out> want;
			Out got;
			for (const Op& o : p.tasks[0]) {
				progress();
				size_t arg = o.code == READ ? (size_t)o.a % 80 + 1 : o.code == SEEK ? (n ? (size_t)o.a % (n + 1) : 0) : 0;
				bool fromb = o.code == SEEK && (o.b & 1);
				if (fromb) {
					// a short way back or forward
					long q = (long)pos + (long)(o.b >> 1) % 24 - 14;
					arg = (size_t)std::min(std::max(q, 0l), (long)n);
				}
				if (pipe && (o.code == REOPEN || o.code == SEEK))
					continue;
				if (pipe && o.code == BACK && pos + 6 < high)
					continue; // a source that cannot seek gives back a few characters only
				if (o.code == REOPEN && (kind == BUF || own))
					continue;
				logf("%s at %zu", show_op(p, o).c_str(), pos);
				dev.begin();
				int thrown = 0;
				size_t was = pos;
				begin_op(o);
				try {
					if (o.code == NOTOPEN)
						not_open(o);
					else if (o.code != REOPEN)
						got = perform(o, arg);
					else {
						// the failures hit close() only
						reopen(o, o.fk == F_IO_SEEK || o.fk == F_IO_ERR);
					}
				}
				catch (const std::bad_alloc&) {
					thrown = 1;
				}
				catch (const Injected&) {
					thrown = 2;
				}
				int fl = end_op();
				if (thrown == 2)
					fail("EXCEPTION", "%s lets the exception of the source out", op_names[o.code]);
				if (thrown == 1 && !fl)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				if (o.code == NOTOPEN || o.code == REOPEN)
					continue;
				if (thrown) {
					settle("a failed allocation");
					high = std::max(high, pos);
					continue;
				}
				if (fl && dev.seek_err) {
					settle("a failed seek");
					continue;
				}
				NoSim ns;
				logf("   -> %s", str(got).c_str());
				want.clear();
				want.push_back(expect(o, n, arg));
				if (dev.err && dev.err_at >= was)
					want.push_back(expect(o, dev.err_at, arg));
				if (dev.err && dev.throws) // istream::read() does not tell what it extracted before the exception: the input may end earlier
					for (size_t L = was; L < dev.err_at; ++L)
						want.push_back(expect(o, L, arg));
				bool ok = false;
				for (const Out& e : want)
					ok = ok || same(e, got);
				if (!ok)
					fail("STREAM", "%s at position %zu%s gives %s; the text has %s%s%s", op_names[o.code], was, dev.err ? " with a read error" : "", str(got).c_str(), str(want[0]).c_str(), want.size() > 1 ? ", or, ending at the error, " : "", want.size() > 1 ? str(want[1]).c_str() : "");
				pos = got.pos;
				st = got.st;
				high = std::max(high, pos);
				mark_nontrivial();
				state_hash(pos * 31 + (size_t)o.code + (size_t)got.st * 1000);
			}
			{
				Op o;
				o.fk = F_ALLOC_P;
				o.fn = 1;
				begin_op(o);
				s->~S();
				end_op();
				::operator delete(s);
			}
			{
				NoSim ns;
				if (kind == FIL) {
					if (dev.closed != (own ? 1 : 0))
						fail("STREAM", "the FILE that the stream %s was closed %d times", own ? "owns" : "does not own", dev.closed);
					if (!own)
						fclose(f);
				}
				is.reset();
				ib.reset();
				want.clear();
				want.shrink_to_fit();
				got = Out();
			}
			::operator delete(T);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
		static std::string show(const std::string& t)
		{
			std::string r = "'";
			for (char c : t)
				r += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : c == '\r' ? std::string("\\r") : std::string(1, c);
			return r + "'";
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
