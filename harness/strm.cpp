#include "strm.hpp"
#include <cerrno>
namespace sm
{
	const char* const op_names[NOPS] = { "getc", "read", "back", "seek", "read integer", "read real", "read word", "read line", "close and reopen", "use of a stream that is not open" };
	Device* g_dev;
	const char* g_text;
	static char g_vbuf[4096];

	static ssize_t rd(void* c, char* buf, size_t k)
	{
		Device* d = static_cast<Device*>(c);
		if (d->error()) {
			errno = EIO;
			return -1;
		}
		k = d->take(k);
		memcpy(buf, g_text + d->at, k);
		d->at += k;
		return (ssize_t)k;
	}
	static int sk(void* c, off64_t* off, int whence)
	{
		Device* d = static_cast<Device*>(c);
		off64_t p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (off64_t)d->at + *off : (off64_t)d->n + *off;
		if (!d->seekable) {
			errno = ESPIPE;
			return -1;
		}
		if (p < 0 || !d->seek_to((size_t)p)) {
			errno = p < 0 ? EINVAL : EIO;
			return -1;
		}
		*off = p;
		return 0;
	}
	static int cl(void* c)
	{
		++static_cast<Device*>(c)->closed;
		return 0;
	}
	FILE* open_dev(int bufsize)
	{
		cookie_io_functions_t io = { rd, nullptr, sk, cl };
		FILE* f = fopencookie(g_dev, "r", io);
		setvbuf(f, g_vbuf, bufsize ? _IOFBF : _IONBF, (size_t)bufsize);
		return f;
	}
	FILE* sim_fopen(const char*, const char*) noexcept
	{
		errno = ENOENT;
		return nullptr;
	}
	std::string make_text(const Plan& p)
	{
		Rng r((uint64_t)p.get("text"));
		bool pipe = p.get("pipe") != 0;
		long tokens = p.get("tokens");
		std::string t;
		auto digits = [&](long k) {
			for (long i = 0; i < k; ++i)
				t += (char)('0' + r.below(10));
		};
		long maxd = pipe ? 5 : 22;
		for (long i = 0; i < tokens; ++i) {
			size_t b = t.size();
			long k = r.chance(1, 6) ? (long)r.below((uint64_t)maxd) + 1 : (long)r.below(5) + 1;
			switch (r.below(9)) {
				case 0:
					if (r.chance(1, 3))
						t += "+-"[r.below(2)];
					digits(k);
					break;
				case 1:
				case 2:
					if (r.chance(1, 3))
						t += "+-"[r.below(2)];
					digits(k);
					if (r.chance(3, 4)) {
						t += '.';
						digits(r.chance(1, 6) ? (long)r.below((uint64_t)maxd) : (long)r.below(5));
					}
					if (r.chance(1, 3)) {
						t += "eE"[r.below(2)];
						if (r.chance(1, 2))
							t += "+-"[r.below(2)];
						digits((long)r.below(3));
					}
					break;
				case 3:
					t += r.chance(1, 2) ? "0x" : "0X";
					for (long q = (long)r.below(6); q > 0; --q)
						t += "0123456789abcdefABCDEF"[r.below(22)];
					break;
				case 4:
				case 5:
					for (long q = (long)r.below(r.chance(1, 6) && !pipe ? 90 : 9); q >= 0; --q)
						t += "abcxyzNIF~_-.,019"[r.below(17)];
					break;
				case 6: {
					static const char* const special[] = { "nan", "inf", "-inf", "NaN", "na", "in", "-", "+", ".", ".5", "5.", "1e", "1e+", "1.5e-", "-x", "+-1", "--1", "0x", "1x2", "nanx", "1,5", "18446744073709551615", "-9223372036854775807", "z", "7" };
					t += special[r.below(25)];
					break;
				}
				default:
					for (long q = (long)r.below(4); q >= 0; --q)
						t += "0123456789abcdefzZ"[r.below(18)];
					break;
			}
			if (pipe && t.size() - b > 14)
				t.resize(b + 14);
			long gap = r.chance(1, 4) ? (long)r.below(r.chance(1, 4) && !pipe ? 40 : 4) : 1;
			if (i + 1 == tokens && r.chance(1, 2))
				gap = 0;
			for (long q = 0; q < gap; ++q)
				t += "    \t\n\n\r"[r.below(8)];
		}
		return t;
	}
	std::string show_op(const Plan&, const Op& o)
	{
		std::string r = op_names[o.code];
		if (o.code == READ)
			r += " " + std::to_string(o.a % 80 + 1);
		if (o.code == INT) {
			static const int b[] = { 10, 10, 16, 16, 2, 36, 8, 7 };
			static const char* const t[] = { "int64", "int", "unsigned short", "uint64" };
			r += std::string(" ") + t[o.b & 3] + " base " + std::to_string(b[o.a & 7]);
		}
		if (o.code == DBL)
			r += std::string((o.b & 3) == 0 ? " float" : (o.b & 3) == 1 ? " long double" : " double") + ((o.a >> 3) % 6 == 0 ? " scientific" : (o.a >> 3) % 6 == 1 ? " fixed" : "");
		return r;
	}
	void gen(Plan& p, Rng& r)
	{
		p.p["text"] = (long)(r.next() & 0xffffff);
		p.p["tokens"] = r.chance(1, 12) ? (long)r.below(3) : r.range(2, 40);
		p.p["piece"] = r.chance(1, 3) ? 100000 : r.chance(1, 2) ? (long)r.below(7) + 1 : (long)r.below(50) + 1;
		p.p["pipe"] = r.chance(1, 4);
		p.p["mask"] = r.chance(1, 2);
		p.p["throws"] = r.chance(1, 2);
		p.p["own"] = r.chance(1, 3);
		p.p["vbuf"] = r.chance(1, 4) ? 0 : r.chance(1, 2) ? 4096 : (long)r.below(40) + 2;
		p.p["start"] = r.chance(1, 3) ? (long)r.below(40) : 0;
		static const int w[NOPS] = { 6, 4, 4, 4, 6, 7, 5, 4, 2, 1 };
		bool on[NOPS];
		bool some = r.chance(1, 2);
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 3);
		on[GETC] = on[INT] = true;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(2, 10);
		bool faults = !r.chance(1, 5);
		p.tasks.emplace_back();
		long n = r.range(2, 50);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(100000);
			o.b = (long)r.below(1000);
			if (faults && r.chance(1, fden)) {
				static const int kinds[] = { F_IO_ERR, F_IO_ERR, F_IO_SEEK, F_IO_SHORT, F_ALLOC };
				o.fk = kinds[r.below(o.code == WORD || o.code == LINE ? 5 : 4)];
				o.fn = (int)r.logu(2);
			}
			p.tasks.back().push_back(o);
		}
	}
}
