// A small model of the C++ stream classes, used only when the sources are compiled for symbolic execution.
#pragma once
#include <iosfwd>
#include <string>
#include <iterator>
#include <exception>
#include <limits>
#include <system_error>
namespace std
{
	class ios_base
	{
	public:
		typedef unsigned fmtflags;
		typedef unsigned iostate;
		typedef unsigned openmode;
		static const fmtflags dec = 1, hex = 2, oct = 4, uppercase = 8, showbase = 16, boolalpha = 32, left = 64, right = 128, internal = 256, showpos = 512, skipws = 1024,
			fixed = 2048, scientific = 4096, basefield = 7, adjustfield = 64 | 128 | 256, floatfield = 2048 | 4096, unitbuf = 8192;
		static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
		static const openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
		class failure : public exception {};
		fmtflags flags() const { return fl_; }
		fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; }
		fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; }
		fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
		void unsetf(fmtflags f) { fl_ &= ~f; }
		streamsize width() const { return width_; }
		streamsize width(streamsize w) { auto o = width_; width_ = w; return o; }
		streamsize precision() const { return 6; }
		streamsize precision(streamsize) { return 6; }
	protected:
		fmtflags fl_ = dec | skipws;
		streamsize width_ = 0;
	};
	inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
	inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
	inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
	inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
	inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
	inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
	inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
	inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
	inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
	inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
	inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
	inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
	inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
	inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
	inline ios_base &fixed(ios_base &b) { return b; }

	template <typename C, typename T> class basic_streambuf
	{
	public:
		basic_string<C, T> s_;
		size_t pos_ = 0;
		bool discard_ = false;
		streamsize sputn(const C *p, streamsize n) { if (!discard_) s_.append(p, (size_t) n); return n; }
		typename T::int_type sputc(C c) { if (!discard_) s_.push_back(c); return T::to_int_type(c); }
		typename T::int_type sgetc() { return pos_ < s_.size() ? T::to_int_type(s_[pos_]) : T::eof(); }
		typename T::int_type sbumpc() { return pos_ < s_.size() ? T::to_int_type(s_[pos_++]) : T::eof(); }
		typename T::int_type snextc() { if (pos_ < s_.size()) pos_++; return sgetc(); }
		streamsize in_avail() const { return (streamsize)(s_.size() - pos_); }
	};
	template <typename C, typename T> class basic_ios : public ios_base
	{
	public:
		typedef C char_type;
		typedef T traits_type;
		typedef typename T::int_type int_type;
		basic_ios() {}
		C widen(char c) const { return (C) c; }
		char narrow(C c, char) const { return (char) c; }
		void exceptions(iostate) {}
		basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
		C fill() const { return fill_; }
		C fill(C c) { C o = fill_; fill_ = c; return o; }
		bool good() const { return st_ == 0; }
		bool eof() const { return (st_ & eofbit) != 0; }
		bool fail() const { return (st_ & (badbit | failbit)) != 0; }
		bool bad() const { return (st_ & badbit) != 0; }
		iostate rdstate() const { return st_; }
		void setstate(iostate s) { st_ |= s; }
		void _M_setstate(iostate s) { st_ |= s; }
		void clear(iostate s = goodbit) { st_ = s; }
		explicit operator bool() const { return !fail(); }
		bool operator!() const { return fail(); }
		basic_streambuf<C, T> *rdbuf() const { return const_cast<basic_streambuf<C, T> *>(&buf_); }
	protected:
		basic_streambuf<C, T> buf_;
		iostate st_ = 0;
		C fill_ = C(' ');
	};
	template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T>
	{
	public:
		typedef C char_type;
		typedef T traits_type;
		using ios_base = std::ios_base;
		basic_ostream() {}
		struct sentry { explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
		basic_ostream &write(const C *p, streamsize n) { this->buf_.sputn(p, n); return *this; }
		basic_ostream &put(C c) { this->buf_.sputc(c); return *this; }
		basic_ostream &flush() { return *this; }
		streamsize tellp() { return (streamsize) this->buf_.s_.size(); }
		basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
		basic_ostream &operator<<(std::ios_base &(*f)(std::ios_base &)) { f(*this); return *this; }
		basic_ostream &operator<<(bool v) { if (this->fl_ & std::ios_base::boolalpha) { const char *p = v ? "true" : "false"; while (*p) put(*p++); return *this; } return num(v, false); }
		basic_ostream &operator<<(short v) { return sig(v, (unsigned short) v); }
		basic_ostream &operator<<(unsigned short v) { return num(v, false); }
		basic_ostream &operator<<(int v) { return sig(v, (unsigned) v); }
		basic_ostream &operator<<(unsigned v) { return num(v, false); }
		basic_ostream &operator<<(long v) { return sig(v, (unsigned long) v); }
		basic_ostream &operator<<(unsigned long v) { return num(v, false); }
		basic_ostream &operator<<(long long v) { return sig(v, (unsigned long long) v); }
		basic_ostream &operator<<(unsigned long long v) { return num(v, false); }
		basic_ostream &operator<<(const void *v) { put('0'); put('x'); auto o = this->fl_; this->setf(std::ios_base::hex, std::ios_base::basefield); num((unsigned long) v, false); this->fl_ = o; return *this; }
		basic_ostream &operator<<(double v) { return *this << (long) v; }
		void pad(const C *p, size_t n)
		{
			size_t w = this->width_ > 0 ? (size_t) this->width_ : 0;
			bool left = (this->fl_ & std::ios_base::left) != 0;
			if (!left) for (size_t i = n; i < w; i++) put(this->fill_);
			write(p, (streamsize) n);
			if (left) for (size_t i = n; i < w; i++) put(this->fill_);
			this->width_ = 0;
		}
	private:
		basic_ostream &sig(long long v, unsigned long long raw)
		{
			if ((this->fl_ & (std::ios_base::hex | std::ios_base::oct)) || v >= 0) return num((this->fl_ & (std::ios_base::hex | std::ios_base::oct)) ? raw : (unsigned long long) v, false);
			return num(0 - (unsigned long long) v, true);
		}
		basic_ostream &num(unsigned long long v, bool neg)
		{
			C tmp[32];
			int n = 32;
			if (this->fl_ & std::ios_base::hex) {
				unsigned up = (this->fl_ & std::ios_base::uppercase) ? 7 : 39;
				do { unsigned d = (unsigned) (v & 15); tmp[--n] = (C)('0' + d + (unsigned) (d > 9) * up); v >>= 4; } while (v);
				if (this->fl_ & std::ios_base::showbase) { tmp[--n] = 'x'; tmp[--n] = '0'; }
			} else if (this->fl_ & std::ios_base::oct) {
				do { tmp[--n] = (C)('0' + (unsigned) (v & 7)); v >>= 3; } while (v);
			} else {
				do { tmp[--n] = (C)('0' + (unsigned) (v % 10)); v /= 10; } while (v);
				if (neg) tmp[--n] = '-';
				else if (this->fl_ & std::ios_base::showpos) tmp[--n] = '+';
			}
			pad(tmp + n, (size_t)(32 - n));
			return *this;
		}
	};
	template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o.pad(&c, 1); return o; }
	template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char k = (char) c; o.pad(&k, 1); return o; }
	template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char k = (char) c; o.pad(&k, 1); return o; }
	template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *p) { o.pad(p, T::length(p)); return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { o.put('\0'); return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
	template <typename O, typename V, typename = typename std::enable_if<!std::is_lvalue_reference<O>::value, decltype(std::declval<O &>().pad(nullptr, 0))>::type> inline O &&operator<<(O &&o, const V &v) { o << v; return static_cast<O &&>(o); }

	template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T>
	{
		streamsize gc_ = 0;
	public:
		typedef C char_type;
		typedef T traits_type;
		typedef typename T::int_type int_type;
		using ios_base = std::ios_base;
		basic_istream() {}
		struct sentry {
			bool ok;
			explicit sentry(basic_istream &i, bool noskip = false)
			{
				if (!i.good()) { i.setstate(std::ios_base::failbit); ok = false; return; }
				if (!noskip && (i.flags() & std::ios_base::skipws)) while (i.buf_.pos_ < i.buf_.s_.size() && sp(i.buf_.s_[i.buf_.pos_])) i.buf_.pos_++;
				if (i.buf_.pos_ >= i.buf_.s_.size()) { i.setstate(std::ios_base::eofbit | (noskip ? 0u : std::ios_base::failbit)); ok = noskip ? true : false; } else ok = true;
				if (i.fail()) ok = false;
			}
			explicit operator bool() const { return ok; }
		};
		static bool sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
		streamsize gcount() const { return gc_; }
		int_type get() { auto c = this->buf_.sbumpc(); if (c == T::eof()) this->setstate(std::ios_base::eofbit | std::ios_base::failbit); return c; }
		basic_istream &get(C &c) { auto k = get(); if (k != T::eof()) c = T::to_char_type(k); return *this; }
		basic_istream &ignore(streamsize n = 1, int_type d = T::eof())
		{
			gc_ = 0;
			if (!this->good()) { this->setstate(std::ios_base::failbit); return *this; }
			while (gc_ < n || n == std::numeric_limits<streamsize>::max()) { auto c = this->buf_.sbumpc(); if (c == T::eof()) { this->setstate(std::ios_base::eofbit); break; } gc_++; if (c == d) break; }
			return *this;
		}
		basic_istream &read(C *p, streamsize n)
		{
			gc_ = 0;
			if (!this->good()) { this->setstate(std::ios_base::failbit); return *this; }
			while (gc_ < n) { auto c = this->buf_.sbumpc(); if (c == T::eof()) { this->setstate(std::ios_base::eofbit | std::ios_base::failbit); break; } p[gc_++] = T::to_char_type(c); }
			return *this;
		}
		basic_istream &unget() { this->st_ &= ~std::ios_base::eofbit; if (this->buf_.pos_ > 0) this->buf_.pos_--; else this->setstate(std::ios_base::badbit); return *this; }
		streamsize tellg() { return this->fail() ? -1 : (streamsize) this->buf_.pos_; }
		int_type peek() { if (!this->good()) { this->setstate(std::ios_base::failbit); return T::eof(); } auto c = this->buf_.sgetc(); if (c == T::eof()) this->setstate(std::ios_base::eofbit); return c; }
		basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
		basic_istream &operator>>(std::ios_base &(*f)(std::ios_base &)) { f(*this); return *this; }
		template <typename I> basic_istream &rdint(I &v)
		{
			sentry s(*this);
			if (!s) return *this;
			bool neg = false, any = false, ov = false;
			unsigned long long r = 0;
			auto &b = this->buf_;
			unsigned base = (this->fl_ & std::ios_base::hex) ? 16 : (this->fl_ & std::ios_base::oct) ? 8 : 10;
			if (b.pos_ < b.s_.size() && (b.s_[b.pos_] == '-' || b.s_[b.pos_] == '+')) { neg = b.s_[b.pos_] == '-'; b.pos_++; }
			while (b.pos_ < b.s_.size()) {
				unsigned c = (unsigned char) b.s_[b.pos_], d;
				if (c >= '0' && c <= '9') d = c - '0';
				else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
				else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
				else break;
				if (d >= base) break;
				any = true;
				if (r > (~0ull - d) / base) ov = true;
				r = r * base + d;
				b.pos_++;
			}
			if (b.pos_ >= b.s_.size()) this->setstate(std::ios_base::eofbit);
			if (!any) { v = 0; this->setstate(std::ios_base::failbit); return *this; }
			if (std::numeric_limits<I>::is_signed) {
				unsigned long long lim = (unsigned long long) std::numeric_limits<I>::max() + (neg ? 1 : 0);
				if (ov || r > lim) { v = neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); this->setstate(std::ios_base::failbit); }
				else v = (I)(neg ? 0 - r : r);
			} else {
				if (ov || r > (unsigned long long) std::numeric_limits<I>::max()) { v = std::numeric_limits<I>::max(); this->setstate(std::ios_base::failbit); }
				else v = (I)(neg ? 0 - r : r);
			}
			return *this;
		}
		basic_istream &operator>>(short &v) { return rdint(v); }
		basic_istream &operator>>(unsigned short &v) { return rdint(v); }
		basic_istream &operator>>(int &v) { return rdint(v); }
		basic_istream &operator>>(unsigned &v) { return rdint(v); }
		basic_istream &operator>>(long &v) { return rdint(v); }
		basic_istream &operator>>(unsigned long &v) { return rdint(v); }
		basic_istream &operator>>(long long &v) { return rdint(v); }
		basic_istream &operator>>(unsigned long long &v) { return rdint(v); }
		friend struct sentry;
		basic_streambuf<C, T> &b_() { return this->buf_; }
	};
	template <typename T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { typename basic_istream<char, T>::sentry s(i); if (s) { c = (char) i.b_().sbumpc(); } return i; }
	template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.b_().pos_ < i.b_().s_.size() && basic_istream<C, T>::sp(i.b_().s_[i.b_().pos_])) i.b_().pos_++; return i; }
	template <> inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d)
	{
		auto &b = i.b_();
		if (!i.good()) { i.setstate(ios_base::failbit); return i; }
		s.clear();
		if (b.pos_ >= b.s_.size()) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; }
		while (b.pos_ < b.s_.size()) { char c = b.s_[b.pos_++]; if (c == d) return i; s.push_back(c); }
		i.setstate(ios_base::eofbit);
		return i;
	}
	template <> inline basic_istream<char> &operator>>(basic_istream<char> &i, basic_string<char> &s)
	{
		basic_istream<char>::sentry se(i);
		if (!se) return i;
		s.clear();
		auto &b = i.b_();
		while (b.pos_ < b.s_.size() && !basic_istream<char>::sp(b.s_[b.pos_])) s.push_back(b.s_[b.pos_++]);
		if (b.pos_ >= b.s_.size()) i.setstate(ios_base::eofbit);
		return i;
	}
	template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
	{
	public:
		using ios_base = std::ios_base;
		typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
	};
	_GLIBCXX_BEGIN_NAMESPACE_CXX11
	template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {};
	template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T>
	{
	public:
		basic_ostringstream() {}
		explicit basic_ostringstream(ios_base::openmode) {}
		explicit basic_ostringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::out) { this->buf_.s_ = s; }
		basic_string<C, T, A> str() const { return this->buf_.s_; }
		void str(const basic_string<C, T, A> &s) { this->buf_.s_ = s; this->buf_.pos_ = 0; }
	};
	template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T>
	{
	public:
		basic_istringstream() {}
		explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in) { this->buf_.s_ = s; }
		basic_string<C, T, A> str() const { return this->buf_.s_; }
		void str(const basic_string<C, T, A> &s) { this->buf_.s_ = s; this->buf_.pos_ = 0; }
	};
	template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T>
	{
	public:
		basic_stringstream() {}
		explicit basic_stringstream(ios_base::openmode) {}
		explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in | ios_base::out) { this->buf_.s_ = s; }
		basic_string<C, T, A> str() const { return this->buf_.s_; }
		void str(const basic_string<C, T, A> &s) { this->buf_.s_ = s; this->buf_.pos_ = 0; }
	};
	_GLIBCXX_END_NAMESPACE_CXX11
	struct sym_setw { int n; };
	inline sym_setw setw(int n) { return {n}; }
	template <typename C> struct sym_setfill { C c; };
	template <typename C> inline sym_setfill<C> setfill(C c) { return {c}; }
	struct sym_setprecision { int n; };
	inline sym_setprecision setprecision(int n) { return {n}; }
	struct sym_setbase { int n; };
	inline sym_setbase setbase(int n) { return {n}; }
	template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setw w) { o.width(w.n); return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setfill<C> w) { o.fill(w.c); return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setprecision) { return o; }
	template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setbase b) { o.setf(b.n == 16 ? ios_base::hex : b.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
	struct sym_null_ostream : public basic_ostream<char, char_traits<char>> { sym_null_ostream() { this->buf_.discard_ = true; } };
	inline sym_null_ostream cout, cerr, clog;
}
