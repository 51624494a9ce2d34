// Helpers shared by the harnesses (compiled both for symbolic execution and for native replay).
#pragma once
#include <string>
#include <vector>
#include <utility>
#include "sym.h"
#define NOINLINE __attribute__((noinline))
using str = std::string;
using strs = std::vector<std::string>;
// a string of n arbitrary bytes
inline str sym_str(size_t n, const char *name)
{
	str s(n, 'x');
	if (n) sym_bytes(&s[0], n, name);
	return s;
}
// a string of lo..hi arbitrary bytes
inline str sym_strn(uint32_t lo, uint32_t hi, const char *name)
{
	str ln = str(name) + ".len";
	uint32_t n = lo + sym_pick(hi - lo + 1, ln.c_str());
	return sym_str(n, name);
}
inline str sym_digits(size_t n, const char *name)
{
	str s = sym_str(n, name);
	for (auto c : s) sym_assume(sym_and(c >= '0', c <= '9'));
	return s;
}
// equality without forking (lengths are concrete)
inline int seq(const str &a, const str &b) { return a.size() == b.size() && (a.size() == 0 || sym_byteseq(a.data(), b.data(), a.size())) ? 1 : 0; }
inline int eqv(const str &a, const str &b) { return a.size() != b.size() ? 0 : a.size() == 0 ? 1 : sym_byteseq(a.data(), b.data(), a.size()); }
inline int eqvs(const strs &a, const strs &b)
{
	if (a.size() != b.size()) return 0;
	int r = 1;
	for (size_t i = 0; i < a.size(); i++) r = sym_and(r, eqv(a[i], b[i]));
	return r;
}
inline void trace_str(const char *tag, const str &s)
{
	sym_tracev(tag, s.size());
	for (char c : s) sym_tracev(".", (unsigned char) c);
}
