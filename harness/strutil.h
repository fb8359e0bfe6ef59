// String helpers for drivers which do not depend on the code under test
#ifndef VP_STRUTIL_H
#define VP_STRUTIL_H
#include <strval.h>
static inline void enc(std::string& o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); }
	else if (c < 0x10000) { o += (char)(0xE0|c>>12); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
	else { o += (char)(0xF0|c>>18); o += (char)(0x80|(c>>12&63)); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
}
static inline std::string enc(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) enc(s, v[i]); return s; }
static inline StrVal mkstr(const std::vector<int>& v) { std::string s = enc(v); return StrVal(s.data(), (StrValIndex)s.size()); }
// the same value as a slice of a bigger string
static inline StrVal mkslice(const std::vector<int>& v)
{
	std::vector<int> w; w.push_back(0x20AC); w.insert(w.end(), v.begin(), v.end()); w.push_back(122); w.push_back(233);
	return mkstr(w).substr(1, (int)v.size());
}
static inline std::vector<int> dec(const char* p, size_t n)	// strict about nothing: bytes of valid UTF-8
{
	std::vector<int> v;
	for (size_t i = 0; i < n; )
	{
		unsigned char c = p[i++]; int k = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
		int u = k == 0 ? c : k == 1 ? c&31 : k == 2 ? c&15 : c&7;
		for (; k > 0 && i < n; k--) u = u<<6 | (p[i++]&63);
		v.push_back(u);
	}
	return v;
}
static inline std::vector<int> sv(const StrVal& s) { StrValIndex n; const char* p = s.asUTF8(n); return dec(p, n); }
static inline void evlist(const std::vector<int>& v) { Ev::list(v.begin(), v.end()); }
static inline void evbytes(const char* p, size_t n) { Ev::ch('['); for (size_t i = 0; i < n; i++) { if (i) Ev::ch(','); Ev::num((unsigned char)p[i]); } Ev::ch(']'); }
#endif
