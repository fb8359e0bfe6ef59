// Conformance driver for StrVal (C01, C02, C05, C07, C21): see spec/StrTrace.tla
#include <strval.h>
#include <variant.h>
#include "drv.h"

static const int NR = 4;
static StrVal*	R;			// R[NR]

// Independent UTF-8 encoder, so that inputs do not depend on the code under test
static void enc(std::string& o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); }
	else if (c < 0x10000) { o += (char)(0xE0|c>>12); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
	else { o += (char)(0xF0|c>>18); o += (char)(0x80|(c>>12&63)); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
}
static std::string enc(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) enc(s, v[i]); return s; }

static const char* stext[3] = { "static text", "st\xC3\xA9 \xE2\x82\xAC uro \xF0\x9F\x98\x80 end", "\xE6\xBC\xA2" };
static StrBody	sbody0(stext[0], StrStatic), sbody1(stext[1], StrStatic), sbody2(stext[2], StrStatic);

static void bytes(const char* p, size_t n) { Ev::ch('['); for (size_t i = 0; i < n; i++) { if (i) Ev::ch(','); Ev::num((unsigned char)p[i]); } Ev::ch(']'); }
static void chars(const StrVal& s) { Ev::ch('['); int n = s.length(); for (int i = 0; i < n; i++) { if (i) Ev::ch(','); Ev::num((int32_t)s[i]); } Ev::ch(']'); }

static void obs()
{
	Ev::start("obs");
	Ev::key("obs"); Ev::ch('['); for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); chars(R[r]); } Ev::ch(']');
	Ev::key("len"); Ev::ch('['); for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); Ev::num(R[r].length()); } Ev::ch(']');
	Ev::key("bytes"); Ev::ch('[');
	for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); const StrVal& s = R[r]; StrValIndex n; const char* p = s.asUTF8(n); bytes(p, n); }
	Ev::ch(']');
}

// The catalogue of transform functions: StrSpec!X
static StrVal lit(uint32_t a) { std::string s; enc(s, a); return StrVal(s.data(), (StrValIndex)s.size()); }
static StrVal lit(uint32_t a, uint32_t b) { std::string s; enc(s, a); enc(s, b); return StrVal(s.data(), (StrValIndex)s.size()); }
static StrVal xform(int k, const char*& cp, const char* ep)
{
	const char* p = cp;
	auto get = [&]() -> uint32_t {		// independent decoder of well-formed text
		unsigned char c = *p++; int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = n == 0 ? c : c & (0x3F >> n);
		while (n-- > 0) v = v<<6 | (*p++ & 0x3F); return v; };
	uint32_t c = get();
	switch (k)
	{
	case 0: cp = p; return lit(c);
	case 1: cp = p; return StrVal();
	case 2: cp = p; return lit(c, c);
	case 3: if (p < ep) { uint32_t d = get(); cp = p; return lit(d, c); } cp = p; return lit(c);
	case 4: if (c == 'b') return StrVal("!"); cp = p; return lit('-', c);
	case 5: cp = p; return StrVal("\xC3\xA9\xF0\x9F\x98\x80x");
	case 6: cp = ep; return StrVal("\xE2\x82\xAC");
	case 7: return StrVal();
	case 8: cp = p; if (c < 128) return lit(0x20AC, c); return StrVal("a");
	case 9: for (int i = 0; i < 2 && p < ep; i++) get(); cp = p; return StrVal("bcdefghijklm");
	}
	return StrVal();
}
static int sgn(int c) { return c < 0 ? -1 : c > 0 ? 1 : 0; }

static void scenario_begin(const Toks&) { R = new StrVal[NR]; }
static void scenario_end() { delete [] R; R = 0; }
static void scenario_op(const Toks& t)
{
	const std::string& o = t[0];
	if (o == "obs") { obs(); return; }
	size_t idx = 1;
	#define REG(n) int n = (int)I(t[idx++])
	#define INT(n) int n = (int)I(t[idx++])
	#define HOW std::string how = t.size() > idx ? t[idx] : ""
	REG(r);
	Ev::start(o.c_str()); Ev::i("r", r);
	if (o == "new") {
		std::vector<int> v = L(t[idx++]); HOW; std::string s = enc(v);
		if (how == "cstr") R[r] = StrVal(s.c_str());
		else if (how == "cnt") { char* b = (char*)malloc(s.size() ? s.size() : 1); memcpy(b, s.data(), s.size()); R[r] = StrVal(b, (StrValIndex)s.size()); memset(b, '#', s.size()); free(b); }
		else if (how == "alloc") R[r] = StrVal(s.data(), (StrValIndex)s.size(), s.size()+20);
		else if (how == "char") R[r] = StrVal((UCS4)v[0]);
		else if (how == "st0") R[r] = StrVal(&sbody0);
		else if (how == "st1") R[r] = StrVal(&sbody1);
		else if (how == "st2") R[r] = StrVal(&sbody2);
		else if (how == "build") { StrVal x; for (size_t i = 0; i < v.size(); i++) x += (UCS4)v[i]; R[r] = x; }
		Ev::vec("v", v); }
	else if (o == "copy") { REG(s); HOW; Ev::i("s", s);
		if (how == "ctor") { StrVal tmp(R[s]); R[r] = tmp; } else if (how == "ref") { StrRef ref(R[s]); R[r] = StrVal(ref); }
		else if (how == "variant") { Variant v(R[s]); R[r] = v.as_strval(); } else R[r] = R[s]; }
	else if (o == "substr") { REG(s); INT(at); INT(n); R[r] = n == -1 ? R[s].substr(at) : R[s].substr(at, n); Ev::i("s", s); Ev::i("at", at); Ev::i("n", n); }
	else if (o == "head") { REG(s); INT(n); R[r] = R[s].head(n); Ev::i("s", s); Ev::i("n", n); }
	else if (o == "tail") { REG(s); INT(n); R[r] = R[s].tail(n); Ev::i("s", s); Ev::i("n", n); }
	else if (o == "shorter") { REG(s); INT(n); R[r] = R[s].shorter(n); Ev::i("s", s); Ev::i("n", n); }
	else if (o == "plus") { REG(s); REG(u); R[r] = R[s] + R[u]; Ev::i("s", s); Ev::i("t", u); }
	else if (o == "plus_lit") { REG(s); std::vector<int> v = L(t[idx++]); HOW; std::string z = enc(v);
		if (how == "char") R[r] = R[s] + (UCS4)v[0]; else R[r] = R[s] + z.c_str(); Ev::i("s", s); Ev::vec("v", v); }
	else if (o == "lit_plus") { REG(s); std::vector<int> v = L(t[idx++]); std::string z = enc(v); R[r] = z.c_str() + R[s]; Ev::i("s", s); Ev::vec("v", v); }
	else if (o == "insert") { INT(at); REG(s); R[r].insert(at, R[s]); Ev::i("at", at); Ev::i("s", s); }
	else if (o == "append") { REG(s); HOW; if (how == "plus") R[r] += R[s]; else R[r].append(R[s]); Ev::i("s", s); }
	else if (o == "append_c") { INT(c); R[r] += (UCS4)c; Ev::i("c", c); }
	else if (o == "prepend") { REG(s); R[r].prepend(R[s]); Ev::i("s", s); }
	else if (o == "mul") { REG(s); INT(n); R[r] = R[s] * n; Ev::i("s", s); Ev::i("n", n); }
	else if (o == "lower") R[r].toLower();
	else if (o == "upper") R[r].toUpper();
	else if (o == "aslower") { REG(s); R[r] = R[s].asLower(); Ev::i("s", s); }
	else if (o == "asupper") { REG(s); R[r] = R[s].asUpper(); Ev::i("s", s); }
	else if (o == "transform") { INT(k); INT(after); auto f = [k](const char*& cp, const char* ep) -> StrVal { return xform(k, cp, ep); }; if (after == -1) R[r].transform(f); else R[r].transform(f, after); Ev::i("k", k); Ev::i("after", after); }
	else if (o == "len") { Ev::i("ret", R[r].length()); bool e = R[r].isEmpty(), y = R[r] ? true : false; Ev::b("empty", e == y ? !e : e); }
	else if (o == "bytes") { const StrVal& s = R[r]; Ev::i("ret", s.numBytes()); }
	else if (o == "at") { INT(i); Ev::i("i", i); Ev::i("ret", (int32_t)R[r][i]); }
	else if (o == "utf8") { const char* p = R[r].asUTF8(); const StrVal& s = R[r]; StrValIndex n; s.asUTF8(n); Ev::key("ret"); bytes(p, n); Ev::i("nul", p[n]); }
	else if (o == "utf8c") { const StrVal& s = R[r]; StrValIndex n; const char* p = s.asUTF8(n); Ev::key("ret"); bytes(p, n); }
	else if (o == "cmp") { REG(s); const StrVal& a = R[r]; const StrVal& b = R[s]; Ev::i("s", s); Ev::i("ret", sgn(a.compare(b)));
		Ev::b("eq", a == b); Ev::b("ne", a != b); Ev::b("lt", a < b); Ev::b("le", a <= b); Ev::b("gt", a > b); Ev::b("ge", a >= b); }
	else if (o == "find") { INT(c); INT(i); Ev::i("c", c); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].find((UCS4)c) : R[r].find((UCS4)c, i)); }
	else if (o == "rfind") { INT(c); INT(i); Ev::i("c", c); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].rfind((UCS4)c) : R[r].rfind((UCS4)c, i)); }
	else if (o == "find_s") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].find(R[s]) : R[r].find(R[s], i)); }
	else if (o == "rfind_s") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].rfind(R[s]) : R[r].rfind(R[s], i)); }
	else if (o == "find_any") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].findAny(R[s]) : R[r].findAny(R[s], i)); }
	else if (o == "rfind_any") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].rfindAny(R[s]) : R[r].rfindAny(R[s], i)); }
	else if (o == "find_not") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].findNot(R[s]) : R[r].findNot(R[s], i)); }
	else if (o == "rfind_not") { REG(s); INT(i); Ev::i("s", s); Ev::i("i", i); Ev::i("ret", i == -1 ? R[r].rfindNot(R[s]) : R[r].rfindNot(R[s], i)); }
	else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(77); }
}
