// C10: the UTF-8 and UTF-16 codecs; see spec/CodecTrace.tla
//   text b,b,..    every byte text, in storage of exactly its length and a NUL
//   enc h l n      n characters from h:l on.     enc16 h l n swap
//   text16 u,u,..  swap          lead            pad n        ill h l,l,..
#include <char_encoding.h>
#include "drv.h"
static void scenario_begin(const Toks&) {}
static void scenario_end() {}
static void pair(UCS4 c) { Ev::num((uint32_t)c >> 16); Ev::ch(','); Ev::num((uint32_t)c & 0xFFFF); }
static void text(const std::vector<int>& v)
{
	int n = v.size();
	UTF8* s = (UTF8*)malloc(n+1);
	for (int i = 0; i < n; i++) s[i] = (UTF8)v[i];
	s[n] = 0;
	Ev::start("text"); Ev::vec("s", v);
	UTF8* re = (UTF8*)malloc(6*n+8); UTF8* rp = re;
	Ev::key("fwd"); Ev::ch('[');
	bool peeks = true;
	const UTF8* p = s;
	while (p < s+n)
	{
		const UTF8* b = p;
		const UTF8* k = p; UCS4 pk = UTF8Peek(k); if (k != b) peeks = false;
		UCS4 c = UTF8Get(p);
		if (pk != c) peeks = false;
		if (b != s) Ev::ch(',');
		Ev::ch('['); pair(c); Ev::ch(','); Ev::num(p-b); Ev::ch(']');
		if (p <= b || p > s+n) break;
		UTF8Put(rp, c);
	}
	Ev::ch(']'); Ev::b("peek", peeks);
	std::vector<int> len, back, back0, r;
	for (int i = 0; i < n; i++) len.push_back(UTF8Len(s+i));
	Ev::vec("len", len);
	for (int i = 1; i <= n; i++)
	{
		const UTF8* q = UTF8Backup(s+i, s); back.push_back(q ? q-s : -1);
		q = i >= 6 ? UTF8Backup(s+i) : 0; back0.push_back(i >= 6 ? (q ? q-s : -1) : -2);
	}
	Ev::vec("back", back); Ev::vec("back0", back0); Ev::i("stop", n && UTF8Backup(s, s) ? 1 : 0);
	for (UTF8* q = re; q < rp; q++) r.push_back((unsigned char)*q);
	Ev::vec("re", r);
	// limits within the text
	std::vector<int> lim; for (int i = 1; i <= n; i++) for (int l = 0; l <= i; l++) { const UTF8* q = UTF8Backup(s+i, s+l); lim.push_back(q ? q-s : -1); }
	if (n <= 4) Ev::vec("lim", lim);
	else { std::vector<int> none; Ev::vec("lim", none); }
	free(s); free(re);
}
static void enc(UCS4 from, int n)
{
	std::vector<int> pre, last, lens; bool same = true; std::vector<int> rt;
	for (int i = 0; i < n; i++)
	{
		UCS4 c = from+i; UTF8 b[16]; memset(b, 0x55, sizeof b);
		UTF8* p = b; UTF8Put(p, c);
		int l = p-b;
		if (b[l] != 0x55) l = -1;
		std::vector<int> now; for (int k = 0; k < l; k++) now.push_back((unsigned char)b[k]);
		int z = now.empty() ? -1 : now.back(); if (!now.empty()) now.pop_back();
		if (i == 0) pre = now; else if (pre != now) same = false;
		last.push_back(z); lens.push_back(UTF8Len(c));
		*p = 0;
		const UTF8* q = b; UCS4 d = UTF8Get(q);
		rt.push_back(d == c && q == p && UTF8Len((const UTF8*)b) == l && UTF8CorrectLen(b[0]) == l ? 1 : 0);
	}
	Ev::start("enc"); Ev::i("h", (uint32_t)from >> 16); Ev::i("l", (uint32_t)from & 0xFFFF); Ev::b("same", same); Ev::vec("pre", pre); Ev::vec("last", last); Ev::vec("len", lens); Ev::vec("rt", rt);
}
static void enc16(UCS4 from, int n, bool swap)
{
	Ev::start("enc16"); Ev::i("h", (uint32_t)from >> 16); Ev::i("l", (uint32_t)from & 0xFFFF); Ev::b("swap", swap);
	std::vector<int> rt; Ev::key("units"); Ev::ch('[');
	for (int i = 0; i < n; i++)
	{
		UCS4 c = from+i; UTF16 b[4] = { 0x5555, 0x5555, 0x5555, 0x5555 }; UTF16* p = b; if (swap) UTF16Put(p, c, true); else UTF16Put(p, c);
		int l = p-b; std::vector<int> u; for (int k = 0; k < l; k++) u.push_back(b[k]);
		if (i) Ev::ch(',');
		Ev::list(u.begin(), u.end());
		UTF16* e = new UTF16[l+1]; for (int k = 0; k < l; k++) e[k] = b[k]; e[l] = 0;
		const UTF16* q = e; UCS4 d = swap ? UTF16Get(q, true) : UTF16Get(q);
		rt.push_back(d == c && q == e+l && UTF16Len(c) == l && (swap ? UTF16Len((const UTF16*)e, true) : UTF16Len((const UTF16*)e)) == l && b[l] == 0x5555 ? 1 : 0);
		delete [] e;
	}
	Ev::ch(']'); Ev::vec("rt", rt);
}
static void text16(const std::vector<int>& v, bool swap)
{
	int n = v.size(); UTF16* s = new UTF16[n+1]; for (int i = 0; i < n; i++) s[i] = swap ? UTF16Swab(v[i]) : v[i]; s[n] = 0;
	Ev::start("text16"); Ev::vec("s", v); Ev::key("fwd"); Ev::ch('[');
	const UTF16* p = s;
	while (p < s+n) { const UTF16* b = p; UCS4 c = swap ? UTF16Get(p, true) : UTF16Get(p); if (b != s) Ev::ch(','); Ev::ch('['); pair(c); Ev::ch(','); Ev::num(p-b); Ev::ch(']'); if (p <= b) break; }
	Ev::ch(']');
	std::vector<int> k; for (int i = 0; i < n; i++) k.push_back((UTF16IsSurrogate(v[i]) ? 4 : 0)+(UTF16Is1st(v[i]) ? 2 : 0)+(UTF16Is2nd(v[i]) ? 1 : 0));
	Ev::vec("kind", k);
	delete [] s;
}
static void scenario_op(const Toks& t)
{
	if (t[0] == "text") text(L(t[1]));
	else if (t[0] == "enc") enc(((UCS4)I(t[1]) << 16)+(UCS4)I(t[2]), I(t[3]));
	else if (t[0] == "enc16") enc16(((UCS4)I(t[1]) << 16)+(UCS4)I(t[2]), I(t[3]), I(t[4]));
	else if (t[0] == "text16") text16(L(t[1]), I(t[2]));
	else if (t[0] == "lead")
	{
		std::vector<int> a, b, c; for (int i = 0; i < 256; i++) { a.push_back(UTF8Is1st((UTF8)i)); b.push_back(UTF8Is2nd((UTF8)i)); c.push_back(UTF8CorrectLen((UTF8)i)); }
		Ev::start("lead"); Ev::vec("first", a); Ev::vec("second", b); Ev::vec("len", c);
	}
	else if (t[0] == "pad")
	{
		int n = I(t[1]); UTF8 b[16]; memset(b, 0x55, sizeof b); UTF8* p = b; UTF8PutPaddedZero(p, n);
		std::vector<int> v; for (UTF8* q = b; q < p; q++) v.push_back((unsigned char)*q);
		Ev::start("pad"); Ev::i("n", n); Ev::vec("out", v); Ev::b("clean", *p == 0x55);
	}
	else if (t[0] == "ill")
	{
		std::vector<int> v = L(t[2]), r, e; for (int l : v) { r.push_back(UCS4IsIllegal(((UCS4)I(t[1]) << 16)+l)); e.push_back((uint32_t)UTF8EncodeIllegal((UTF8)l) & 0xFFFF); if ((uint32_t)UTF8EncodeIllegal((UTF8)l) >> 16 != 0x8000) e.back() = -1; }
		Ev::start("ill"); Ev::i("h", I(t[1])); Ev::vec("l", v); Ev::vec("out", r); Ev::vec("enc", e);
	}
	else _exit(77);
}
