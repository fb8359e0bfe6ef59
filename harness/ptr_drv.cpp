// C18: the guarded pointers; see spec/PtrTrace.tla
//   conf KIND b,b,..     a text, in storage of exactly its length and a NUL; registers become void
//   new r at | cp r s | add r i | sub r i | pre r i | post r i | off r s i | offs r s i | old r s i | diff r s | len r | as r s
#include <char_ptr.h>
#include <utf8_ptr.h>
#include "drv.h"
static char* text; static int len;
struct Any
{
	virtual ~Any() {}
	virtual void op(const Toks& t) = 0;
};
// What is common and what isn't
template<class P> bool bot(P&) { return true; }
template<> bool bot<GuardedCharPtr>(GuardedCharPtr& p) { return p.at_bot(); }
template<> bool bot<GuardedUTF8Ptr>(GuardedUTF8Ptr& p) { return p.at_bot(); }
template<class P> struct Utf { static const bool is = false; static void lens(P&) {} };
template<class P> void lens8(P& p)
{
	Ev::start("len"); Ev::i("len", p.len()); Ev::b("first", p.is1st());
	if (P::is1st((const char*)p) != p.is1st()) Ev::b("first", !p.is1st());
}
template<> struct Utf<NulGuardedUTF8Ptr> { static const bool is = true; static void lens(NulGuardedUTF8Ptr& p) { lens8(p); } };
template<> struct Utf<GuardedUTF8Ptr> { static const bool is = true; static void lens(GuardedUTF8Ptr& p) { lens8(p); } };
template<class P> struct Kind { static const bool anchored = false, unguarded = false; };
template<> struct Kind<UnGuardedCharPtr> { static const bool anchored = false, unguarded = true; };
template<> struct Kind<GuardedCharPtr> { static const bool anchored = true, unguarded = false; };
template<> struct Kind<GuardedUTF8Ptr> { static const bool anchored = true, unguarded = false; };
// an operator may be that of a base
template<class P> void put(P& r, const P& x) { r = x; }
template<class P, class Q> void put(P& r, const Q& x) { r = P((const char*)x); }
template<class P> long where(const P& x) { return (const char*)x-text; }
template<class P> struct All : public Any
{
	P	reg[3]; bool set[3];
	All() { set[0] = set[1] = set[2] = false; }
	long at(P& p) { return (const char*)p - text; }
	bool ok(P& p, long long i)
	{
		if (Kind<P>::unguarded) return at(p)+i >= 0 && at(p)+i <= len;
		if (!Kind<P>::anchored && i < 0) return at(p) >= (Utf<P>::is ? 6 : 1) * -i;
		return true;
	}
	void saw(P& p)
	{
		unsigned c = Utf<P>::is ? (unsigned)*p : (unsigned char)*p;
		Ev::i("pos", at(p));
		int v[2] = {(int)(c >> 16), (int)(c & 0xFFFF)}; Ev::seq("ch", v, v+2);
		Ev::b("eof", p.at_eof()); Ev::b("bot", bot(p));
	}
	void op(const Toks& t)
	{
		const std::string& o = t[0]; int r = I(t[1]);
		if (o == "new") { P n(text+I(t[2])); reg[r] = n; set[r] = true; Ev::start("new"); Ev::i("r", r); Ev::i("at", I(t[2])); saw(reg[r]); return; }
		int s = o == "cp" || o == "as" || o == "off" || o == "offs" || o == "old" || o == "diff" ? (int)I(t[2]) : r;
		if (!set[s] || (o == "diff" && !set[r])) return;
		if (o == "as" || o == "cp")
		{
			if (o == "as") reg[r] = reg[s];
			else { const P& c = reg[s]; P n(c); reg[r] = n; }
			set[r] = true; Ev::start("cp"); Ev::i("r", r); Ev::i("s", s); saw(reg[r]); return;
		}
		if (o == "diff")
		{
			Ev::start("diff"); Ev::i("r", r); Ev::i("s", s); Ev::i("d", reg[r]-reg[s]); Ev::i("d2", reg[r]-(const char*)reg[s]); return;
		}
		if (o == "len") { if (Utf<P>::is) { Utf<P>::lens(reg[r]); Ev::i("r", r); } return; }
		long long i = I(t.back()), d = o == "sub" || o == "offs" ? -i : i;	// d: how far on
		if (!ok(reg[s], d)) return;
		long ret;
		if (o == "add") { auto&& x = reg[r] += (int)i; ret = where(x); if ((void*)&x != (void*)&reg[r]) ret = -1; }
		else if (o == "sub") { auto x = reg[r] -= (int)i; ret = where(x); }
		else if (o == "pre")
		{
			if (i > 0) { auto&& x = ++reg[r]; ret = where(x); if ((void*)&x != (void*)&reg[r]) ret = -1; }
			else { auto&& x = --reg[r]; ret = where(x); if ((void*)&x != (void*)&reg[r]) ret = -1; }
		}
		else if (o == "post") { if (i > 0) { auto x = reg[r]++; ret = where(x); } else { auto x = reg[r]--; ret = where(x); } }
		else if (o == "off" || o == "offs")
		{
			if (o == "off") { auto x = reg[s] + (int)i; ret = where(x); if (r != s) ret = at(reg[s]); put(reg[r], x); }
			else { auto x = reg[s] - (int)i; ret = where(x); if (r != s) ret = at(reg[s]); put(reg[r], x); }
			if (r == s) { Ev::start("add"); Ev::i("r", r); Ev::i("i", d); Ev::i("ret", ret); saw(reg[r]); return; }
		}
		else if (o == "old") { if (r == s) return; if (i > 0) put(reg[r], reg[s]++); else put(reg[r], reg[s]--); ret = at(reg[s]); }
		else _exit(77);
		set[r] = true;
		Ev::start(o == "sub" ? "add" : o == "offs" ? "off" : o.c_str()); Ev::i("r", r); Ev::i("s", s); Ev::i("i", d); Ev::i("ret", ret); saw(reg[r]);
	}
};
static Any* all;
static void drop() { delete all; all = 0; free(text); text = 0; }
static void scenario_begin(const Toks&) {}
static void scenario_end() { drop(); }
static void scenario_op(const Toks& t)
{
	if (t[0] != "conf") { all->op(t); return; }
	drop();
	std::vector<int> v = L(t[2]); len = v.size();
	text = (char*)malloc(len+1);
	for (int i = 0; i < len; i++) text[i] = (char)v[i];
	text[len] = 0;
	const std::string& k = t[1];
	if (k == "U") all = new All<UnGuardedCharPtr>; else if (k == "N") all = new All<NulGuardedCharPtr>; else if (k == "G") all = new All<GuardedCharPtr>;
	else if (k == "NU") all = new All<NulGuardedUTF8Ptr>; else all = new All<GuardedUTF8Ptr>;
	Ev::start("conf"); Ev::str("kind", k.c_str()); Ev::vec("s", v);
}
