// C12, C13: matching by Pegexp; see spec/PegTrace.tla
//   pat w|b p,p,..      a pattern, in storage of exactly its length and a NUL
//   here at b,b,..      match a text here: from that place
//   find at b,b,..      search it from there
//   any b,b,..          the pattern need not be one: match and search, whatever they say
#include <cassert>
#include <pegexp.h>
#include "drv.h"
static char* pattern; static std::vector<int> pat; static bool wide;
template<class P> struct Src : public P
{
	Src() : P() {}
	Src(const char* s) : P(s) {}
	Src(const Src& s) : P(s) {}
	Src& operator=(const Src& s) { P::operator=(s); return *this; }
};
template<class S> struct Ctx
{
	typedef PegexpDefaultMatch<PegexpState<S>> Match;
	typedef typename Match::State State;
	typedef S Source;
	struct Cap { std::string name; Source from, to; bool rep; };
	std::vector<Cap> caps;
	int capture_disabled, repetition_nesting;
	Ctx() : capture_disabled(0), repetition_nesting(0) {}
	int capture_count() const { return caps.size(); }
	int capture(PatternP n, int l, Match m, bool rep) { Cap c; c.name = std::string(n, l); c.from = m.from.source; c.to = m.to.source; c.rep = rep; caps.push_back(c); return caps.size(); }
	void rollback_capture(int n) { if (n < (int)caps.size()) caps.erase(caps.begin()+n, caps.end()); }
	void record_failure(PatternP op, PatternP op_end, Source) { if (op < pattern || op > pattern+pat.size() || op_end < op || op_end > pattern+pat.size()) abort(); }
	Match match_failure(State at) { return Match(at, at); }
	Match match_result(State a, State b) { return Match(a, b); }
};
struct Any { virtual ~Any() {} virtual void run(bool find, int at, const std::vector<int>& v) = 0; virtual void any(const std::vector<int>& v) = 0; };
static char* hold(const std::vector<int>& v) { char* s = (char*)malloc(v.size()+1); for (size_t i = 0; i < v.size(); i++) s[i] = (char)v[i]; s[v.size()] = 0; return s; }
template<class P> struct All : public Any
{
	typedef Src<P> S; typedef Ctx<S> C;
	Pegexp<C> exp;
	All() : exp(pattern) {}
	void run(bool find, int at, const std::vector<int>& v)
	{
		char* text = hold(v);
		{
			S start(text), src(start); C ctx;
			while (src-start < at && !src.at_eof()) src.get_char();
			at = src-start;
			typename C::Match m = find ? exp.match(src, &ctx) : exp.match_here(src, &ctx);
			bool ok = !m.is_failure();
			Ev::start(find ? "find" : "here"); Ev::vec("s", v); Ev::i("at", at); Ev::b("ok", ok);
			Ev::b("idle", ctx.capture_disabled == 0 && ctx.repetition_nesting == 0 && (!ok || (m.to.source.current_byte() == m.to.source-start && m.from.source.current_byte() == m.from.source-start)));
			Ev::i("left", src-start);
			Ev::i("from", ok ? m.from.source-start : 0); Ev::i("to", ok ? m.to.source-start : 0);
			Ev::key("caps"); Ev::ch('[');
			for (size_t i = 0; ok && i < ctx.caps.size(); i++)
			{
				if (i) Ev::ch(',');
				Ev::ch('['); std::vector<int> n(ctx.caps[i].name.begin(), ctx.caps[i].name.end()); Ev::list(n.begin(), n.end());
				Ev::ch(','); Ev::num(ctx.caps[i].from-start); Ev::ch(','); Ev::num(ctx.caps[i].to-start); Ev::ch(','); Ev::num(ctx.caps[i].rep); Ev::ch(']');
			}
			Ev::ch(']');
		}
		free(text);
	}
	void any(const std::vector<int>& v)
	{
		char* text = hold(v);
		{ S src(text); C ctx; exp.match_here(src, &ctx); S src2(text); exp.match(src2, &ctx); }
		free(text);
		Ev::start("any"); Ev::b("idle", true);
	}
};
static Any* all;
static void drop() { delete all; all = 0; free(pattern); pattern = 0; }
static void scenario_begin(const Toks&) {}
static void scenario_end() { drop(); std::vector<int>().swap(pat); }
static void scenario_op(const Toks& t)
{
	if (t[0] == "here" || t[0] == "find") { std::vector<int> v = L(t[2]); all->run(t[0] == "find", I(t[1]), v); return; }
	if (t[0] == "any") { std::vector<int> v = L(t[1]); all->any(v); return; }
	drop(); std::vector<int>().swap(pat); pat = L(t[2]); pattern = hold(pat); wide = t[1] == "w";
	if (wide) all = new All<PegexpPointerSource<>>; else all = new All<PegexpPointerSource<const UTF8*, char>>;
	Ev::start("pat"); Ev::vec("p", pat); Ev::b("wide", wide);
}
