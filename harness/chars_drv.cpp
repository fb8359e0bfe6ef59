// C11: character properties; see spec/CharTrace.tla
//   run f from step n     (plain)
//   qs f c f c ...        (plain)        A <a> f c f c ...  (threads)
#include <char_encoding.h>
#include <unistd.h>
#include <string>
#include <vector>
typedef std::string S;
static int ask(const S& f, UCS4 c)
{
	if (f == "up") return (int)UCS4ToUpper(c);
	if (f == "low") return (int)UCS4ToLower(c);
	if (f == "title") return (int)UCS4ToTitle(c);
	if (f == "digit") return UCS4Digit(c);
	if (f == "hex") return UCS4HexDigit(c);
	if (f == "alpha") return UCS4IsAlphabetic(c);
	if (f == "white") return UCS4IsWhite(c);
	if (f == "decimal") return UCS4IsDecimal(c);
	if (f == "alnum") return isalnum(c);
	if (f == "adigit") return ASCIIDigit(c);
	if (f == "ascii") return UCS4IsASCII(c);
	if (f == "print") return UCS4IsASCIIPrintable(c);
	if (f == "latin") return UCS4IsLatin1(c);
	if (f == "uni") return UCS4IsUnicode(c);
	if (f == "u16") return UCS4IsUTF16(c);
	_exit(77);
}
#ifdef THREADS
#include "vsched.h"
#include <map>
static std::map<int, std::vector<std::pair<S, int>>> acts;
static void actor(int a)
{
	std::vector<std::pair<S, int>>* v; { VsQuiet q; v = &acts[a]; }
	for (auto& p : *v)
	{
		const char* f = p.first.c_str(); int c = p.second, r;
		switch (f[0]) {		// no strings are made here
		case 'u': r = (int)UCS4ToUpper(c); break;
		case 'l': r = (int)UCS4ToLower(c); break;
		case 't': r = (int)UCS4ToTitle(c); break;
		case 'd': r = UCS4Digit(c); break;
		case 'h': r = UCS4HexDigit(c); break;
		default: r = UCS4IsAlphabetic(c); break;
		}
		VsQuiet q; std::string s = VsJ("q").i("a", a).i("c", c).i("v", r).s; s += ",\"f\":\""; s += f; s += "\"}"; vs_log(s);
	}
}
void vs_scenario(const VsToks&, const std::vector<VsToks>& ops)
{
	{ VsQuiet q; for (auto& l : ops) for (size_t i = 2; i+1 < l.size(); i += 2) acts[atoi(l[1].c_str())].push_back(std::make_pair(l[i], atoi(l[i+1].c_str()))); }
	std::vector<int> no;
	for (int a = 1; a < (int)acts.size(); a++) { int n = vs_spawn([a]() { actor(a); }); VsQuiet q; no.push_back(n); }
	actor(0);
	for (int n : no) vs_wait(n);
	VsQuiet q; VsJ("end").log();
}
#else
#include "drv.h"
static void scenario_begin(const Toks&) {}
static void scenario_end() {}
static void scenario_op(const Toks& t)
{
	if (t[0] == "run")
	{
		int from = I(t[2]), step = I(t[3]), n = I(t[4]);
		bool map = t[1] == "up" || t[1] == "low" || t[1] == "title";
		Ev::start("run"); Ev::str("f", t[1].c_str()); Ev::i("from", from); Ev::i("step", step); Ev::key("runs"); Ev::ch('[');
		long cnt = 0, cur = 0; bool first = true;
		for (int k = 0; k <= n; k++)
		{
			int c = from+k*step;
			long v = 0; if (k < n) { v = ask(t[1], (UCS4)c); if (map) v -= c; }
			if (k == n || (cnt && v != cur)) { if (!first) Ev::ch(','); first = false; Ev::ch('['); Ev::num(cnt); Ev::ch(','); Ev::num(cur); Ev::ch(']'); cnt = 0; }
			cur = v; cnt++;
		}
		Ev::ch(']');
	}
	else if (t[0] == "qs")
	{
		std::vector<int> c, v; std::string fs = "[";
		for (size_t i = 1; i+1 < t.size(); i += 2) { c.push_back((int)I(t[i+1])); v.push_back(ask(t[i], (UCS4)c.back())); if (i > 1) fs += ','; fs += '"'; fs += t[i]; fs += '"'; }
		Ev::start("qs"); Ev::key("f"); Ev::raw((fs+"]").c_str()); Ev::vec("c", c); Ev::vec("v", v);
	}
	else _exit(77);
}
#endif
