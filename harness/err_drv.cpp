// Conformance driver for ErrNum and Error (C19): see spec/ErrTrace.tla
#include <error.h>
#include "drv.h"
static const int NR = 3;
static Error* R;
static const char*	texts[] = { 0, "first %d text", "", "another" };
static int		params[4];
static void scenario_begin(const Toks&) { R = new Error[NR]; }
static void scenario_end() { delete [] R; R = 0; }
static void scenario_op(const Toks& t)
{
	const std::string& o = t[0];
	if (o == "num")		// num set m,m,m
	{
		int set = I(t[1]); std::vector<int> m = L(t[2]), rep, gs, gm, back, bs, bm; std::vector<bool> ok;
		for (size_t i = 0; i < m.size(); i++)
		{
			ErrNum e(set, m[i]);
			int32_t r = e;
			ErrNum b(r), c(b), d; d = c;
			rep.push_back(r); gs.push_back(e.set()); gm.push_back(e.msg());
			back.push_back((int32_t)d); bs.push_back(d.set()); bm.push_back(d.msg());
			bool sw = false; switch (e) { case 0: break; default: sw = true; }
			ok.push_back(e == b && !(e != b) && e == r && e < 0 && !(e > 0) && !(e == 0) && sw && (int32_t)ErrNum(e) == r);
		}
		Ev::start("num"); Ev::i("set", set); Ev::vec("m", m); Ev::vec("rep", rep); Ev::vec("gset", gs); Ev::vec("gmsg", gm); Ev::vec("back", back); Ev::vec("bset", bs); Ev::vec("bmsg", bm);
		Ev::key("ok"); Ev::ch('['); for (size_t i = 0; i < ok.size(); i++) { if (i) Ev::ch(','); Ev::raw(ok[i] ? "true" : "false"); } Ev::ch(']');
	}
	else if (o == "cmp")
	{
		int s1 = I(t[1]), m1 = I(t[2]), s2 = I(t[3]), m2 = I(t[4]);
		ErrNum a(s1, m1), b(s2, m2);
		Ev::start("cmp"); Ev::i("s1", s1); Ev::i("m1", m1); Ev::i("s2", s2); Ev::i("m2", m2);
		Ev::b("eq", a == b); Ev::b("ne", a != b); Ev::b("eqi", a == (int32_t)b); Ev::b("lti", a < (int32_t)b); Ev::b("gti", a > (int32_t)b);
	}
	else if (o == "zero") { ErrNum z, y((int32_t)0); Ev::start("zero"); Ev::i("rep", (int32_t)z); Ev::i("rep2", (int32_t)y); Ev::i("set", y.set()); Ev::i("msg", y.msg()); Ev::b("err", z < 0 || z != y || z > 0); }
	else if (o == "new")	// new r set msg text par
	{
		int r = I(t[1]), s = I(t[2]), m = I(t[3]), x = I(t[4]), p = I(t[5]);
		R[r] = x == 0 && p == 0 ? Error(ErrNum(s, m)) : Error(ErrNum(s, m), texts[x], p ? &params[p] : 0);
		Ev::start("new"); Ev::i("r", r); Ev::i("set", s); Ev::i("msg", m); Ev::i("text", x); Ev::i("par", p);
	}
	else if (o == "copy")
	{
		int r = I(t[1]), s = I(t[2]);
		if (t[3] == "ctor") { Error e(R[s]); R[r] = Error(); R[r] = e; }
		else R[r] = R[s];
		Ev::start("copy"); Ev::i("r", r); Ev::i("s", s);
	}
	else if (o == "drop") { int r = I(t[1]); R[r] = Error(); Ev::start("drop"); Ev::i("r", r); }
	else if (o == "obs")
	{
		Ev::start("obs"); Ev::key("obs"); Ev::ch('[');
		for (int r = 0; r < NR; r++)
		{
			const Error& e = R[r]; int x = -1, p = -1;
			for (int i = 0; i < 4; i++) if (e.default_text() == texts[i]) x = i;
			if (!e.parameters()) p = 0; else for (int i = 1; i < 4; i++) if (e.parameters() == &params[i]) p = i;
			ErrNum n = e; int32_t v[4] = { (int32_t)n, (int32_t)e, x, p };
			if (r) Ev::ch(','); Ev::list(v, v+4);
		}
		Ev::ch(']');
	}
	else { fprintf(stderr, "bad op\n"); _exit(77); }
}
