// C09: latches and conditions used by several threads.
//   A <a> <op> ...   what actor a does; ops separated by /:
//   enter l, leave l, probe l, holding l, crit l (enter, change what it protects, leave), try l (probe; the same if gained),
//   wait c l, twait c l ms, signal c, bcast c, yield ms, new l (another latch in its place).  Latch -1: none given
//   until c l v: with the latch, wait while the value it protects is below v.  add l: one more; put c l: add and signal it, held. putb: broadcast
#include <thread.h>
#include <condition.h>
#ifdef LATCH_ONLY	// nothing constructs a latch before the actors do
struct Condition_ { void wait(Latch* = 0) {} void wait(long&, Latch* = 0) {} void signal() {} void broadcast() {} };
#define Condition Condition_
#endif
#include "vsched.h"
static Latch*	la[4];
static Condition* co[4];
static volatile int val[4][2];		// protected by the latch
static int	nact;
static std::map<int, std::vector<VsToks>> acts;
static long	t0;
static long now() { return vs_clock_us()-t0; }
static void call(int a, const char* f, int l, int c, int ms) { VsQuiet q; std::string s = VsJ("call").i("a", a).i("l", l).i("c", c).i("ms", ms).i("t", now()).s; s += ",\"f\":\""; s += f; s += "\"}"; vs_log(s); }
static void ret(int a, const char* f, int r) { VsQuiet q; std::string s = VsJ("ret").i("a", a).i("r", r).i("t", now()).s; s += ",\"f\":\""; s += f; s += "\"}"; vs_log(s); }
static void crit(int a, int l)		// both halves are changed together
{
	int x = val[l][0]; vs_point(); val[l][0] = x+1; vs_point(); bool ok = val[l][1] == x; val[l][1] = x+1;
	VsQuiet q; VsJ("crit").i("a", a).i("l", l).b("ok", ok).i("t", now()).log();
}
static void enter(int a, int l) { call(a, "enter", l, -1, -1); la[l]->enter(); ret(a, "enter", 0); }
static void leave(int a, int l) { call(a, "leave", l, -1, -1); la[l]->leave(); ret(a, "leave", 0); }
static bool probe(int a, int l) { call(a, "probe", l, -1, -1); bool r = la[l]->probe(); ret(a, "probe", r); return r; }
static void wait(int a, int c, int l) { call(a, "wait", l, c, -1); if (l < 0) co[c]->wait(); else co[c]->wait(la[l]); ret(a, "wait", 1); }
static bool twait(int a, int c, int l, int ms) { long t = ms; call(a, "twait", l, c, ms); if (l < 0) co[c]->wait(t); else co[c]->wait(t, la[l]); bool r = t != 0; ret(a, "twait", ms == 0 ? -1 : r ? 1 : 0); return r; }
static void wake(int a, int c, bool all) { call(a, all ? "bcast" : "signal", -1, c, -1); all ? co[c]->broadcast() : co[c]->signal(); ret(a, all ? "bcast" : "signal", 0); }
static void doOp(int a, const VsToks& t)
{
	std::string f; int x, y, z;
	{ VsQuiet q; f = t[0]; x = t.size() > 1 ? atoi(t[1].c_str()) : 0; y = t.size() > 2 ? atoi(t[2].c_str()) : 0; z = t.size() > 3 ? atoi(t[3].c_str()) : 0; }
	if (f == "enter") enter(a, x);
	else if (f == "leave") leave(a, x);
	else if (f == "probe") { if (probe(a, x)) leave(a, x); }
	else if (f == "holding") { call(a, "holding", x, -1, -1); bool r = la[x]->holding(); ret(a, "holding", r); }
	else if (f == "crit") { enter(a, x); crit(a, x); leave(a, x); }
	else if (f == "critin") crit(a, x);
	else if (f == "try") { if (probe(a, x)) { crit(a, x); leave(a, x); } }
	else if (f == "wait") wait(a, x, y);
	else if (f == "twait") twait(a, x, y, z);
	else if (f == "signal") wake(a, x, false);
	else if (f == "bcast") wake(a, x, true);
	else if (f == "until") { enter(a, y); while (val[y][0] < z) wait(a, x, y); leave(a, y); }
	else if (f == "untilt") { enter(a, y); while (val[y][0] < z) twait(a, x, y, 2); leave(a, y); }
	else if (f == "put" || f == "putb") { enter(a, y); crit(a, y); wake(a, x, f == "putb"); leave(a, y); }
	else if (f == "yield") Thread::yield(x);
	else if (f == "new") { Latch* n = new Latch(); Latch* old = la[x]; la[x] = n; delete old; }	// its own latch only
	else _exit(77);
}
static void actor(int a)
{
	std::vector<VsToks>* v; { VsQuiet q; v = &acts[a]; }
	for (auto& t : *v) doOp(a, t);
	VsQuiet q; VsJ("fin").i("a", a).i("t", now()).log();
}
void vs_scenario(const VsToks&, const std::vector<VsToks>& ops)
{
	{
		VsQuiet q;
		for (auto& l : ops)
		{
			std::vector<VsToks> v; VsToks cur;
			for (size_t i = 2; i < l.size(); i++) if (l[i] == "/") { v.push_back(cur); cur.clear(); } else cur.push_back(l[i]);
			if (!cur.empty()) v.push_back(cur);
			acts[atoi(l[1].c_str())] = v;
		}
		nact = acts.size();
		vs_stuckinfo(nact);
		t0 = vs_clock_us();
		VsJ("conf").b("exact", !vs_option("tick", 0)).i("t", 0).log();
	}
	for (int i = 0; i < 3; i++) {
#ifndef LATCH_ONLY
		la[i] = new Latch();
#endif
		co[i] = new Condition(); }
	std::vector<int> no;
	for (int a = 1; a < nact; a++) { int n = vs_spawn([a]() { actor(a); }); VsQuiet q; no.push_back(n); }
	actor(0);
	for (int n : no) vs_wait(n);
	for (int i = 0; i < 3; i++) { delete la[i]; delete co[i]; }
	VsQuiet q;
	VsJ("end").i("t", now()).log();
}
