// C08: threads of the library, started, joined and deleted by several actors.
//   A <a> <op> ...     what actor a does (0 is the first thread, others are spawned)
//   B <k> <op> ...     what thread k does in its run()
// ops, separated by /:  start k, join k, joinany, all (joinany until null), del k (after it was joined), forget k (wait for it to end, delete it unjoined),
// yield ms, exit, cur
#include <thread.h>
#include <condition.h>
#include "vsched.h"
struct TT;
static TT*	tt[20];
static int	vsno[20];
static std::map<int, std::vector<VsToks>> acts, bodies;
static void doOp(int a, const VsToks& t);
struct TT : Thread
{
	int k;
	TT(int _k) : k(_k) {}
	~TT() { VsQuiet q; k = -1; }
	static int numOf(Thread* t) { return t ? static_cast<TT*>(t)->k : 0; }
	int run();
	void start() { resume(); }
};
struct RunEnd { int k; ~RunEnd() { VsQuiet q; VsJ("runend").i("k", k).log(); } };	// also when the thread exits
int TT::run()
{
	int kk = k;
	{ VsQuiet q; vsno[kk] = vs_me(); VsJ("runbegin").i("k", kk).log(); }
	{
		RunEnd e = {kk};
		std::vector<VsToks>* b; { VsQuiet q; b = &bodies[kk]; }
		for (auto& t : *b) doOp(100+kk, t);
	}
	return kk;
}
static void call(int a, const char* f, int k) { VsQuiet q; std::string s = VsJ("call").i("a", a).i("k", k).s; s += ",\"f\":\""; s += f; s += "\"}"; vs_log(s); }
static void ret(int a, const char* f, int k) { VsQuiet q; std::string s = VsJ("ret").i("a", a).i("k", k).s; s += ",\"f\":\""; s += f; s += "\"}"; vs_log(s); }
static void delThread(int k) { TT* t = tt[k]; tt[k] = 0; delete t; }
static void doOp(int a, const VsToks& t)
{
	std::string f; int k;
	{ VsQuiet q; f = t[0]; k = t.size() > 1 ? atoi(t[1].c_str()) : 0; }
	if (f == "start")
	{
		tt[k] = new TT(k);
		call(a, "start", k);
		int was = vs_failed();
		tt[k]->start();
		if (vs_failed() != was) { VsQuiet q; VsJ("startfail").i("k", k).log(); }
		ret(a, "start", k);
	}
	else if (f == "join") { call(a, "join", k); tt[k]->join(); ret(a, "join", k); }
	else if (f == "joinany" || f == "all")
	{
		int r;
		do {
			call(a, "joinany", 0);
			Thread* j = Thread::joinAny();
			{ VsQuiet q; r = TT::numOf(j); }
			ret(a, "joinany", r);
		} while (f == "all" && r);
	}
	else if (f == "del") { call(a, "del", k); delThread(k); ret(a, "del", k); }
	else if (f == "forget")
	{
		while (!vsno[k]) Thread::yield(1);
		vs_wait(vsno[k]);
		call(a, "forget", k); delThread(k); ret(a, "forget", k);
	}
	else if (f == "yield") Thread::yield(k);
	else if (f == "cur") { call(a, "cur", 0); int r; Thread* c = Thread::current(); { VsQuiet q; r = TT::numOf(c); } ret(a, "cur", r); }
	else if (f == "exit") { { VsQuiet q; VsJ("exiting").i("k", a-100).log(); } Thread::exit(3); }
	else _exit(77);
}
void vs_scenario(const VsToks&, const std::vector<VsToks>& ops)
{
	std::vector<int> sp;
	{
		VsQuiet q;
		for (auto& l : ops)
		{
			std::vector<VsToks> v; VsToks cur;
			for (size_t i = 2; i < l.size(); i++) if (l[i] == "/") { v.push_back(cur); cur.clear(); } else cur.push_back(l[i]);
			if (!cur.empty()) v.push_back(cur);
			(l[0] == "A" ? acts : bodies)[atoi(l[1].c_str())] = v;
		}
		for (auto& a : acts) if (a.first) sp.push_back(a.first);
	}
	std::vector<int> no;
	for (int a : sp) { int n = vs_spawn([a]() { std::vector<VsToks>* v; { VsQuiet q; v = &acts[a]; } for (auto& t : *v) doOp(a, t); }); VsQuiet q; no.push_back(n); }
	std::vector<VsToks>* v; { VsQuiet q; v = &acts[0]; }
	for (auto& t : *v) doOp(0, t);
	for (int n : no) vs_wait(n);
	for (int k = 1; k < 20; k++) if (vsno[k]) vs_wait(vsno[k]);
	VsQuiet q;
	VsJ("end").i("unreaped", vs_unreaped()).log();
}
