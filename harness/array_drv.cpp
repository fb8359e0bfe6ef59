// Conformance driver for Array<> (C03, C05): see spec/ArrayTrace.tla
#include <array.h>
#include "drv.h"

struct Obj			// An element type with storage of its own
{
	int*	p;
	Obj() : p(new int(0)) {}
	Obj(int v) : p(new int(v)) {}
	Obj(const Obj& o) : p(new int(*o.p)) {}
	~Obj() { *p = -777; delete p; p = 0; }
	Obj& operator=(const Obj& o) { int v = *o.p; *p = v; return *this; }
	bool operator==(const Obj& o) const { return *p == *o.p; }
	bool operator<(const Obj& o) const { return *p < *o.p; }
};
static int val(int v) { return v; }
static int val(const Obj& o) { return *o.p; }

static const int	sdata[6] = {1, 2, 3, 4, 5, 6};
static const int NR = 4;

struct World { virtual ~World() {} virtual void op(const Toks& t) = 0; };

template<class E, class IX = ArrayIndex> struct WorldT : World
{
	typedef Array<E, IX>	A;
	A	R[NR];
	std::vector<E>	list(const std::string& s) { std::vector<int> v = L(s); return std::vector<E>(v.begin(), v.end()); }

	void obs()
	{
		Ev::key("obs"); Ev::ch('[');
		for (int r = 0; r < NR; r++)
		{
			const A& a = R[r];
			if (r) Ev::ch(',');
			Ev::ch('[');
			for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); Ev::num(val(a.elem(i))); }
			Ev::ch(']');
		}
		Ev::ch(']');
		Ev::key("len"); Ev::ch('[');
		for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); Ev::num(R[r].isEmpty() ? 0 : (int)R[r].length()); }
		Ev::ch(']');
	}
	void op(const Toks& t)
	{
		const std::string& o = t[0];
		auto pred = [](int m, int k) { return [m,k](const E& e) { return val(e) % m == k; }; };
		#define REG(n) int n = (int)I(t[idx++])
		#define INT(n) int n = (int)I(t[idx++])
		size_t idx = 1;
		REG(r);
		Ev::start(o.c_str()); Ev::i("r", r);
		if (o == "new") { std::vector<E> v = list(t[idx]); INT(how0); (void)how0; std::string how = t[idx];
			std::vector<int> vi = L(t[2]);
			if (how == "data") R[r] = A(v.data(), v.size());
			else if (how == "alloc") R[r] = A(v.data(), v.size(), v.size()+5);
			else if (how == "one") R[r] = A(v[0]);
			else if (how == "body") { typename A::Body* b = new typename A::Body(v.data(), true, v.size()); R[r] = A(b); }
			else if (how == "sub")		// a slice of a bigger body, by constructor
			{ std::vector<E> w; w.push_back(E(9)); w.insert(w.end(), v.begin(), v.end()); w.push_back(E(8));
			  typename A::Body* b = new typename A::Body(w.data(), true, w.size()); R[r] = A(b, 1, v.size()); }
			else if (how == "push") { A a; for (size_t i = 0; i < v.size(); i++) a << v[i]; R[r] = a; }
			Ev::vec("v", vi); }
		else if (o == "copy") { REG(s); Ev::i("s", s); if (t.size() > idx && t[idx] == "ctor") { A tmp(R[s]); R[r] = tmp; } else R[r] = R[s]; }
		else if (o == "slice") { REG(s); INT(at); INT(n); R[r] = n == -1 ? R[s].slice(at) : R[s].slice(at, n); Ev::i("s", s); Ev::i("at", at); Ev::i("n", n); }
		else if (o == "head") { REG(s); INT(n); R[r] = R[s].head(n); Ev::i("s", s); Ev::i("n", n); }
		else if (o == "tail") { REG(s); INT(n); R[r] = R[s].tail(n); Ev::i("s", s); Ev::i("n", n); }
		else if (o == "shorter") { REG(s); INT(n); R[r] = R[s].shorter(n); Ev::i("s", s); Ev::i("n", n); }
		else if (o == "drop") { REG(s); INT(n); R[r] = R[s].drop(n); Ev::i("s", s); Ev::i("n", n); }
		else if (o == "plus") { REG(s); REG(u); R[r] = R[s] + R[u]; Ev::i("s", s); Ev::i("t", u); }
		else if (o == "plus_e") { REG(s); INT(e); R[r] = R[s] + E(e); Ev::i("s", s); Ev::i("e", e); }
		else if (o == "set") { INT(i); INT(e); std::string how = t.size() > idx ? t[idx] : "";
			if (how == "mut") R[r].elem_mut(i) = E(e); else if (how == "last" && i == (int)R[r].length()-1) R[r].last_mut() = E(e); else R[r].set(i, E(e));
			Ev::i("i", i); Ev::i("e", e); }
		else if (o == "push") { INT(e); std::string how = t.size() > idx ? t[idx] : "";
			if (how == "own" && R[r].length())		// by reference to one of its own
			{ const E& own = R[r].elem_ref(e % R[r].length()); Ev::i("e", val(own)); if (e%2) R[r].push(own); else R[r] += own; obs(); return; }
			E x(e);
			if (how == "plus") R[r] += x; else if (how == "shl") R[r] << x; else if (how == "append") R[r].append(x); else R[r].push(x);
			Ev::i("e", e); }
		else if (o == "unshift") { INT(e); std::string how = t.size() > idx ? t[idx] : "";
			if (how == "own" && R[r].length()) { const E& own = R[r].elem_ref(e % R[r].length()); Ev::i("e", val(own)); R[r].unshift(own); }
			else { R[r].unshift(E(e)); Ev::i("e", e); } }
		else if (o == "insert") { INT(at); REG(s); R[r].insert(at, R[s]); Ev::i("at", at); Ev::i("s", s); }
		else if (o == "append") { REG(s); std::string how = t.size() > idx ? t[idx] : ""; if (how == "plus") R[r] += R[s]; else R[r].append(R[s]); Ev::i("s", s); }
		else if (o == "shift") { int v = val(R[r].shift()); Ev::i("ret", v); }
		else if (o == "pull") { int v = val(R[r].pull()); Ev::i("ret", v); }
		else if (o == "delete_at") { INT(i); int v = val(R[r].delete_at(i)); Ev::i("i", i); Ev::i("ret", v); }
		else if (o == "remove") { INT(at); INT(n); if (n == -1) R[r].remove(at); else R[r].remove(at, n); Ev::i("at", at); Ev::i("n", n); }
		else if (o == "clear") R[r].clear();
		else if (o == "reverse") R[r].reverse();
		else if (o == "delete_if") { INT(m); INT(k); R[r].delete_if(pred(m, k)); Ev::i("m", m); Ev::i("k", k); }
		else if (o == "compare") { REG(s); int c = R[r].compare(R[s]); Ev::i("s", s); Ev::i("ret", c < 0 ? -1 : c > 0 ? 1 : 0); }
		else if (o == "eq") { REG(s); bool e = R[r] == R[s]; bool n = R[r] != R[s]; Ev::i("s", s); Ev::b("ret", e); Ev::b("ne", n); }
		else if (o == "find") { INT(e); INT(i); int x = i == -1 ? R[r].find(E(e)) : R[r].find(E(e), i); Ev::i("e", e); Ev::i("i", i); Ev::i("ret", x); }
		else if (o == "rfind") { INT(e); INT(i); int x = i == -1 ? R[r].rfind(E(e)) : R[r].rfind(E(e), i); Ev::i("e", e); Ev::i("i", i); Ev::i("ret", x); }
		else if (o == "find_if") { INT(m); INT(k); INT(i); std::function<bool(const E&)> f(pred(m, k)); int x = i == -1 ? R[r].find(f) : R[r].find(f, i); Ev::i("m", m); Ev::i("k", k); Ev::i("i", i); Ev::i("ret", x); }
		else if (o == "rfind_if") { INT(m); INT(k); INT(i); std::function<bool(const E&)> f(pred(m, k)); int x = i == -1 ? R[r].rfind(f) : R[r].rfind(f, i); Ev::i("m", m); Ev::i("k", k); Ev::i("i", i); Ev::i("ret", x); }
		else if (o == "detect") { INT(m); INT(k); int x = R[r].detect(pred(m, k)); Ev::i("m", m); Ev::i("k", k); Ev::i("ret", x); }
		else if (o == "all") { INT(m); INT(k); bool x = R[r].all(pred(m, k)); Ev::i("m", m); Ev::i("k", k); Ev::b("ret", x); }
		else if (o == "any") { INT(m); INT(k); bool x = R[r].any(pred(m, k)); Ev::i("m", m); Ev::i("k", k); Ev::b("ret", x); }
		else if (o == "one") { INT(m); INT(k); bool x = R[r].one(pred(m, k)); Ev::i("m", m); Ev::i("k", k); Ev::b("ret", x); }
		else if (o == "each") { std::vector<int> seen; R[r].each([&](const E& e) { seen.push_back(val(e)); }); Ev::vec("ret", seen); }
		else if (o == "visit")	// visit r s how at what e: array s changes while r is at its element
		{
			REG(s); std::string how = t[idx++]; INT(at); std::string what = t[idx++]; INT(e); A& a = R[s];
			std::vector<int> seen;
			auto look = [&](const E& x) {
				seen.push_back(val(x));
				if ((int)seen.size() != at+1) return;
				if (what == "push") a.push(E(e));
				else if (what == "unshift") a.unshift(E(e));
				else if (what == "clear") a.clear();
				else if (what == "empty") a = A();
				else if (what == "pull") { if (a.length()) a.pull(); }
				else if (what == "set") { if (a.length()) a.set(a.length()-1, E(e)); }
				else if (what == "reverse") a.reverse();
				else if (what == "append") a.append(R[r]);
				else _exit(77);
			};
			auto no = [&](const E& x) { look(x); return false; }; auto yes = [&](const E& x) { look(x); return true; };
			A made; int sum = 0;
			if (how == "each") R[r].each(look);
			else if (how == "find") R[r].find(std::function<bool(const E&)>(no));
			else if (how == "rfind") { R[r].rfind(std::function<bool(const E&)>(no)); }
			else if (how == "detect") R[r].detect(no);
			else if (how == "all") R[r].all(yes);
			else if (how == "any") R[r].any(no);
			else if (how == "one") R[r].one(no);
			else if (how == "select") made = R[r].select(yes);
			else if (how == "map") made = R[r].template map<A, E>([&](const E& x) { look(x); return x; });
			else if (how == "inject") sum = R[r].template inject<int>(1, [&](int& k, const E& x) { look(x); return k+1; });
			else _exit(77);
			Ev::i("s", s); Ev::i("at", at); Ev::str("what", what.c_str()); Ev::i("e", e); Ev::b("back", how == "rfind"); Ev::vec("seen", seen);
			std::vector<int> m; for (int i = 0; i < (int)made.length(); i++) m.push_back(val(made[i]));
			Ev::vec("made", how == "select" || how == "map" ? m : how == "rfind" ? std::vector<int>(seen.rbegin(), seen.rend()) : seen);
		}
		else if (o == "last") { std::string how = t.size() > idx ? t[idx] : ""; int v = how == "ref" ? val(R[r].last_ref()) : val(R[r].last()); Ev::i("ret", v); }
		else if (o == "elem") { INT(i); std::string how = t.size() > idx ? t[idx] : "";
			int v = how == "ref" ? val(R[r].elem_ref(i)) : how == "ptr" ? val(R[r].asElements()[i]) : val(R[r][i]); Ev::i("i", i); Ev::i("ret", v); }
		else if (o == "select") { REG(s); INT(m); INT(k); R[r] = R[s].select(pred(m, k)); Ev::i("s", s); Ev::i("m", m); Ev::i("k", k); }
		else if (o == "map") { REG(s); INT(k); R[r] = R[s].template map<A, E>([k](const E& e) { return E(2*val(e)+k); }); Ev::i("s", s); Ev::i("k", k); }
		else if (o == "inject") { INT(j); int x = R[r].template inject<int>(j, [](int& a, const E& e) { return (a*31+val(e))%9973; }); Ev::i("j", j); Ev::i("ret", x); }
		else if (o == "bsearch") { INT(e); int x = R[r].bsearch([e](const E& x) { return val(x)-e; }); Ev::i("e", e); Ev::i("ret", x); }
		else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(77); }
		obs();
	}
};

static World* W;
static void scenario_begin(const Toks& a) { if (!a.empty() && a[0] == "obj") W = new WorldT<Obj>(); else if (!a.empty() && a[0] == "short") W = new WorldT<int, uint16_t>(); else W = new WorldT<int>(); }
static void scenario_op(const Toks& t) { W->op(t); }
static void scenario_end() { delete W; W = 0; }
