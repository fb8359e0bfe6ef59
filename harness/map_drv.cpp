// Conformance driver for CowMap (C04): see spec/MapTrace.tla
#include <strval.h>
#include <variant.h>
#include "drv.h"
#include "strutil.h"

static const int NR = 4;
struct World { virtual ~World() {} virtual void op(const Toks& t) = 0; };

// How each kind of key and value is made from, and read back as, integers
struct KInt { typedef int T; static T mk(const std::vector<int>& v, bool) { return v.at(0); } static std::vector<int> rd(const T& k) { return std::vector<int>(1, k); } };
struct KStr { typedef StrVal T; static T mk(const std::vector<int>& v, bool sl) { return sl ? mkslice(v) : mkstr(v); } static std::vector<int> rd(const T& k) { return sv(k); } };
struct VInt { typedef int T; static T mk(int v) { return v; } static int rd(const T& v) { return v; } };
struct VStr { typedef StrVal T; static T mk(int v) { char b[20]; sprintf(b, "%d", v); return StrVal(b); } static int rd(const T& v) { std::vector<int> c = sv(v); int n = 0; for (size_t i = 0; i < c.size(); i++) n = n*10+c[i]-'0'; return n; } };
struct VVar { typedef Variant T; static T mk(int v) { if (v%2) { char b[20]; sprintf(b, "%d", v); return Variant(StrVal(b)); } return Variant(v); }
	static int rd(const T& v) { if (v.type() == Variant::None) return 0; if (v.type() == Variant::Integer) return v.as_int(); return VStr::rd(v.as_strval()); } };

static bool cond(int p, const std::vector<int>& k, int v)
{
	switch (p) { case 0: return true; case 1: return false; case 2: return v%2 == 1; case 3: return k.size() == 1; case 4: return v > 5; default: return !k.empty() && k[0] < 98; }
}

template<class M, class KK, class VV> struct WorldOf : World
{
	typedef typename KK::T K; typedef typename VV::T V;
	M*	R;
	WorldOf() { R = new M[NR]; }
	~WorldOf() { delete [] R; }
	void entries(const M& m)
	{
		Ev::ch('['); bool c = false;
		for (typename M::Iter it = m.begin(); it != m.end(); it++) { if (c) Ev::ch(','); c = true; Ev::ch('['); evlist(KK::rd(it->first)); Ev::ch(','); Ev::num(VV::rd(it->second)); Ev::ch(']'); }
		Ev::ch(']');
	}
	void op(const Toks& t)
	{
		const std::string& o = t[0];
		if (o == "obs") { Ev::start("obs"); Ev::key("obs"); Ev::ch('['); for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); entries(R[r]); } Ev::ch(']'); return; }
		int r = I(t[1]);
		Ev::start(o.c_str()); Ev::i("r", r);
		M& m = R[r];
		if (o == "new")		// new r how k v k v ...
		{
			std::vector<K> ks; std::vector<V> vs;
			Ev::key("es"); Ev::ch('[');
			for (size_t i = 3; i+1 < t.size(); i += 2) { if (i > 3) Ev::ch(','); Ev::ch('['); evlist(L(t[i])); Ev::ch(','); Ev::num(I(t[i+1])); Ev::ch(']'); ks.push_back(KK::mk(L(t[i]), false)); vs.push_back(VV::mk(I(t[i+1]))); }
			Ev::ch(']');
			if (t[2] == "empty") m = M();
			else m = M(ks.data(), vs.data(), (int)ks.size());
		}
		else if (o == "copy")	// copy r s how
		{
			int s = I(t[2]); Ev::i("s", s);
			if (t[3] == "ctor") { M c(R[s]); m.clear(); m = c; }
			else if (t[3] == "value") { struct F { static M id(M x) { return x; } }; m = F::id(R[s]); }
			else m = R[s];
		}
		else if (o == "put" || o == "insert" || o == "remove" || o == "get" || o == "has" || o == "find")	// op r k slice [v]
		{
			K k = KK::mk(L(t[2]), t[3] == "1");
			Ev::key("k"); evlist(L(t[2]));
			if (o == "put")
			{
				int v = I(t[4]); Ev::i("v", v); Ev::key("ret");
				typename M::Iter it = m.find(k);
				if (t[3] == "2" && it != m.end()) evlist(KK::rd(m.put(it->first, VV::mk(v))));	// by reference to the map's own key
				else evlist(KK::rd(m.put(k, VV::mk(v))));
			}
			else if (o == "insert") { int v = I(t[4]); Ev::i("v", v); m.insert(k, VV::mk(v)); }
			else if (o == "remove")
			{
				typename M::Iter it = m.find(k);
				if (t[3] == "2" && it != m.end()) m.remove(it->first);
				else m.remove(k);
			}
			else if (o == "get") Ev::i("ret", VV::rd(m[k]));
			else if (o == "has") Ev::b("ret", m.contains(k));
			else { typename M::Iter it = m.find(k); bool f = it != m.end(); Ev::b("found", f); if (f) { Ev::key("key"); evlist(KK::rd(it->first)); Ev::i("ret", VV::rd(it->second)); } }
		}
		else if (o == "clear") m.clear();
		else if (o == "size") Ev::i("ret", (long)m.size());
		else if (o == "keys") { Array<K> a = m.keys(); Ev::key("ret"); Ev::ch('['); for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); evlist(KK::rd(a[i])); } Ev::ch(']'); }
		else if (o == "values") { Array<V> a = m.values(); Ev::key("ret"); Ev::ch('['); for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); Ev::num(VV::rd(a[i])); } Ev::ch(']'); }
		else if (o == "each")
		{
			Ev::key("ret"); Ev::ch('['); bool c = false;
			m.each([&](const K& k, const V& v) { if (c) Ev::ch(','); c = true; Ev::ch('['); evlist(KK::rd(k)); Ev::ch(','); Ev::num(VV::rd(v)); Ev::ch(']'); });
			Ev::ch(']');
		}
		else if (o == "count")
		{
			int p = I(t[2]); Ev::i("p", p);
			std::function<bool(const K&, const V&)> f = [&](const K& k, const V& v) { return cond(p, KK::rd(k), VV::rd(v)); };
			Ev::b("all", m.all(f)); Ev::b("any", m.any(f)); Ev::b("one", m.one(f));
		}
		else if (o == "select") sel(m, t, 0);
		else if (o == "map") mp(m, t, 0);
		else if (o == "inject")
		{
			int st = I(t[2]); Ev::i("start", st);
			std::function<int(int&, const K&, const V&)> f = [&](int& a, const K& k, const V& v) { return (a*3+VV::rd(v)+(int)KK::rd(k).size())%10007; };
			Ev::i("ret", m.template inject<int>(st, f));
		}
		else if (o == "visit")	// visit r s how at what k v: map s changes while r is at its entry
		{
			int s = I(t[2]), at = I(t[4]), v = I(t[7]), n = 0; M& a = R[s]; const std::string &how = t[3], &what = t[5];
			std::vector<int> kk = L(t[6]);
			Ev::i("s", s); Ev::i("at", at); Ev::str("what", what.c_str()); Ev::key("k"); evlist(kk); Ev::i("v", v);
			Ev::key("seen"); Ev::ch('[');
			auto look = [&](const K& k, const V& w) {
				if (n) Ev::ch(','); Ev::ch('['); evlist(KK::rd(k)); Ev::ch(','); Ev::num(VV::rd(w)); Ev::ch(']');
				if (n++ != at) return;
				if (what == "put") a.put(KK::mk(kk, false), VV::mk(v));
				else if (what == "remove") a.remove(KK::mk(kk, false));
				else if (what == "this") a.remove(k);		// the one being visited
				else if (what == "same") a.put(k, VV::mk(v));
				else if (what == "clear") a.clear();
				else if (what == "empty") a = M();
				else _exit(77);
			};
			std::function<bool(const K&, const V&)> no = [&](const K& k, const V& w) { look(k, w); return false; }, yes = [&](const K& k, const V& w) { look(k, w); return true; };
			std::function<int(int&, const K&, const V&)> add = [&](int& x, const K& k, const V& w) { look(k, w); return x+1; };
			std::function<std::pair<K, V>(const K&, const V&)> same = [&](const K& k, const V& w) { look(k, w); return std::pair<K, V>(k, w); };
			int size = -1;
			if (how == "each") m.each(look);
			else if (how == "all") m.all(yes);
			else if (how == "any") m.any(no);
			else if (how == "one") m.one(no);
			else if (how == "select") size = (int)m.select(yes).size();
			else if (how == "map") size = (int)m.map(same).size();
			else if (how == "inject") size = m.template inject<int>(0, add);
			else _exit(77);
			Ev::ch(']'); Ev::i("made", size < 0 ? n : size);
		}
		else { fprintf(stderr, "bad op %s\n", o.c_str()); _exit(77); }
	}
	// select and map return the base template
	void give(M& m, const M& v) { m = v; }
	template<class B> void give(M& m, const B& v) { M fresh; for (typename B::Iter it = v.begin(); it != v.end(); it++) fresh.insert(it->first, it->second); m = fresh; }
	void sel(M& m, const Toks& t, int)
	{
		int s = I(t[2]), p = I(t[3]); Ev::i("s", s); Ev::i("p", p);
		give(m, R[s].select([&](const K& k, const V& v) { return cond(p, KK::rd(k), VV::rd(v)); }));
	}
	void mp(M& m, const Toks& t, int)
	{
		int s = I(t[2]), f = I(t[3]); Ev::i("s", s); Ev::i("f", f);
		std::function<std::pair<K, V>(const K&, const V&)> fn = [&](const K& k, const V& v) {
			std::vector<int> kk = KK::rd(k); if (f == 1 && kk.size() > 1) kk.resize(1); if (f == 2) kk = std::vector<int>(1, 97);
			return std::pair<K, V>(KK::mk(kk, false), VV::mk(VV::rd(v)+1)); };
		give(m, R[s].map(fn));
	}
};

static World* W;
static void scenario_begin(const Toks& h)
{
	std::string k = h.empty() ? "int" : h[0];
	if (k == "int") W = new WorldOf<CowMap<int, int>, KInt, VInt>();
	else if (k == "str") W = new WorldOf<CowMap<StrVal, StrVal>, KStr, VStr>();
	else if (k == "strint") W = new WorldOf<CowMap<int>, KStr, VInt>();
	else W = new WorldOf<StrVariantMap, KStr, VVar>();
}
static void scenario_op(const Toks& t) { W->op(t); }
static void scenario_end() { delete W; W = 0; }
