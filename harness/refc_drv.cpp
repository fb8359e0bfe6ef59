// C05: values sharing storage, used by several threads.
//   A <a> <op> ...     what actor a does to registers of its own; ops separated by /:
//   cp r s, mv r s (a temporary copy is assigned), sub r s at n (a slice), app r v, front r v, cut r, set0 r v, cat r s, get r, drop r,
//   many r s v (a copy, when v others hold the value too),
//   new r v.., give k r, take r k (a slot all use, guarded by a latch), nest r s (a copy inside a container, taken out again)
// Header: kind=  init=n (length of the value that actor 0 makes and all start with in register 0)
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
#include <error.h>
#include <thread.h>
#include <condition.h>
#include "vsched.h"
static const int NR = 3, MAX = 64;
struct View { int n; int v[MAX]; View() : n(0) {} void operator()(int x) { if (n < MAX) v[n++] = x; } };
static const UCS4 chr[] = { 'a', 'b', 0xE9, 0x3B1, 'c', 0x4E2D, 'd', 'e', 0x1F600, 'f' };	// 10 values
static int chrno(UCS4 c) { for (int i = 0; i < 10; i++) if (chr[i] == c) return i; return -2; }

struct KStr {	// StrVal
	typedef StrVal T;
	static void app(T& t, int v) { t.append(chr[v]); }
	static void front(T& t, int v) { t.insert(0, StrVal(chr[v])); }
	static void cat(T& t, const T& o) { t += o; }
	static T sub(const T& t, int at, int n) { return t.substr(at, n); }
	static void cut(T& t) { t = t.shorter(1); }
	static void set0(T& t, int v) { T rest = t.substr(1); t = StrVal(chr[v]); t += rest; }
	static void see(const T& t, View& w) { for (int i = 0; i < (int)t.length(); i++) w(chrno(t[i])); }
	static T nest(const T& t) { StringArray a; a.append(t); return a[0]; }
};
struct KUp : KStr {	// with a change of case in place: every value is a lower case letter again afterwards
	static void app(T& t, int v) { t.toUpper(); KStr::app(t, v); t.toLower(); }
};
template<class E> struct KArrOf {
	typedef Array<E> T;
	static void app(T& t, int v) { t.append(E(v)); }
	static void front(T& t, int v) { t.unshift(E(v)); }
	static void cat(T& t, const T& o) { t += o; }
	static T sub(const T& t, int at, int n) { return t.slice(at, n); }
	static void cut(T& t) { t.remove(t.length()-1, 1); }
	static void set0(T& t, int v) { t.elem_mut(0) = E(v); }
	static void see(const T& t, View& w) { for (int i = 0; i < (int)t.length(); i++) w((int)t[i]); }
	static T nest(const T& t) { Array<T> a; a.append(t); return a[0]; }
};
typedef KArrOf<int> KArr;
struct KPull : KArr { static void cut(T& t) { t.pull(); } static void set0(T& t, int v) { t.set(0, v); } };
struct Num { StrVal s; Num() {} Num(int v) : s(chr[v]) {} operator int() const { return chrno(s[0]); } bool operator==(const Num& o) const { return s == o.s; } bool operator<(const Num& o) const { return s < o.s; } };
typedef KArrOf<Num> KStrs;	// elements which share, too
struct KMap {	// position -> value
	typedef CowMap<int> T;
	static StrVal k(int i) { char b[4] = { 'k', (char)('0'+i/10), (char)('0'+i%10), 0 }; return StrVal(b); }
	static void app(T& t, int v) { t.insert(k(t.size()), v); }
	static void front(T& t, int v) { T n; n.insert(k(0), v); int i = 1; for (auto it = t.begin(); it != t.end(); ++it) n.insert(k(i++), it->second); t = n; }
	static void cat(T& t, const T& o) { T c(o); for (auto it = c.begin(); it != c.end(); ++it) app(t, it->second); }
	static T sub(const T& t, int at, int n) { T r; for (int i = at; i < at+n && i < (int)t.size(); i++) app(r, const_cast<T&>(t)[k(i)]); return r; }
	static void cut(T& t) { t.remove(k(t.size()-1)); }
	static void set0(T& t, int v) { t.put(k(0), v); }
	static void see(const T& t, View& w) { int i = 0; for (auto it = t.begin(); it != t.end(); ++it) { if (!(it->first == k(i++))) w(-3); w(it->second); } }
	static T nest(const T& t) { Array<T> a; a.append(t); return a[0]; }
};
struct KVarArr {
	typedef Variant T;
	static T blank() { return T(VariantArray()); }
	static void app(T& t, int v) { VariantArray a = t.as_variant_array(); a.append(Variant(v)); t = a; }
	static void front(T& t, int v) { VariantArray a = t.as_variant_array(); t = Variant(); a.unshift(Variant(v)); t = Variant(a); }
	static void cat(T& t, const T& o) { VariantArray a = t.as_variant_array(); a += o.as_variant_array(); t = a; }
	static T sub(const T& t, int at, int n) { return T(t.as_variant_array().slice(at, n)); }
	static void cut(T& t) { VariantArray a = t.as_variant_array(); a.remove(a.length()-1, 1); t = T(a); }
	static void set0(T& t, int v) { VariantArray a = t.as_variant_array(); a.set(0, Variant(v)); t = T(a); }
	static void see(const T& t, View& w) { const VariantArray a = t.as_variant_array(); for (int i = 0; i < (int)a.length(); i++) w(a[i].as_int()); }
	static T nest(const T& t) { VariantArray a; a.append(t); StrVariantMap m; m.insert("x", Variant(a)); T v(m); return v.as_variant_map()["x"].as_variant_array()[0]; }
};
struct KVarStr {
	typedef Variant T;
	static T blank() { return T(StrVal()); }
	static StrVal get(const T& t) { return t.as_strval(); }
	static void app(T& t, int v) { StrVal s = get(t); KStr::app(s, v); t = s; }
	static void front(T& t, int v) { StrVal s = get(t); t = Variant(7); KStr::front(s, v); t = T(s); }
	static void cat(T& t, const T& o) { StrVal s = get(t); s += get(o); t = s; }
	static T sub(const T& t, int at, int n) { return T(get(t).substr(at, n)); }
	static void cut(T& t) { t = T(get(t).shorter(1)); }
	static void set0(T& t, int v) { StrVal s = get(t); KStr::set0(s, v); t = s; }
	static void see(const T& t, View& w) { StrVal s = get(t); KStr::see(s, w); }
	static T nest(const T& t) { VariantArray a; a.append(t); a.append(t); T v(a); T w2(v); v = T(get(w2.as_variant_array()[1])); return v; }
};
struct KVarStrs {
	typedef Variant T;
	static T blank() { return T(StringArray()); }
	static StringArray get(const T& t) { return t.as_string_array(); }
	static void app(T& t, int v) { StringArray s = get(t); s.append(StrVal(chr[v])); t = s; }
	static void front(T& t, int v) { StringArray s = get(t); s.unshift(StrVal(chr[v])); t = T(s); }
	static void cat(T& t, const T& o) { StringArray s = get(t); s += get(o); t = T(s); }
	static T sub(const T& t, int at, int n) { return T(StringArray(get(t).slice(at, n))); }
	static void cut(T& t) { StringArray s = get(t); s.remove(s.length()-1, 1); t = T(s); }
	static void set0(T& t, int v) { StringArray s = get(t); s.set(0, StrVal(chr[v])); t = T(s); }
	static void see(const T& t, View& w) { StringArray s = get(t); for (int i = 0; i < (int)s.length(); i++) w(chrno(s[i][0])); }
	static T nest(const T& t) { VariantArray a; a.append(t); return a[0]; }
};
struct KVarMap {
	typedef Variant T;
	static T blank() { return T(StrVariantMap()); }
	static StrVariantMap get(const T& t) { return t.as_variant_map(); }
	static int size(const StrVariantMap& m) { return m.size(); }
	static void app(T& t, int v) { StrVariantMap m = get(t); m.insert(KMap::k(size(m)), Variant(v)); t = m; }
	static void front(T& t, int v) { StrVariantMap m = get(t), n; n.insert(KMap::k(0), Variant(v)); for (int i = 0; i < size(m); i++) n.insert(KMap::k(i+1), m[KMap::k(i)]); t = T(n); }
	static void cat(T& t, const T& o) { StrVariantMap m = get(o); int n = size(m); for (int i = 0; i < n; i++) app(t, m[KMap::k(i)].as_int()); }
	static T sub(const T& t, int at, int n) { StrVariantMap m = get(t); T r = blank(); for (int i = at; i < at+n && i < size(m); i++) app(r, m[KMap::k(i)].as_int()); return r; }
	static void cut(T& t) { StrVariantMap m = get(t); m.remove(KMap::k(size(m)-1)); t = T(m); }
	static void set0(T& t, int v) { StrVariantMap m = get(t); m.put(KMap::k(0), Variant(v)); t = T(m); }
	static void see(const T& t, View& w) { StrVariantMap m = get(t); for (int i = 0; i < size(m); i++) w(m[KMap::k(i)].as_int()); }
	static T nest(const T& t) { VariantArray a; a.append(t); return a[0]; }
};
// An immutable value: its number stands for the sequence (base 11, each + 1)
struct KErr {
	typedef Error T;
	static int num(const View& w, int from, int to) { int n = 0; for (int i = from; i < to; i++) n = n*11+w.v[i]+1; return n&0x3FFFFFFF; }
	static void see(const T& t, View& w) { int n = (int32_t)t & 0x3FFFFFFF, d[16], k = 0; while (n && k < 16) { d[k++] = n%11-1; n /= 11; } while (k) w(d[--k]); }
	static T make(const View& w, int from, int to) { int n = num(w, from, to); return n ? T(n, "text") : T(); }
	static void app(T& t, int v) { View w; see(t, w); w(v); t = make(w, 0, w.n); }
	static void front(T& t, int v) { View w, x; see(t, w); x(v); for (int i = 0; i < w.n; i++) x(w.v[i]); t = make(x, 0, x.n); }
	static void cat(T& t, const T& o) { View w; see(t, w); see(o, w); t = make(w, 0, w.n); }
	static T sub(const T& t, int at, int n) { View w; see(t, w); if (at == 0 && n >= w.n) return t; return make(w, at < w.n ? at : w.n, at+n < w.n ? at+n : w.n); }
	static void cut(T& t) { View w; see(t, w); t = make(w, 0, w.n-1); }
	static void set0(T& t, int v) { View w; see(t, w); w.v[0] = v; t = make(w, 0, w.n); }
	static T nest(const T& t) { Array<T> a; a.append(t); return a[0]; }
};
// A user's own counted class
struct Own : public RefCounted { int n; int v[MAX]; Own() : n(0) {} Own(const Own& o) : n(o.n) { for (int i = 0; i < n; i++) v[i] = o.v[i]; } ~Own() { n = -1; } };
struct KRef {
	typedef Ref<Own> T;
	static T blank() { return T(new Own()); }
	static void mine(T& t) { if (!t) t = new Own(); t.Unshare(); }
	static void app(T& t, int v) { mine(t); t->v[t->n++] = v; }
	static void front(T& t, int v) { mine(t); for (int i = t->n++; i > 0; i--) t->v[i] = t->v[i-1]; t->v[0] = v; }
	static void cat(T& t, const T& o) { T c(o); int n = c ? c->n : 0; for (int i = 0; i < n; i++) app(t, c->v[i]); }
	static T sub(const T& t, int at, int n) { T r = t; Own* o = t; if (!o || at+n >= o->n && at == 0) return r; r = new Own(); for (int i = at; i < at+n && i < o->n; i++) app(r, o->v[i]); return r; }
	static void cut(T& t) { mine(t); t->n--; }
	static void set0(T& t, int v) { mine(t); t->v[0] = v; }
	static void see(const T& t, View& w) { Own* o = t; if (o) for (int i = 0; i < o->n; i++) w(o->v[i]); }
	static T nest(const T& t) { T r = t.operator Own*(); T u; u = (Own*)r; return const_cast<T&>(u).Cast<Own>(); }
};

// A list: the last item first, each referring to those before it, which lists may have in common
struct Item : public RefCounted { Ref<Item> next; int v; Item(int _v, Item* n) : next(n), v(_v) {} Item(const Item& o) : next(o.next), v(o.v) {} ~Item() { v = -1; } };
template<bool PTR> struct KListOf {
	typedef Ref<Item> T;
	static void items(const T& t, View& w) { int n = 0, v[MAX]; for (Item* i = t; i && n < MAX; i = i->next) v[n++] = i->v; while (n) w(v[--n]); }
	static void build(T& t, const View& w, int from, int to) { for (int i = from; i < to && i < w.n; i++) app(t, w.v[i]); }
	static void app(T& t, int v) { if (PTR) t = new Item(v, t); else t = T(new Item(v, t)); }
	static void front(T& t, int v) { View w; items(t, w); t = T(); app(t, v); build(t, w, 0, w.n); }
	static void cat(T& t, const T& o) { View w; items(o, w); build(t, w, 0, w.n); }
	static T sub(const T& t, int at, int n) { View w; T r; items(t, w); if (at == 0 && n < w.n) { r = t; for (int i = w.n; i > n; i--) cut(r); } else build(r, w, at, at+n); return r; }
	static void cut(T& t) { if (PTR) t = (Item*)t->next; else t = t->next; }
	static void set0(T& t, int v) { t.Unshare(); T* p = &t; while ((*p)->next) { p = &(*p)->next; p->Unshare(); } (*p)->v = v; }
	static void see(const T& t, View& w) { items(t, w); }
	static T nest(const T& t) { T top(new Item(0, t)); top = top->next; return top; }
};
typedef KListOf<false> KList;
typedef KListOf<true> KListPtr;

template<class K, class = void> struct Blank { static typename K::T make() { return typename K::T(); } };
template<class K> struct Blank<K, decltype((void)K::blank())> { static typename K::T make() { return K::blank(); } };

template<class K> struct Make { static void from(typename K::T& t, const std::vector<int>& o) { for (int v : o) K::app(t, v); } };
static StrVal text(const std::vector<int>& o) { char b[MAX]; char* p = b; for (int v : o) UTF8Put(p, chr[v]); *p = 0; return StrVal(b); }	// its characters not counted yet
template<> struct Make<KStr> { static void from(StrVal& t, const std::vector<int>& o) { t = text(o); if (o.size() < 2) return; KStr::cut(t); KStr::app(t, o.back()); } };	// nor those of the body
template<> struct Make<KUp> : Make<KStr> {};
template<> struct Make<KVarStr> { static void from(Variant& t, const std::vector<int>& o) { t = Variant(text(o)); } };
static std::map<int, std::vector<VsToks>> acts;
static int	nact;
static int	lens[8][NR];
template<class K> struct Run {
	typedef typename K::T T;
	static T& reg(int a, int r) { return ((T*)store())[a*NR+r]; }
	static T& slot(int k) { return ((T*)store())[8*NR+k]; }
	static void* store() { static typename std::aligned_storage<sizeof(T), alignof(T)>::type s[8*NR+2]; return s; }
	static Latch*	latch;
	static void saw(int a, const char* f, int r, int s, int v, int n)	// what the register holds now
	{
		VsQuiet q; View w; K::see(reg(a, r), w); std::vector<int> o(w.v, w.v+w.n); lens[a][r] = w.n;
		std::string j = VsJ("do").i("a", a).i("r", r).i("s", s).i("v", v).i("n", n).vec("out", o).s; j += ",\"f\":\""; j += f; j += "\"}"; vs_log(j);
	}
	static void doOp(int a, const VsToks& t)
	{
		char f[8] = ""; int r, s, v, n;
		{ VsQuiet q; strncpy(f, t[0].c_str(), 7); r = t.size() > 1 ? atoi(t[1].c_str()) : 0; s = t.size() > 2 ? atoi(t[2].c_str()) : 0; v = t.size() > 3 ? atoi(t[3].c_str()) : 0; n = t.size() > 4 ? atoi(t[4].c_str()) : 0; }
		T& x = reg(a, r);
		int len = lens[a][r];	// not asked of the value: the first use of shared storage is the operation's
		if (!strcmp(f, "cp")) x = reg(a, s);
		else if (!strcmp(f, "mv")) { T u(reg(a, s)); T w(u); x = w; }
		else if (!strcmp(f, "many")) {	// v more holders at once
			T* m; { VsQuiet q; m = (T*)malloc(v*sizeof(T)); for (int i = 0; i < v-1; i++) new(&m[i]) T(reg(a, s)); }
			new(&m[v-1]) T(reg(a, s));
			{ VsQuiet q; for (int i = 0; i < v-1; i++) m[i*7LL%(v-1)].~T(); }
			x = m[v-1];
			m[v-1].~T();
			VsQuiet q; free(m);
		}
		else if (!strcmp(f, "sub")) x = K::sub(reg(a, s), v, n);
		else if (!strcmp(f, "app")) K::app(x, s);
		else if (!strcmp(f, "front")) K::front(x, s);
		else if (!strcmp(f, "cat")) { if (len+lens[a][s] > 5) return; K::cat(x, reg(a, s)); }
		else if (!strcmp(f, "cut")) { if (!len) return; K::cut(x); }
		else if (!strcmp(f, "set0")) { if (!len) return; K::set0(x, s); }
		else if (!strcmp(f, "get")) { View w; K::see(x, w); VsQuiet q; std::vector<int> o(w.v, w.v+w.n); std::string j = VsJ("do").i("a", a).i("r", r).i("s", 0).i("v", 0).i("n", 0).vec("out", o).s; vs_log(j+",\"f\":\"get\"}"); }
		else if (!strcmp(f, "drop")) x = Blank<K>::make();
		else if (!strcmp(f, "dtor")) { x.~T(); vs_point(); new(&x) T(Blank<K>::make()); }
		else if (!strcmp(f, "nest")) x = K::nest(reg(a, s));
		else if (!strcmp(f, "give")) { latch->enter(); slot(s) = x; saw(a, f, r, s, v, n); latch->leave(); return; }
		else if (!strcmp(f, "take")) { latch->enter(); x = slot(s); saw(a, f, r, s, v, n); latch->leave(); return; }
		else _exit(77);
		saw(a, f, r, s, v, n);
	}
	static void actor(int a)
	{
		std::vector<VsToks>* v; { VsQuiet q; v = &acts[a]; }
		for (auto& t : *v) doOp(a, t);
		for (int r = 0; r < NR; r++) reg(a, r).~T();
		VsQuiet q; VsJ("fin").i("a", a).log();
	}
	static void all()
	{
		int init = vs_option("init", 3);
		long base;
		std::vector<int> no;
		{
			VsQuiet q;
			{ T warm = Blank<K>::make(); K::app(warm, 1); View w; K::see(warm, w); }		// first use of statics
			no.reserve(16);
			base = vs_livecount();
		}
		{	// with points, though there is only one thread: storage is watched only when it is allocated so
			latch = new Latch();
			std::vector<int> o;
			for (int a = 0; a < nact; a++) for (int r = 0; r < NR; r++) new(&reg(a, r)) T(Blank<K>::make());
			for (int k = 0; k < 2; k++) new(&slot(k)) T(Blank<K>::make());
			for (int i = 0; i < init; i++) o.push_back((i*3+2)%10);
			Make<K>::from(reg(0, 0), o);
			for (int a = 0; a < nact; a++) lens[a][0] = init;
			for (int a = 1; a < nact; a++) reg(a, 0) = reg(0, 0);
			slot(0) = reg(0, 0);
			VsQuiet q; VsJ("conf").vec("init", o).i("actors", nact).log();
		}
		for (int a = 1; a < nact; a++) { int n = vs_spawn([a]() { actor(a); }); VsQuiet q; no.push_back(n); }
		actor(0);
		for (int n : no) vs_wait(n);
		VsQuiet q;
		for (int k = 0; k < 2; k++) slot(k).~T();
		delete latch;
		VsJ("end").i("left", vs_livecount()-base).log();
	}
};
template<class K> Latch* Run<K>::latch;
void vs_scenario(const VsToks&, const std::vector<VsToks>& ops)
{
	{
		VsQuiet q;
		for (auto& l : ops)
		{
			std::vector<VsToks> v; VsToks cur;
			for (size_t i = 2; i < l.size(); i++) if (l[i] == "/") { v.push_back(cur); cur.clear(); } else cur.push_back(l[i]);
			if (!cur.empty()) v.push_back(cur);
			acts[atoi(l[1].c_str())] = v;
		}
		nact = acts.size();
	}
	switch (vs_option("kind", 0))
	{
	case 0: Run<KStr>::all(); break;
	case 1: Run<KArr>::all(); break;
	case 2: Run<KMap>::all(); break;
	case 3: Run<KVarArr>::all(); break;
	case 4: Run<KStrs>::all(); break;
	case 5: Run<KErr>::all(); break;
	case 6: Run<KRef>::all(); break;
	case 7: Run<KVarStr>::all(); break;
	case 8: Run<KVarMap>::all(); break;
	case 9: Run<KUp>::all(); break;
	case 10: Run<KPull>::all(); break;
	case 11: Run<KVarStrs>::all(); break;
	case 12: Run<KList>::all(); break;
	case 13: Run<KListPtr>::all(); break;
	}
}
