// Conformance driver for Variant (C06) and JSON (C07): see spec/VarTrace.tla
#include <strval.h>
#include <variant.h>
#include "drv.h"
#include "strutil.h"
#include "trap.h"

static const int NR = 4;
static Variant*	R;
static const char* tnames[] = { "None", "Integer", "Long", "LongLong", "String", "StrArray", "VarArray", "StrVarMap" };
static const Variant::VariantType tvals[] = { Variant::None, Variant::Integer, Variant::Long, Variant::LongLong, Variant::String, Variant::StrArray, Variant::VarArray, Variant::StrVarMap };
static const char* tname(Variant::VariantType t) { for (int i = 0; i < 8; i++) if (tvals[i] == t) return tnames[i]; return "?"; }
static int tindex(const std::string& n) { for (int i = 0; i < 8; i++) if (n == tnames[i]) return i; fprintf(stderr, "bad type %s\n", n.c_str()); _exit(77); }

struct Rec { const char* t; std::string n; std::vector<int> s; };
static void rec(const char* t, const std::string& n, const std::vector<int>* s)
{
	Ev::raw("{\"t\":\""); Ev::raw(t); Ev::raw("\",\"n\":"); Ev::list(n.begin(), n.end());
	Ev::raw(",\"s\":"); if (s) evlist(*s); else Ev::raw("[]");
}
static std::string dnum(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }
static void recStr(const std::vector<int>& s) { rec("String", "", &s); Ev::raw(",\"k\":[],\"a\":[]}"); }
static void recArr(const StringArray& a) { rec("StrArray", "", 0); Ev::raw(",\"k\":[],\"a\":["); for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); recStr(sv(a[i])); } Ev::raw("]}"); }
static void dump(const Variant& v);
static void recArr(const VariantArray& a) { rec("VarArray", "", 0); Ev::raw(",\"k\":[],\"a\":["); for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); dump(a[i]); } Ev::raw("]}"); }
static void recMap(const StrVariantMap& m)
{
	rec("StrVarMap", "", 0); Ev::raw(",\"k\":[");
	bool c = false; for (StrVariantMap::Iter it = m.begin(); it != m.end(); it++) { if (c) Ev::ch(','); c = true; evlist(sv(it->first)); }
	Ev::raw("],\"a\":[");
	c = false; for (StrVariantMap::Iter it = m.begin(); it != m.end(); it++) { if (c) Ev::ch(','); c = true; dump(it->second); }
	Ev::raw("]}");
}
static void recNum(const char* t, long long v) { rec(t, dnum(v), 0); Ev::raw(",\"k\":[],\"a\":[]}"); }
static void dump(const Variant& v)
{
	switch (v.type())
	{
	case Variant::None:	rec("None", "", 0); Ev::raw(",\"k\":[],\"a\":[]}"); break;
	case Variant::Integer:	recNum("Integer", v.as_int()); break;
	case Variant::Long:	recNum("Long", v.as_long()); break;
	case Variant::LongLong:	recNum("LongLong", v.as_longlong()); break;
	case Variant::String:	recStr(sv(v.as_strval())); break;
	case Variant::StrArray:	recArr(v.as_string_array()); break;
	case Variant::VarArray:	recArr(v.as_variant_array()); break;
	case Variant::StrVarMap: recMap(v.as_variant_map()); break;
	default:		Ev::raw("{\"t\":\"?\"}");
	}
}
static void obs() { Ev::start("obs"); Ev::key("obs"); Ev::ch('['); for (int r = 0; r < NR; r++) { if (r) Ev::ch(','); dump(R[r]); } Ev::ch(']'); }
static StrVal make(const std::string& how, const std::vector<int>& v) { return how == "slice" ? mkslice(v) : mkstr(v); }
static Variant byvalue(Variant v) { return v; }

static void scenario_begin(const Toks&) { R = new Variant[NR]; }
static void scenario_end() { delete [] R; R = 0; }
static void scenario_op(const Toks& t)
{
	const std::string& o = t[0];
	if (o == "obs") { obs(); return; }
	if (o == "jstr")	// jstr chars how: escape a string, and in place
	{
		std::vector<int> v = L(t[1]);
		StrVal s, hold;
		if (t[2] == "shared") { s = mkstr(v); hold = s; } else s = make(t[2], v);
		StrVal e = s.asJSON();
		Ev::start("jstr"); Ev::vec("s", v); Ev::vec("text", sv(e)); Ev::vec("after", sv(s));
		if (t[2] == "shared") { s.toJSON(); Ev::vec("text2", sv(s)); Ev::i("len2", s.length()); s = hold; if (sv(hold) != v) Ev::i("hold", 1); }
		else { s.toJSON(); Ev::vec("text2", sv(s)); Ev::i("len2", s.length()); }
		return;
	}
	int r = I(t[1]);
	Variant& x = R[r];
	Ev::start(o.c_str()); Ev::i("r", r);
	if (o == "new")		// new r Type value how
	{
		int k = tindex(t[2]);
		Ev::key("v");
		switch (k)
		{
		case 0: x = Variant(); rec("None", "", 0); Ev::raw(",\"k\":[],\"a\":[]}"); break;
		case 1: x = Variant((int)I(t[3])); recNum("Integer", I(t[3])); break;
		case 2: x = Variant((long)I(t[3])); recNum("Long", I(t[3])); break;
		case 3: x = Variant((long long)I(t[3])); recNum("LongLong", I(t[3])); break;
		case 4:
			if (t[4] == "z") x = Variant(enc(L(t[3])).c_str()); else x = Variant(make(t[4], L(t[3])));
			recStr(L(t[3])); break;
		case 5:	// new r StrArray how el el ...
		{
			std::vector<StrVal> e; StringArray a; for (size_t i = 4; i < t.size(); i++) { e.push_back(make(t[3] == "slice" ? "slice" : "whole", L(t[i]))); a.append(e.back()); }
			if (t[3] == "ptr") x = Variant(e.data(), (StringArray::Index)e.size()); else x = Variant(a);
			rec("StrArray", "", 0); Ev::raw(",\"k\":[],\"a\":["); for (size_t i = 4; i < t.size(); i++) { if (i > 4) Ev::ch(','); recStr(L(t[i])); } Ev::raw("]}"); break;
		}
		}
	}
	else if (o == "newtype") { Ev::str("t", t[2].c_str()); x = Variant(tvals[tindex(t[2])]); }
	else if (o == "copy")
	{
		int s = I(t[2]); Ev::i("s", s);
		if (t[3] == "ctor") { Variant c(R[s]); x = Variant(); x = c; }
		else if (t[3] == "value") x = byvalue(byvalue(R[s]));
		else x = R[s];
	}
	else if (o == "pair") { int s = I(t[2]), u = I(t[3]); Ev::i("s", s); Ev::i("u", u); x = Variant(R[s] << R[u]); }
	else if (o == "array")	// array r how s s ...
	{
		VariantArray a; std::vector<Variant> e; std::vector<int> ss;
		for (size_t i = 3; i < t.size(); i++) { ss.push_back(I(t[i])); a.append(R[ss.back()]); e.push_back(R[ss.back()]); }
		Ev::vec("ss", ss);
		if (t[2] == "ptr") x = Variant(e.data(), (VariantArray::Index)e.size());
		else if (t[2] == "shift" && !ss.empty()) { VariantArray b; for (size_t i = 0; i < ss.size(); i++) b << R[ss[i]]; x = Variant(b); }
		else x = Variant(a);
	}
	else if (o == "map")	// map r how k s k s ...
	{
		std::vector<StrVal> ks; std::vector<Variant> vs; std::vector<int> ss;
		Ev::key("ks"); Ev::ch('['); for (size_t i = 3; i+1 < t.size(); i += 2) { if (i > 3) Ev::ch(','); evlist(L(t[i])); ks.push_back(mkstr(L(t[i]))); ss.push_back(I(t[i+1])); vs.push_back(R[ss.back()]); } Ev::ch(']');
		Ev::vec("ss", ss);
		if (t[2] == "ptr") x = Variant(ks.data(), vs.data(), (StringArray::Index)ks.size());
		else { StrVariantMap m(ks.data(), vs.data(), (int)ks.size()); x = Variant(m); }
	}
	else if (o == "append") { int s = I(t[2]); Ev::i("s", s); VariantArray a = x.as_variant_array(); a.append(R[s]); x = Variant(a); }
	else if (o == "elem")
	{
		int s = I(t[2]), i = I(t[3]); Ev::i("s", s); Ev::i("i", i);
		const Variant& c = R[s];
		if (c.type() == Variant::StrArray) x = Variant(StrVal(c.as_string_array()[i]));
		else if (c.type() == Variant::StrVarMap) { StrVariantMap m = c.as_variant_map(); StrVariantMap::Iter it = m.begin(); for (int k = 0; k < i; k++) it++; Variant v = it->second; x = v; }
		else x = c.as_variant_array()[i];
	}
	else if (o == "putin") { int s = I(t[3]); Ev::key("k"); evlist(L(t[2])); Ev::i("s", s); StrVariantMap m = x.as_variant_map(); m.put(mkstr(L(t[2])), R[s]); x = Variant(m); }
	else if (o == "as")	// as r Type
	{
		int k = tindex(t[2]); Ev::str("t", t[2].c_str());
		bool ok = false; Ev::key("ret");
		size_t at = Ev::n;
		switch (k)
		{
		case 1: ok = vp_trap([&]() { recNum("Integer", x.as_int()); }); break;
		case 2: ok = vp_trap([&]() { recNum("Long", x.as_long()); }); break;
		case 3: ok = vp_trap([&]() { recNum("LongLong", x.as_longlong()); }); break;
		case 4: ok = vp_trap([&]() { StrVal s = x.as_strval(); recStr(sv(s)); }); break;
		case 5: ok = vp_trap([&]() { StringArray a = x.as_string_array(); recArr(a); }); break;
		case 6: ok = vp_trap([&]() { VariantArray a = x.as_variant_array(); recArr(a); }); break;
		case 7: ok = vp_trap([&]() { StrVariantMap m = x.as_variant_map(); recMap(m); }); break;
		}
		if (!ok) { Ev::n = at; Ev::raw("{}"); }
		Ev::comma = true; Ev::b("ok", ok);
	}
	else if (o == "asconst")
	{
		int k = tindex(t[2]); Ev::str("t", t[2].c_str());
		const Variant& c = x;
		bool ok = false; Ev::key("ret");
		size_t at = Ev::n;
		switch (k)
		{
		case 1: ok = vp_trap([&]() { recNum("Integer", c.as_int()); }); break;
		case 2: ok = vp_trap([&]() { recNum("Long", c.as_long()); }); break;
		case 3: ok = vp_trap([&]() { recNum("LongLong", c.as_longlong()); }); break;
		case 4: ok = vp_trap([&]() { const StrVal s = c.as_strval(); recStr(sv(s)); }); break;
		case 5: ok = vp_trap([&]() { const StringArray a = c.as_string_array(); recArr(a); }); break;
		case 6: ok = vp_trap([&]() { const VariantArray a = c.as_variant_array(); recArr(a); }); break;
		case 7: ok = vp_trap([&]() { const StrVariantMap m = c.as_variant_map(); recMap(m); }); break;
		}
		if (!ok) { Ev::n = at; Ev::raw("{}"); }
		Ev::comma = true; Ev::b("ok", ok);
	}
	else if (o == "setnum")	// setnum r Type n: assign through the reference an access returns
	{
		int k = tindex(t[2]); long long n = I(t[3]); Ev::str("t", t[2].c_str());
		std::string d = dnum(n); Ev::seq("n", d.begin(), d.end());
		bool ok = vp_trap([&]() { if (k == 1) x.as_int() = (int)n; else if (k == 2) x.as_long() = (long)n; else x.as_longlong() = n; });
		Ev::b("ok", ok);
	}
	else if (o == "scribble")	// change what an access returned: copies only
	{
		switch (x.type())
		{
		case Variant::String: { StrVal s = x.as_strval(); s += "scribble"; s.insert(0, StrVal("z")); s.toUpper(); break; }
		case Variant::StrArray: { StringArray a = x.as_string_array(); a.append(StrVal("z")); if (a.length() > 1) a.delete_at(0); break; }
		case Variant::VarArray: { VariantArray a = x.as_variant_array(); a.append(Variant(5)); a.set(0, Variant("z")); break; }
		case Variant::StrVarMap: { StrVariantMap m = x.as_variant_map(); m.put(StrVal("a"), Variant(99)); m.remove(StrVal("b")); m.insert(StrVal("zz"), Variant(1)); m.clear(); break; }
		default: { Variant c(x); c = Variant(1); c.as_int() = 77; }
		}
	}
	else if (o == "type") { Ev::str("t", tname(x.type())); Ev::str("name", x.type_name()); Ev::b("null", x.is_null()); }
	else if (o == "json")	// json r indent
	{
		int ind = I(t[2]); Ev::i("indent", ind);
		StrVal j = t.size() > 3 && t[3] == "default" ? x.as_json() : x.as_json(ind);
		Ev::vec("text", sv(j));
	}
	else { fprintf(stderr, "bad op %s\n", o.c_str()); _exit(77); }
}
