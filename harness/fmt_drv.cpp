// Conformance driver for StringArray::join and StrVal::format (C22): see spec/FmtTrace.tla
#include <strval.h>
#include <variant.h>
#include "drv.h"
#include "strutil.h"
#include "trap.h"
static void scenario_begin(const Toks&) {}
static void scenario_end() {}
static StrVal make(const std::string& how, const std::vector<int>& v) { return how == "slice" ? mkslice(v) : mkstr(v); }
// A string array of the elements after position h, which says how to make it
static StringArray strings(const Toks& t, size_t h)
{
	StringArray a;
	size_t n = t.size()-h-1;
	if (t[h] == "block" || t[h] == "roomy")
	{
		std::vector<StrVal> v;
		for (size_t i = h+1; i < t.size(); i++) v.push_back(make("whole", L(t[i])));
		return t[h] == "block" ? StringArray(v.data(), n) : StringArray(v.data(), n, n+7);
	}
	if (t[h] == "bytes")
	{
		std::vector<std::string> v; std::vector<const char*> c;
		for (size_t i = h+1; i < t.size(); i++) { StrVal s = make("whole", L(t[i])); v.push_back(std::string(s.asUTF8(), s.numBytes())); }
		for (size_t i = 0; i < n; i++) c.push_back(v[i].c_str());
		Array<const char*> ca(c.data(), n);
		return StringArray(ca);
	}
	for (size_t i = h+1; i < t.size(); i++) if (t[h] == "shift") a << make("whole", L(t[i])); else a.append(make(t[h], L(t[i])));
	return a;
}
static Variant arg(const std::string& a, const std::string& how)
{
	std::string v = a.substr(2);
	switch (a[0])
	{
	case 'i': return Variant((int)I(v));
	case 'l': return Variant((long)I(v));
	case 'L': return Variant((long long)I(v));
	case 's': return Variant(make(how, L(v)));
	}
	VariantArray e; return Variant(e);
}
static void evall(const StringArray& a) { Ev::ch('['); for (int i = 0; i < (int)a.length(); i++) { if (i) Ev::ch(','); evlist(sv(a[i])); } Ev::ch(']'); }
static void scenario_op(const Toks& t)
{
	if (t[0] == "take")	// take what at how el el el ...
	{
		StringArray a = strings(t, 3), b(a);
		StrVal r;
		if (t[1] == "last") r = a.last();
		else if (t[1] == "pull") r = StrVal(a.pull());
		else if (t[1] == "delete") r = a.delete_at(I(t[2]));
		else if (t[1] == "elem") r = a.elem(I(t[2]));
		else _exit(77);
		Ev::start("take"); Ev::str("what", t[1].c_str()); Ev::i("at", I(t[2]));
		Ev::key("a"); Ev::ch('['); for (size_t i = 4; i < t.size(); i++) { if (i > 4) Ev::ch(','); evlist(L(t[i])); } Ev::ch(']');
		Ev::key("ret"); evlist(sv(r)); Ev::i("len", r.length());
		Ev::key("after"); evall(a); Ev::key("copy"); evall(b);
		return;
	}
	if (t[0] == "join")	// join joiner how el el el ...
	{
		std::vector<int> j = L(t[1]);
		StringArray a = strings(t, 2);
		if (t[2] == "slice" && t.size() > 4)	// the array too
		{
			StringArray b; b.append(StrVal("no")); for (int i = 0; i < (int)a.length(); i++) b.append(a[i]); b.append(StrVal("nor this"));
			a = StringArray(b.slice(1, a.length()));
		}
		StrVal r = a.join(make(t[2], j));
		Ev::start("join"); Ev::vec("j", j);
		Ev::key("a"); Ev::ch('['); for (size_t i = 3; i < t.size(); i++) { if (i > 3) Ev::ch(','); evlist(L(t[i])); } Ev::ch(']');
		Ev::key("ret"); evlist(sv(r)); Ev::i("len", r.length());
		Ev::key("after"); evall(a);
	}
	else if (t[0] == "format")	// format chars how kind:value ...
	{
		std::vector<int> fv = L(t[1]), ret; int len = -1;
		bool ok;
		long before = vp_live;
		{
			StrVal f = make(t[2], fv);
			VariantArray args;
			for (size_t i = 3; i < t.size(); i++)
			{
				if (t[2] == "chain" && i == 3 && t.size() > 4)	// a << b << ...
				{
					Variant second = arg(t[4], t[2]);
					if (t[3][0] != 's') args = arg(t[3], t[2]) << second;
					else { StrVal s = make(t[2], L(t[3].substr(2))); if (s.length()%2 == 0 && strlen(s.asUTF8()) == (size_t)s.numBytes()) args = s.asUTF8() << second; else args = s << second; }
					i++;
				}
				else if (t[2] == "chain") args << arg(t[i], t[2]);
				else args.append(arg(t[i], t[2]));
			}
			struct R { StrVal* r; } hold; hold.r = 0;
			ok = vp_trap([&]() { hold.r = new StrVal(StrVal::format(f, args)); });
			if (ok) { ret = sv(*hold.r); len = hold.r->length(); delete hold.r; }
			fv = sv(f);
		}
		if (!ok) vp_live = before;	// what the refused call held is not released
		Ev::start("format"); Ev::vec("f", L(t[1])); Ev::vec("fafter", fv);
		Ev::key("args"); Ev::ch('[');
		for (size_t i = 3; i < t.size(); i++)
		{
			if (i > 3) Ev::ch(',');
			char k = t[i][0]; std::string v = t[i].substr(2);
			Ev::raw("{\"t\":\""); Ev::raw(k == 's' ? "str" : k == 'a' ? "arr" : I(v) != (int)I(v) ? "long" : "int"); Ev::raw("\",\"s\":");
			if (k == 's') evlist(L(v)); else if (k == 'a') Ev::raw("[91,32,32,93]"); else Ev::list(v.begin(), v.end());
			Ev::ch('}');
		}
		Ev::ch(']');
		Ev::b("ok", ok); Ev::vec("ret", ret); Ev::i("len", len);
	}
	else _exit(77);
}
