// C14, C15: parsing by Peg; see spec/PegGramTrace.tla
//   clear                       forget the grammar
//   rule name pattern cap,.. cap,..
//   plain b,b,..                parse without captures
//   parse b,b,..                parse to an AST
#include <cassert>
#include <char_encoding.h>
#include <refcount.h>
#include <strval.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
#include "drv.h"
struct R { char* name; char* p; int len; std::vector<char*> caps; };
static std::vector<R*> rules;
typedef Peg<> Plain;
typedef Peg<PegMemorySource, PegMatch, PegContext> AstPeg;
static Plain* plain; static AstPeg* ast;
static std::vector<Plain::Rule>* prules; static std::vector<AstPeg::Rule>* arules;
static char* hold(const std::vector<int>& v) { char* s = (char*)malloc(v.size()+1); for (size_t i = 0; i < v.size(); i++) s[i] = (char)v[i]; s[v.size()] = 0; return s; }
static void drop() { delete plain; plain = 0; delete ast; ast = 0; delete prules; prules = 0; delete arules; arules = 0; }
static void clear()
{
	drop();
	for (size_t i = 0; i < rules.size(); i++) { for (size_t j = 0; j < rules[i]->caps.size(); j++) free(rules[i]->caps[j]); free(rules[i]->name); free(rules[i]->p); delete rules[i]; }
	std::vector<R*>().swap(rules);
}
static void build()
{
	if (plain) return;
	prules = new std::vector<Plain::Rule>; arules = new std::vector<AstPeg::Rule>;
	for (size_t i = 0; i < rules.size(); i++)
	{
		R* r = rules[i];
		prules->push_back(Plain::Rule(r->name, Plain::PegexpT(r->p)));
		arules->push_back(AstPeg::Rule(r->name, AstPeg::PegexpT(r->p), r->caps.size() > 1 ? (const char**)&r->caps[0] : 0));
	}
	plain = new Plain(&(*prules)[0], prules->size()); ast = new AstPeg(&(*arules)[0], arules->size());
}
static void bytes(const char* s, size_t n) { Ev::ch('['); for (size_t i = 0; i < n; i++) { if (i) Ev::ch(','); Ev::num((unsigned char)s[i]); } Ev::ch(']'); }
static void strv(const StrVal& v) { StrVal s(v); const char* p = s.asUTF8(); bytes(p, strlen(p)); }
// a value as a flat list: ["s",bytes] | ["a",n] and n values | ["m",n] and n times ["k",bytes] and a value
static bool first;
static void tok(const char* k, int n) { if (!first) Ev::ch(','); first = false; Ev::raw("[\""); Ev::raw(k); Ev::raw("\","); Ev::num(n); Ev::ch(']'); }
static void tok(const char* k, const StrVal& v) { if (!first) Ev::ch(','); first = false; Ev::raw("[\""); Ev::raw(k); Ev::raw("\","); strv(v); Ev::ch(']'); }
static void val(const Variant& v)
{
	switch (v.type())
	{
	case Variant::String: tok("s", v.as_strval()); break;
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); tok("a", a.length()); for (int i = 0; i < (int)a.length(); i++) val(a[i]); break; }
	case Variant::StrVarMap: { StrVariantMap m = v.as_variant_map(); int n = 0; for (auto i = m.begin(); i != m.end(); ++i) n++; tok("m", n); for (auto i = m.begin(); i != m.end(); ++i) { tok("k", i->first); val(i->second); } break; }
	default: tok("?", v.type());
	}
}
static void scenario_begin(const Toks&) {}
static void scenario_end() { clear(); }
static void scenario_op(const Toks& t)
{
	if (t[0] == "clear") { clear(); Ev::start("clear"); return; }
	if (t[0] == "rule")
	{
		drop();
		R* r = new R; std::vector<int> n = L(t[1]), p = L(t[2]); r->name = hold(n); r->p = hold(p); r->len = p.size();
		Ev::start("rule"); Ev::vec("name", n); Ev::vec("p", p); Ev::key("caps"); Ev::ch('[');
		for (size_t i = 3; i < t.size(); i++) { if (i > 3) Ev::ch(','); std::vector<int> c = L(t[i]); Ev::list(c.begin(), c.end()); r->caps.push_back(hold(c)); }
		r->caps.push_back(0); Ev::ch(']'); rules.push_back(r);
		return;
	}
	build();
	std::vector<int> v = L(t[1]); char* text = hold(v);
	if (t[0] == "plain")
	{
		Plain::Source start(text), src(start);
		Plain::Match m = plain->parse(src);
		Ev::start("plain"); Ev::vec("s", v); Ev::b("ok", !m.is_failure()); Ev::i("left", src-start);
	}
	else
	{
		PegMemorySource start(text), src(start);
		PegMatch m = ast->parse(src);
		Ev::start("parse"); Ev::vec("s", v); Ev::b("ok", !m.is_failure()); Ev::i("left", src.peek()-start.peek());
		if (!m.is_failure()) { Ev::key("val"); Ev::ch('['); first = true; val(m.var); Ev::ch(']'); }
		Ev::i("far", m.furthermost_success.is_null() ? -1 : m.furthermost_success.peek()-start.peek());
		Ev::key("wants"); Ev::ch('[');
		for (int i = 0; i < (int)m.failures.length(); i++)
		{
			PegFailure f = m.failures[i]; if (i) Ev::ch(',');
			Ev::ch('[');
			size_t k = 0; while (k < rules.size() && !(f.atom >= rules[k]->p && f.atom <= rules[k]->p+rules[k]->len)) k++;
			if (k < rules.size()) { bytes(rules[k]->name, strlen(rules[k]->name)); Ev::ch(','); Ev::num(f.atom-rules[k]->p+1); Ev::ch(','); Ev::num(f.atom-rules[k]->p+1+f.atom_len); }
			else Ev::raw("[],0,0");
			Ev::raw(",[");
			for (int j = 0; j < (int)f.path.length(); j++) { if (j) Ev::ch(','); const char* n = f.path[j]; bytes(n, strlen(n)); }
			Ev::raw("]]");
		}
		Ev::ch(']');
	}
	free(text);
}
