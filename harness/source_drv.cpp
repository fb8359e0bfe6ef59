// C23: parsing sources; see spec/SourceTrace.tla
//   conf KIND b,b,..  a text, in storage of exactly its length and a NUL; registers become void
//   new r at | null r | cp r s | as r s | byte r | char r | cmp r s | skip r n
#include <cassert>
#include <strval.h>
#include <variant.h>
#include <peg_ast.h>
#include <char_ptr.h>
#include "drv.h"
static char* text; static int len;
struct Any { virtual ~Any() {} virtual void op(const Toks& t) = 0; };
template<class S> struct All : public Any
{
	S	reg[4], start;
	All() : start(text) {}
	void saw(S& x)
	{
		Ev::b("null", x.is_null()); Ev::b("eof", x.at_eof()); Ev::b("bol", x.at_bol());
		Ev::i("pos", x.is_null() ? 0 : (long long)(x - start));
		Ev::i("b", x.current_byte()); Ev::i("l", x.current_line()); Ev::i("c", x.current_column());
	}
	void ch(uint32_t c) { int v[2] = {(int)(c >> 16), (int)(c & 0xFFFF)}; Ev::seq("ch", v, v+2); }
	void op(const Toks& t)
	{
		const std::string& o = t[0]; int r = I(t[1]), s = t.size() > 2 ? I(t[2]) : 0;
		Ev::start(o == "as" ? "cp" : o.c_str()); Ev::i("r", r);
		if (o == "new") { S n(text+s); reg[r] = n; Ev::i("at", s); saw(reg[r]); }
		else if (o == "null") { reg[r] = S(); saw(reg[r]); }
		else if (o == "as") { reg[r] = reg[s]; Ev::i("s", s); saw(reg[r]); }
		else if (o == "cp") { const S& c = reg[s]; S n(c); reg[r] = n; Ev::i("s", s); saw(reg[r]); }
		else if (o == "byte") { ch((unsigned char)reg[r].get_byte()); saw(reg[r]); }
		else if (o == "char") { if (sizeof(typename S::Char) == 1) ch((unsigned char)reg[r].get_char()); else ch((uint32_t)reg[r].get_char()); saw(reg[r]); }
		else if (o == "skip") { for (int i = 0; i < s; i++) reg[r].get_char(); Ev::i("n", s); saw(reg[r]); }
		else if (o == "cmp")
		{
			S& x = reg[r]; S& y = reg[s];
			Ev::i("s", s); Ev::b("same", x.same(y)); Ev::i("bf", (long long)(off_t)x.bytes_from(y));
			bool both = x.is_null() == y.is_null();
			Ev::b("lt", both && x < y); Ev::i("d", both ? (long long)(x-y) : 0);
			std::vector<int> v;
			if (both && !x.is_null() && x-y <= 0) { StrVal to = x.string_to(y); StrValIndex n; const UTF8* p = to.asUTF8(n); for (int i = 0; i < (int)n; i++) v.push_back((unsigned char)p[i]); }
			Ev::vec("to", v);
		}
		else _exit(77);
	}
};
static Any* all;
static void drop() { delete all; all = 0; free(text); text = 0; }
static void scenario_begin(const Toks&) {}
static void scenario_end() { drop(); }
static void scenario_op(const Toks& t)
{
	if (t[0] != "conf") { all->op(t); return; }
	drop();
	std::vector<int> v = L(t[2]); len = v.size();
	text = (char*)malloc(len+1);
	for (int i = 0; i < len; i++) text[i] = (char)v[i];
	text[len] = 0;
	const std::string& k = t[1]; bool wide = true;
	if (k == "default") all = new All<PegexpDefaultSource>;
	else if (k == "bytes") { all = new All<PegexpPointerSource<const UTF8*, char>>; wide = false; }
	else if (k == "nulutf8") all = new All<PegexpPointerSource<NulGuardedUTF8Ptr>>;
	else if (k == "nulbytes") { all = new All<PegexpPointerSource<NulGuardedCharPtr, char>>; wide = false; }
	else all = new All<PegMemorySource>;
	Ev::start("conf"); Ev::b("wide", wide); Ev::vec("s", v);
}
