// C16, C17: regular expressions; see spec/RxTrace.tla
//   re c,c,.. features rejected keep    compile; keep: the program owns what was compiled
//   find off c,c,..             search a text from an offset
//   at off c,c,..               match there
//   bytes b,b,.. features keep  compile any bytes
//   findb off b,b,..            search any bytes
#include <cassert>
#include <strregex.h>
#include "drv.h"
#include "strutil.h"
static RxCompiler* compiler; static char* nfa; static RxProgram* program; static bool kept;
static void drop() { delete program; program = 0; if (!kept) delete[] nfa; nfa = 0; kept = false; delete compiler; compiler = 0; }
static StrVal raw(const std::vector<int>& v) { std::vector<char> b(v.size()+1); for (size_t i = 0; i < v.size(); i++) b[i] = (char)v[i]; return StrVal(&b[0], (StrValIndex)v.size()); }
static void codes(StrVal s) { Ev::ch('['); for (int i = 0; i < (int)s.length(); i++) { if (i) Ev::ch(','); Ev::num((long)s[i]); } Ev::ch(']'); }
static void scenario_begin(const Toks&) {}
static void scenario_end() { drop(); }
// The listing of a program accounts for all of it: each instruction is known, and the end comes at the last byte
static bool listed()
{
	char* text = 0; size_t size = 0;
	fflush(stdout);
	FILE* was = stdout; stdout = open_memstream(&text, &size);
	compiler->dump(nfa);
	fclose(stdout); stdout = was;
	std::string s(text, size); free(text);
	size_t hex = s.find('\n'), bytes = 0;
	if (hex == std::string::npos || s.find("\tIllegal ", hex) != std::string::npos || s.find("\tERROR: ", hex) != std::string::npos) return false;
	for (size_t i = 0; i < hex; i++) if (s[i] != ' ' && (i == 0 || s[i-1] == ' ')) bytes++;
	std::string end = "\n" + std::to_string(bytes-1) + "\tNull termination\n";
	return s.size() >= end.size() && s.compare(s.size()-end.size(), end.size(), end) == 0;
}
static void compile(StrVal re, int on, int rej, bool keep)
{
	drop();
	compiler = on == (int)RxFeature::AllFeatures && !rej ? new RxCompiler(re) : !rej ? new RxCompiler(re, (RxFeature)on) : new RxCompiler(re, (RxFeature)on, (RxFeature)rej);
	bool ok = compiler->compile(nfa);
	if (ok && keep)			// the same compiler may be used again
	{
		delete[] nfa; nfa = 0;
		ok = compiler->compile(nfa);
	}
	Ev::b("ok", ok); Ev::b("nfa", nfa != 0); Ev::b("msg", compiler->errorMessage() != 0); Ev::i("pos", compiler->errorOffset());
	if (!ok) return;
	Ev::b("listed", listed());
	program = keep ? new RxProgram(nfa, true) : new RxProgram(nfa); kept = keep;
	Ev::i("caps", program->maxCapture()-1);
	Ev::key("names"); Ev::ch('[');
	for (int i = 1; i < program->maxCapture(); i++) { if (i > 1) Ev::ch(','); codes(program->group_name(i)); }
	Ev::ch(']');
	Ev::b("nonames", program->group_name(0).length() == 0 && program->group_name(program->maxCapture()).length() == 0 && program->group_name(-1).length() == 0);
}
static void result(const RxResult& made)
{
	RxResult other, r(made);		// as it is when copied and assigned
	other = r; r.clear();
	bool ok = other.succeeded();
	Ev::b("ok", ok); Ev::b("cleared", !r.succeeded()); Ev::i("from", ok ? (long)other.offset() : 0); Ev::i("to", ok ? (long)(other.offset()+other.length()) : 0); Ev::i("len", other.length());
	if (!ok) return;
	Ev::i("c0", other.capture(0)); Ev::i("c1", other.capture(1));
	Ev::key("g"); Ev::ch('[');
	for (int i = 1; i < other.captureMax(); i++) { if (i > 1) Ev::ch(','); Ev::ch('['); Ev::num(other.capture(2*i)); Ev::ch(','); Ev::num(other.capture(2*i+1)); Ev::ch(']'); }
	Ev::ch(']');
}
static void scenario_op(const Toks& t)
{
	const std::string& op = t[0];
	if (op == "re")
	{
		std::vector<int> p = L(t[1]);
		Ev::start("re"); Ev::vec("p", p); Ev::i("on", I(t[2])); Ev::i("rej", I(t[3]));
		compile(mkstr(p), I(t[2]), I(t[3]), I(t[4]));
		return;
	}
	if (op == "bytes") { std::vector<int> p = L(t[1]); Ev::start("bytes"); Ev::vec("p", p); compile(raw(p), I(t[2]), 0, I(t[3])); return; }
	std::vector<int> v = L(t[2]); int off = I(t[1]);
	if (op == "findb")
	{
		Ev::start("findb"); Ev::vec("s", v); Ev::i("off", off); Ev::b("can", program != 0); if (!program) return;
		StrVal s = raw(v); Ev::i("n", s.length()); result(program->matchAfter(s, off));
		return;
	}
	Ev::start(op.c_str()); Ev::vec("s", v); Ev::i("off", off); Ev::b("can", program != 0); if (!program) return;
	StrVal s = mkstr(v);
	if (op == "find") result(off ? program->matchAfter(s, off) : program->matchAfter(s));
	else result(off ? program->matchAt(s, off) : program->matchAt(s));
}
