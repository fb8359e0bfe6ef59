// Script-driven conformance driver: shared machinery.
//
// A script is a text file of scenarios:  "@ <sid>" begins one, every other line is one
// operation.  For every scenario the driver logs (ndjson) a "begin" event, one event per
// operation executed on the real code, and an "end" event with the number of heap blocks
// the scenario left allocated.  A crash, failed assertion or hang while executing a
// scenario is logged as a "crash" event, which no specification action accepts.
#ifndef VP_DRV_H
#define VP_DRV_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <new>
#include <string>
#include <vector>
#include <atomic>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

static std::atomic<long>	vp_live(0);	// live operator-new blocks
#ifndef VP_NO_NEW
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); vp_live++; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); vp_live++; return p; }
void operator delete(void* p) noexcept { if (p) { vp_live--; free(p); } }
void operator delete[](void* p) noexcept { if (p) { vp_live--; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { vp_live--; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { vp_live--; free(p); } }
#endif

// ---- JSON event builder on a static buffer -------------------------------------------
struct Ev
{
	static char	buf[1<<22];
	static size_t	n;
	static bool	comma;
	static void raw(const char* s) { size_t l = strlen(s); if (n+l+2 > sizeof(buf)) { fprintf(stderr, "event too large\n"); abort(); } memcpy(buf+n, s, l); n += l; }
	static void ch(char c) { char b[2] = {c, 0}; raw(b); }
	static void num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); raw(b); }
	static void key(const char* k) { if (comma) ch(','); ch('"'); raw(k); raw("\":"); comma = true; }
	static void start(const char* op) { n = 0; comma = false; ch('{'); str("op", op); }
	static void str(const char* k, const char* v) { key(k); ch('"'); for (; *v; v++) { if (*v=='"'||*v=='\\') ch('\\'); if ((unsigned char)*v < 32 || (unsigned char)*v > 126) ch('?'); else ch(*v); } ch('"'); }
	static void i(const char* k, long long v) { key(k); num(v); }
	static void b(const char* k, bool v) { key(k); raw(v ? "true" : "false"); }
	template<class It> static void seq(const char* k, It b, It e) { key(k); list(b, e); }
	template<class It> static void list(It b, It e) { ch('['); for (bool c = false; b != e; ++b, c = true) { if (c) ch(','); num((long long)*b); } ch(']'); }
	static void vec(const char* k, const std::vector<int>& v) { seq(k, v.begin(), v.end()); }
};
char	Ev::buf[1<<22];
size_t	Ev::n = 0;
bool	Ev::comma = false;

typedef std::vector<std::string>	Toks;
inline long long I(const std::string& s) { return strtoll(s.c_str(), 0, 0); }
inline std::vector<int> L(const std::string& s)		// "1,2,3" or "-" for the empty list
{
	std::vector<int> v;
	if (s == "-") return v;
	const char* p = s.c_str();
	while (*p) { char* e; v.push_back((int)(uint32_t)strtoll(p, &e, 0)); if (e == p) { fprintf(stderr, "bad list %s\n", s.c_str()); _exit(77); } p = *e == ',' ? e+1 : e; }
	return v;
}

// Supplied by each driver:
static void scenario_begin(const Toks& args);	// args: tokens after "@ sid"
static void scenario_op(const Toks& t);		// must Ev::start(...) and fill the event
static void scenario_end();			// destroy every live value

struct VpShared { volatile long scen; volatile long line; };
static VpShared* vp_sh;
static int vp_out;

static void vp_flush()
{
	Ev::raw("}\n");
	size_t off = 0;
	while (off < Ev::n) { ssize_t w = write(vp_out, Ev::buf+off, Ev::n-off); if (w <= 0) _exit(77); off += w; }
}
static Toks vp_split(const char* b, const char* e)
{
	Toks t;
	while (b < e) { while (b < e && *b == ' ') b++; const char* s = b; while (b < e && *b != ' ') b++; if (b > s) t.push_back(std::string(s, b)); }
	return t;
}
struct VpLine { const char* b; const char* e; };

int main(int argc, char** argv)
{
	if (argc < 3) { fprintf(stderr, "usage: %s script out\n", argv[0]); return 2; }
	int cpu_limit = getenv("VP_CPU") ? atoi(getenv("VP_CPU")) : 10;
	FILE* f = fopen(argv[1], "rb");
	if (!f) { perror(argv[1]); return 2; }
	fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
	char* text = (char*)malloc(sz+1); if (fread(text, 1, sz, f) != (size_t)sz) return 2; text[sz] = 0; fclose(f);
	std::vector<VpLine> lines; std::vector<long> scen;	// indexes of "@" lines
	for (char* p = text; p < text+sz; ) { char* e = (char*)memchr(p, '\n', text+sz-p); if (!e) e = text+sz; if (e > p) { if (*p == '@') scen.push_back(lines.size()); VpLine l = {p, e}; lines.push_back(l); } p = e+1; }
	vp_out = open(argv[2], O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
	if (vp_out < 0) { perror(argv[2]); return 2; }
	vp_sh = (VpShared*)mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	std::string errfile = std::string(argv[2])+".err";
	int ncrash = 0;
	long k = 0;
	while (k < (long)scen.size())
	{
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 2; }
		if (pid == 0)
		{
			struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
			int efd = open(errfile.c_str(), O_WRONLY|O_CREAT|O_APPEND, 0644);
			dup2(efd, 2); dup2(efd, 1);
			for (; k < (long)scen.size(); k++)
			{
				vp_sh->scen = k; vp_sh->line = scen[k];
				struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu_limit;
				setitimer(ITIMER_PROF, &it, 0);		// CPU time: not sensitive to machine load
				alarm(cpu_limit*12);
				long end = k+1 < (long)scen.size() ? scen[k+1] : (long)lines.size();
				Toks h = vp_split(lines[scen[k]].b+1, lines[scen[k]].e);
				std::string sid = h.empty() ? "0" : h[0];
				if (!h.empty()) h.erase(h.begin());
				Ev::start("begin"); Ev::i("sid", I(sid)); vp_flush();
				long base = vp_live;
				scenario_begin(h);
				for (long l = scen[k]+1; l < end; l++)
				{
					vp_sh->line = l;
					Toks t = vp_split(lines[l].b, lines[l].e);
					Ev::n = 0;
					scenario_op(t);
					if (Ev::n) vp_flush();
				}
				scenario_end();
				long left = vp_live-base;
				Ev::start("end"); Ev::i("live", left); vp_flush();
			}
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "driver error, see %s\n", errfile.c_str()); return 2; }
		bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
		Ev::start(hang ? "hang" : "crash");
		Ev::i("status", st);
		VpLine& ln = lines[vp_sh->line];
		Ev::str("at", std::string(ln.b, ln.e).c_str());
		vp_flush();
		k = vp_sh->scen+1;
		if ((ncrash += hang ? 100 : 1) >= 200) break;		// enough evidence
	}
	return 0;
}
#endif
