// Controlled scheduling: one managed thread runs at a time; at every scheduling point the
// scheduler decides which runs next.  All synchronisation (pthread mutexes, conditions,
// thread creation and joining, sleeping, the clock) is simulated here, reached by linking
// with --wrap.  With the sources compiled by -fsanitize=thread, whose runtime is replaced
// by this file, every atomic operation and memory access is a possible point too.
//
// For every scenario the schedules are enumerated (depth first with a bound on
// preemptions), drawn at random, or guided by a list of thread numbers.  Each schedule runs
// in a fresh process; only distinct logs are written.
//
// Blocks allocated during a schedule lie at the end of pages of their own which become
// inaccessible when the block is freed.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdint>
#include <map>
#include <set>
#include <unordered_set>
#include <semaphore.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <new>
#include "vsched.h"

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self();
int __real_clock_gettime(clockid_t, struct timespec*);
}

static const int	MAXT = 64;
static const int	MAXC = 20000;
enum St { Unused, Ready, OnMutex, OnCond, OnJoin, Sleep, Done };
struct Thr
{
	St	st;
	sem_t	sem;
	void*	on;		// mutex or condition
	void*	mx;		// mutex to take again after the condition
	int	target;
	long	deadline;	// us, -1: none
	bool	timedout;
	bool	reaped, detached;
	unsigned long id;
	std::function<void()>* body;
	void*	(*fn)(void*); void* arg;
	bool	library;	// created by the code under test
};
struct Rec { unsigned char n, chosen, cost; };	// a choice: options, choice made, cost of choosing another
struct Sh
{
	size_t	len; char buf[1<<21];
	int	nrec; Rec rec[MAXC];
	int	steps; int truncated;
};
static Sh*	sh;
static Thr	T[MAXT];
static int	nthr;
static int	cur;			// the managed thread that has the token
static bool	active;
static int	quiet;
static __thread int me_tls = 0;
static long	clk;			// virtual time, us
struct Mx { int owner; int type; };
static std::map<void*, Mx>* mxs;	// reached only with quiet set
static std::map<const void*, int>* attrs;
static int	mode;			// 0 dfs, 1 random, 2 guided
static std::vector<unsigned char> prefix;	// dfs
static uint64_t	rng;
static int	prob, memprob, tick, spur;		// per mille
static std::vector<int> guide; static size_t guidepos; static bool gadvance;	// a guide's step lasts until a mutex is released, a thread waits or ends
static std::map<std::string, int> opts;
static int	stuckactors;
static int	ncreate, nfailed;
int vs_failed() { return nfailed; }
static int	stepmax = 20000;
static const bool tracing = getenv("VP_VSTRACE") != 0;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static void append(const char* s, size_t n) { if (sh->len+n < sizeof(sh->buf)) { memcpy(sh->buf+sh->len, s, n); sh->len += n; } else _exit(77); }
static void appendz(const char* s) { append(s, strlen(s)); }
void vs_log(const std::string& j) { quiet++; append(j.data(), j.size()); append("\n", 1); quiet--; }
void vs_quiet(int d) { quiet += d; }
int vs_me() { return cur; }
long vs_clock_us() { return clk; }
void vs_stuckinfo(int n) { stuckactors = n; }
int vs_option(const char* n, int d) { quiet++; auto i = opts.find(n); int r = i == opts.end() ? d : i->second; quiet--; return r; }

static bool mutexFree(void* m) { auto i = mxs->find(m); return i == mxs->end() || i->second.owner < 0; }
static bool enabled(int t)
{
	switch (T[t].st)
	{
	case Ready:	return true;
	case OnMutex:	return mutexFree(T[t].on);
	case OnCond:	return T[t].deadline >= 0 && clk >= T[t].deadline && mutexFree(T[t].mx);
	case OnJoin:	return T[T[t].target].st == Done;
	case Sleep:	return clk >= T[t].deadline;
	default:	return false;
	}
}
static int choose(int n, int cost)	// cost of not choosing 0
{
	if (n <= 1) return 0;
	int c = 0;
	if (mode == 0)
	{
		if (sh->nrec < (int)prefix.size()) c = prefix[sh->nrec];
		if (c >= n) c = 0;
	}
	else
		c = rnd()%n;
	if (sh->nrec < MAXC) { Rec r = {(unsigned char)n, (unsigned char)c, (unsigned char)cost}; sh->rec[sh->nrec++] = r; } else sh->truncated = 1;
	return c;
}
static void finish(const char* ev) { appendz(ev); _exit(0); }
// Pass the token to the next thread.  The caller, when it is not able to continue, waits for it.
static void pass(int from, bool ending)
{
	if (++sh->steps > stepmax) finish("{\"op\":\"runaway\"}\n");
	int cand[MAXT], n;
	if (mode == 1 && tick && (int)(rnd()%1000) < tick)	// time passes
	{
		long dl = -1;
		for (int t = 0; t < nthr; t++) if ((T[t].st == Sleep || T[t].st == OnCond) && T[t].deadline > clk && (dl < 0 || T[t].deadline < dl)) dl = T[t].deadline;
		if (dl >= 0) clk = dl;
	}
	if (mode == 1 && spur && (int)(rnd()%1000) < spur)	// a wait ends for no reason
	{
		int w[MAXT], k = 0;
		for (int t = 0; t < nthr; t++) if (T[t].st == OnCond) w[k++] = t;
		if (k) { int t = w[rnd()%k]; T[t].st = OnMutex; T[t].on = T[t].mx; }
	}
	for (;;)
	{
		n = 0;
		bool self = !ending && enabled(from);
		if (self) cand[n++] = from;
		for (int t = 0; t < nthr; t++) if (t != from && enabled(t)) cand[n++] = t;
		if (n) break;
		long dl = -1;
		for (int t = 0; t < nthr; t++) if ((T[t].st == Sleep || T[t].st == OnCond) && T[t].deadline >= 0 && (dl < 0 || T[t].deadline < dl)) dl = T[t].deadline;
		// A passed deadline that is not enabled awaits a mutex, so time cannot help
		if (dl < 0 || dl <= clk) { char b[64]; snprintf(b, sizeof b, "{\"op\":\"stuck\",\"actors\":%d}\n", stuckactors); finish(b); }
		clk = dl;
	}
	bool self = cand[0] == from && !ending;
	int next;
	if (mode == 2)
	{
		next = self ? from : cand[rnd()%n];
		if (gadvance || !self) { if (guidepos < guide.size() && guide[guidepos] == from) guidepos++; gadvance = false; }
		// follow the guide as far as it can be followed: skip names that cannot run
		bool found = false;
		for (size_t look = guidepos; look < guide.size() && !found; look++)
			for (int i = 0; i < n; i++) if (cand[i] == guide[look]) { next = cand[i]; found = true; guidepos = look; break; }
	}
	else if (mode == 1 && self)
		next = (int)(rnd()%1000) < prob ? cand[choose(n, 1)] : from;
	else
		next = cand[choose(n, self ? 1 : 0)];
	if (tracing) fprintf(stderr, "[%d->%d]", from, next);
	Thr& x = T[next];
	// what it was waiting for happens now
	switch (x.st)
	{
	case OnMutex:	(*mxs)[x.on].owner = next; break;
	case OnCond:	(*mxs)[x.mx].owner = next; x.timedout = true; break;
	default:	break;
	}
	x.st = Ready;
	cur = next;
	if (next == from && !ending) return;
	int	q = quiet;		// from here on it is the next thread's
	sem_post(&x.sem);
	if (!ending) { while (sem_wait(&T[from].sem)) ; quiet = q; }
}
static void point() { if (!active || quiet || me_tls != cur) return; quiet++; pass(cur, false); quiet--; }
void vs_point() { point(); }
static void block(St st, void* on, void* mx, int target, long deadline)
{
	Thr& x = T[cur];
	x.st = st; x.on = on; x.mx = mx; x.target = target; x.deadline = deadline; x.timedout = false;
	pass(cur, false);
	x.deadline = -1;
}

// ---- threads ------------------------------------------------------------------------------
static unsigned long freshId()
{
	std::set<unsigned long> used;
	for (int t = 0; t < nthr; t++) if (!(T[t].st == Done && (T[t].reaped || T[t].detached))) used.insert(T[t].id);
	if (opts.count("ids") && opts["ids"] == 1)	// high first
	{ unsigned long i = 1000; while (used.count(i)) i--; return i; }
	unsigned long i = 1; while (used.count(i)) i++; return i;
}
struct Ending { int me; Ending(int m) : me(m) {} ~Ending() { quiet++; T[me].st = Done; pass(me, true); } };
static void* trampoline(void* p)
{
	int t = (int)(long)p;
	me_tls = t;
	while (sem_wait(&T[t].sem)) ;
	quiet = 0;
	Ending e(t);
	if (T[t].body) (*T[t].body)();
	else T[t].fn(T[t].arg);
	return 0;
}
static int newThread(std::function<void()>* body, void* (*fn)(void*), void* arg)
{
	if (nthr >= MAXT) finish("{\"op\":\"toomany\"}\n");
	int t = nthr;
	Thr& x = T[t];
	x.id = freshId();
	nthr++;
	sem_init(&x.sem, 0, 0);
	x.st = Ready; x.body = body; x.fn = fn; x.arg = arg; x.deadline = -1; x.reaped = x.detached = false; x.library = !body;
	pthread_t real;
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256*1024);
	if (__real_pthread_create(&real, &a, trampoline, (void*)(long)t)) _exit(77);
	__real_pthread_detach(real);
	return t;
}
int vs_spawn(std::function<void()> body) { quiet++; int t = newThread(new std::function<void()>(body), 0, 0); quiet--; return t; }
void vs_wait(int t) { quiet++; if (T[t].st != Done) block(OnJoin, 0, 0, t, -1); quiet--; }
int vs_unreaped() { int n = 0; for (int t = 1; t < nthr; t++) if (T[t].library && !T[t].reaped && !T[t].detached) n++; return n; }

static void misuse(const char* what) { appendz("{\"op\":\"misuse\",\"what\":\""); appendz(what); appendz("\"}\n"); }
static int byId(unsigned long id) { for (int t = nthr-1; t >= 0; t--) if (T[t].id == id && !T[t].reaped && !(T[t].detached && T[t].st == Done)) return t; return -1; }

extern "C" {
int __wrap_pthread_create(pthread_t* tid, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!active) return __real_pthread_create(tid, a, fn, arg);
	quiet++;
	if (++ncreate == vs_option("failcreate", 0)) { nfailed++; quiet--; point(); return EAGAIN; }
	int t = newThread(0, fn, arg);
	quiet--;
	point();	// the new thread may run before the caller is given its id
	*tid = T[t].id;
	point();
	return 0;
}
int __wrap_pthread_join(pthread_t id, void** ret)
{
	point();
	quiet++;
	int t = byId(id), r = 0;
	if (t < 0 || T[t].detached || t == cur) { misuse("join"); r = ESRCH; }
	else
	{
		if (T[t].st != Done) block(OnJoin, 0, 0, t, -1);
		if (T[t].reaped) misuse("join twice"); else T[t].reaped = true;
		if (ret) *ret = 0;
	}
	quiet--;
	return r;
}
int __wrap_pthread_detach(pthread_t id)
{
	quiet++;
	int t = byId(id), r = 0;
	if (t < 0 || T[t].detached) { misuse("detach"); r = ESRCH; } else T[t].detached = true;
	quiet--;
	return r;
}
pthread_t __wrap_pthread_self() { return active ? T[me_tls].id : 1; }

int __real_pthread_mutexattr_settype(pthread_mutexattr_t*, int);
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	point();
	quiet++;
	int type = PTHREAD_MUTEX_NORMAL;
	if (a) pthread_mutexattr_gettype(a, &type);
	if (!mxs) mxs = new std::map<void*, Mx>;
	Mx x = {-1, type};
	(*mxs)[m] = x;
	quiet--;
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	quiet++;
	if (mxs) { auto i = mxs->find(m); if (i != mxs->end()) { if (i->second.owner >= 0 && active) misuse("destroy held mutex"); mxs->erase(i); } }
	quiet--;
	return 0;
}
static Mx& mx(void* m) { if (!mxs) mxs = new std::map<void*, Mx>; auto i = mxs->find(m); if (i == mxs->end()) { Mx x = {-1, PTHREAD_MUTEX_NORMAL}; i = mxs->insert({m, x}).first; } return i->second; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active) return 0;
	point();
	quiet++;
	Mx& x = mx(m); int r = 0;
	if (x.owner == cur && x.type == PTHREAD_MUTEX_ERRORCHECK) r = EDEADLK;
	else if (x.owner < 0) x.owner = cur;
	else block(OnMutex, m, 0, 0, -1);
	quiet--;
	return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active) return 0;
	point();
	quiet++;
	Mx& x = mx(m); int r = 0;
	if (x.owner < 0) x.owner = cur; else r = EBUSY;
	quiet--;
	return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active) return 0;
	quiet++;
	Mx& x = mx(m); int r = 0;
	if (x.owner == cur) { x.owner = -1; gadvance = true; }
	else { r = EPERM; if (x.type != PTHREAD_MUTEX_ERRORCHECK) { misuse("unlock"); } }
	quiet--;
	point();
	return r;
}
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
	if (active) for (int t = 0; t < nthr; t++) if (T[t].st == OnCond && T[t].on == c) misuse("destroy awaited condition");
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, long deadline)
{
	point();
	quiet++;
	volatile char touch = *(volatile char*)m; (void)touch;	// a real wait reads the mutex
	Mx& x = mx(m);
	int r = 0;
	if (x.owner != cur) { misuse("wait without mutex"); r = EPERM; }
	else
	{
		x.owner = -1; gadvance = true;
		if (stuckactors) { char b[64]; snprintf(b, sizeof b, "{\"op\":\"asleep\",\"a\":%d}\n", cur); appendz(b); }
		block(OnCond, c, m, 0, deadline);
		if (T[cur].timedout) r = ETIMEDOUT;
	}
	quiet--;
	return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
	return condWait(c, m, ts->tv_sec*1000000L+(ts->tv_nsec+999)/1000);
}
static void wake(int t) { T[t].st = OnMutex; T[t].on = T[t].mx; }
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	point();
	quiet++;
	int w[MAXT], n = 0;
	for (int t = 0; t < nthr; t++) if (T[t].st == OnCond && T[t].on == c) w[n++] = t;
	if (n) wake(w[choose(n, 0)]);
	quiet--;
	point();
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	point();
	quiet++;
	for (int t = 0; t < nthr; t++) if (T[t].st == OnCond && T[t].on == c) wake(t);
	quiet--;
	point();
	return 0;
}
int __wrap_nanosleep(const struct timespec* ts, struct timespec*)
{
	if (!active) return 0;
	quiet++;
	block(Sleep, 0, 0, 0, clk+ts->tv_sec*1000000L+ts->tv_nsec/1000);
	quiet--;
	return 0;
}
int __wrap_usleep(unsigned us) { struct timespec ts = {(time_t)(us/1000000), (long)(us%1000000)*1000}; return __wrap_nanosleep(&ts, 0); }
int __wrap_sched_yield() { point(); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
	if (!active) return __real_clock_gettime(c, ts);
	ts->tv_sec = clk/1000000; ts->tv_nsec = clk%1000000*1000;
	return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = clk/1000000; tv->tv_usec = clk%1000000; return 0; }
}

// ---- heap -----------------------------------------------------------------------------------
static char*	heap; static size_t heapused; static const size_t HEAP = (size_t)1<<32;
static long	live;
static int	fillword;		// what fresh memory contains
struct Blk { size_t size; bool freed; };
static const size_t PG = 4096;
static bool	inHeap(const void* p) { return heap && (char*)p >= heap && (char*)p < heap+HEAP; }
static void* vsNew(size_t n)
{
	if (!active || quiet)
	{ void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
	quiet++;
	size_t pages = (n+PG-1)/PG; if (!pages) pages = 1;
	char* b = heap+heapused;
	heapused += (pages+1)*PG;		// and one that is never accessible
	if (heapused > HEAP) _exit(77);
	mprotect(b, pages*PG, PROT_READ|PROT_WRITE);
	size_t al = (n+15)&~(size_t)15; if (!al) al = 16;
	char* p = b+pages*PG-al;
	if (fillword) for (size_t i = 0; i < pages*PG/4; i++) ((int*)b)[i] = fillword; else memset(b, 0xA5, pages*PG);
	live++;
	quiet--;
	return p;
}
static void vsDelete(void* p)
{
	if (!p) return;
	if (!inHeap(p)) { free(p); return; }
	quiet++;
	*(volatile char*)p;			// freed before: not accessible
	char* b = (char*)((size_t)p & ~(PG-1));
	mprotect(b, PG, PROT_NONE);		// further pages of bigger blocks stay; the first is enough
	live--;
	quiet--;
}
long vs_livecount() { return live; }
void* operator new(size_t n) { return vsNew(n); }
void* operator new[](size_t n) { return vsNew(n); }
void operator delete(void* p) noexcept { vsDelete(p); }
void operator delete[](void* p) noexcept { vsDelete(p); }
void operator delete(void* p, size_t) noexcept { vsDelete(p); }
void operator delete[](void* p, size_t) noexcept { vsDelete(p); }

// ---- what -fsanitize=thread calls -------------------------------------------------------------
static inline void access(void* p) { if (memprob && active && !quiet && inHeap(p) && me_tls == cur && (int)(rnd()%1000) < memprob) { int sp = prob; prob = 1000; point(); prob = sp; } }
#define ACC(n) void __tsan_##n(void* p) { access(p); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16) ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_read16) ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8) ACC(volatile_write16)
void __tsan_read_range(void* p, size_t) { access(p); }
void __tsan_write_range(void* p, size_t) { access(p); }
void __tsan_vptr_update(void** p, void*) { access(p); }
void __tsan_vptr_read(void** p) { access(p); }
#define ATOMIC(B, X) \
X __tsan_atomic##B##_load(const volatile X* a, int) { point(); return __atomic_load_n(a, 5); } \
void __tsan_atomic##B##_store(volatile X* a, X v, int) { point(); __atomic_store_n(a, v, 5); point(); } \
X __tsan_atomic##B##_exchange(volatile X* a, X v, int) { point(); return __atomic_exchange_n(a, v, 5); } \
X __tsan_atomic##B##_fetch_add(volatile X* a, X v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
X __tsan_atomic##B##_fetch_sub(volatile X* a, X v, int) { point(); return __atomic_fetch_sub(a, v, 5); } \
X __tsan_atomic##B##_fetch_and(volatile X* a, X v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
X __tsan_atomic##B##_fetch_or(volatile X* a, X v, int) { point(); return __atomic_fetch_or(a, v, 5); } \
X __tsan_atomic##B##_fetch_xor(volatile X* a, X v, int) { point(); return __atomic_fetch_xor(a, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile X* a, X* e, X v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile X* a, X* e, X v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
X __tsan_atomic##B##_compare_exchange_val(volatile X* a, X e, X v, int, int) { point(); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---- exploration --------------------------------------------------------------------------------
static VsToks split(const std::string& s)
{
	VsToks t; size_t i = 0;
	while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t b = i; while (i < s.size() && s[i] != ' ') i++; if (i > b) t.push_back(s.substr(b, i-b)); }
	return t;
}
static std::string errfile;
// One schedule in a process of its own.  Its log is in sh.
static void runOnce(const std::string& sid, const VsToks& h, const std::vector<VsToks>& ops)
{
	sh->len = 0; sh->nrec = 0; sh->steps = 0; sh->truncated = 0;
	appendz(("{\"op\":\"begin\",\"sid\":"+sid+"}\n").c_str());
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (pid == 0)
	{
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		int efd = open(errfile.c_str(), O_WRONLY|O_CREAT|O_APPEND, 0644); dup2(efd, 2); dup2(efd, 1);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &it, 0); alarm(60);
		heap = (char*)mmap(0, HEAP, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		nthr = 1; cur = 0; T[0].st = Ready; T[0].id = 1; T[0].deadline = -1; sem_init(&T[0].sem, 0, 0);
		if (!mxs) mxs = new std::map<void*, Mx>;
		active = true; quiet = 0;
		vs_scenario(h, ops);
		quiet++;
		active = false;
		for (int t = 1; t < nthr; t++) if (T[t].st != Done) { finish("{\"op\":\"unended\"}\n"); }
		finish("");
	}
	int st; waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "driver error\n"); exit(2); }
	char b[100]; snprintf(b, sizeof b, "{\"op\":\"%s\",\"status\":%d}\n", WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM) ? "hang" : "crash", st);
	appendz(b);
}
int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 2; }
	FILE* out = fopen(argv[2], "w"); if (!out) { perror(argv[2]); return 2; }
	errfile = std::string(argv[2])+".err";
	sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	std::vector<std::pair<VsToks, std::vector<VsToks>>> sc;
	static char line[1<<16];
	while (fgets(line, sizeof line, f))
	{
		std::string s(line); while (!s.empty() && s[s.size()-1] == '\n') s.erase(s.size()-1);
		if (s.empty()) continue;
		if (s[0] == '@') sc.push_back({split(s.substr(1)), {}}); else sc.back().second.push_back(split(s));
	}
	fclose(f);
	long schedules = 0, distinct = 0, exhausted = 0; int bad = 0;
	for (auto& s : sc)
	{
		std::string sid = s.first[0];
		VsToks h(s.first.begin()+1, s.first.end());
		opts.clear(); guide.clear();
		for (auto& o : h) { size_t e = o.find('='); if (e == std::string::npos) continue; if (o.substr(0, e) == "guide") { const char* p = o.c_str()+e+1; while (*p) { char* q; guide.push_back(strtol(p, &q, 10)); p = *q == ',' ? q+1 : q; } } else opts[o.substr(0, e)] = atoi(o.c_str()+e+1); }
		mode = !guide.empty() ? 2 : opts.count("rand") ? 1 : 0;
		int limit = opts.count("limit") ? opts["limit"] : 1000, bound = opts.count("bound") ? opts["bound"] : 2;
		clk = 1000000000000L+(opts.count("us") ? opts["us"] : 999600);
		tick = opts.count("tick") ? opts["tick"] : 0;
		spur = opts.count("spur") ? opts["spur"] : 0;
		fillword = opts.count("fill") ? opts["fill"] : 0;
		memprob = opts.count("mem") ? opts["mem"] : 0;
		std::set<std::string> seen;
		prefix.clear();
		for (int k = 0; k < limit; k++)
		{
			rng = 0x9E3779B97F4A7C15ull*(uint64_t)(1+k+1000003L*(opts.count("seed") ? opts["seed"] : 1)); rnd(); rnd();
			static const int ps[] = {30, 100, 200, 400, 700, 1000};
			prob = mode == 2 ? 1000 : ps[k%6];
			guidepos = 0; gadvance = false;
			runOnce(sid, h, s.second);
			schedules++;
			std::string log(sh->buf, sh->len);
			if (seen.insert(log).second)
			{
				distinct++;
				fwrite(log.data(), 1, log.size(), out);
				if (log.find("{\"op\":\"crash\"") != std::string::npos || log.find("{\"op\":\"stuck\"") != std::string::npos || log.find("{\"op\":\"hang\"") != std::string::npos)
					if ((bad += log.find("{\"op\":\"hang\"") != std::string::npos ? 7 : 1) > 20) { k = limit; }
			}
			if (mode == 2) { if (k+1 >= (opts.count("reps") ? opts["reps"] : 1)) break; continue; }
			if (mode == 0)
			{	// next in depth-first order, within the bound on preemptions
				int n = sh->nrec, i;
				std::vector<int> used(n+1, 0);
				for (i = 0; i < n; i++) used[i+1] = used[i]+(sh->rec[i].chosen ? sh->rec[i].cost : 0);
				for (i = n-1; i >= 0; i--)
					if (sh->rec[i].chosen+1 < sh->rec[i].n && used[i]+sh->rec[i].cost <= bound) break;
				if (i < 0) { exhausted++; break; }
				prefix.assign(i+1, 0);
				for (int j = 0; j < i; j++) prefix[j] = sh->rec[j].chosen;
				prefix[i] = sh->rec[i].chosen+1;
			}
		}
		if (bad > 20) break;
	}
	fclose(out);
	f = fopen((std::string(argv[2])+".stat").c_str(), "w");
	fprintf(f, "%ld %ld %ld %ld\n", schedules, distinct, exhausted, (long)sc.size());
	fclose(f);
	return 0;
}
