// Failed assertions as refusals: vp_trap(f) runs f and says whether an assertion stopped it.
#ifndef VP_TRAP_H
#define VP_TRAP_H
#include <setjmp.h>
static sigjmp_buf vp_jmp; static volatile bool vp_armed;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept
{
	if (vp_armed) { vp_armed = false; siglongjmp(vp_jmp, 1); }
	fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
	abort();
}
template<class F> static __attribute__((noinline)) bool vp_trap(F f)
{
	if (sigsetjmp(vp_jmp, 0) == 0) { vp_armed = true; f(); vp_armed = false; return true; }
	return false;
}
#endif
