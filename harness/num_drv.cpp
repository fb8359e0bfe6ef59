// Conformance driver for StrVal::asInt32 (C20): see spec/NumTrace.tla
#include <strval.h>
#include <variant.h>
#include "drv.h"
#include "strutil.h"
static int code(ErrNum e)
{
	if ((int32_t)e == 0) return 0;
	if (e == STRERR_TRAIL_TEXT) return 1;
	if (e == STRERR_NO_DIGITS) return 2;
	if (e == STRERR_NUMBER_OVERFLOW) return 3;
	if (e == STRERR_NOT_NUMBER) return 4;
	if (e == STRERR_ILLEGAL_RADIX) return 5;
	return 99;
}
static void scenario_begin(const Toks&) {}
static void scenario_op(const Toks& t)		// num chars radix how
{
	std::vector<int> v = L(t[1]); int radix = I(t[2]);
	const StrVal s = t[3] == "slice" ? mkslice(v) : mkstr(v);
	ErrNum e(3, 3), e2(3, 3); StrValIndex used = 77, used2 = 77;
	int32_t r = s.asInt32(&e, radix, &used);
	int32_t r2 = radix ? s.asInt32(&e2, radix) : s.asInt32(&e2), r3 = s.asInt32(0, radix, &used2), r4 = radix ? s.asInt32(0, radix) : s.asInt32();
	Ev::start("num"); Ev::vec("s", v); Ev::i("radix", radix); Ev::i("ret", r); Ev::i("err", code(e)); Ev::i("used", used);
	Ev::b("same", r == r2 && r == r3 && r == r4 && e == e2 && used == used2);
}
static void scenario_end() {}
