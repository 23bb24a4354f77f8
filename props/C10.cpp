#include "vf.h"
#include "src/util/time.hpp"
using namespace blackhole;
static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
extern "C" void vf_main_time() {
    time_t t = vf_int("t", 0, 253402300799L);
    struct tm tp;
    blackhole::gmtime(&t, &tp);
    vf_cover("reach");
    vf_check(tp.tm_sec >= 0 && tp.tm_sec < 60 && tp.tm_min >= 0 && tp.tm_min < 60 && tp.tm_hour >= 0 && tp.tm_hour < 24, "clock fields in range");
    vf_check(((long(t) / 86400) * 24 + tp.tm_hour) * 3600 + tp.tm_min * 60 + tp.tm_sec == t, "clock fields");
    vf_check(tp.tm_wday == (t / 86400 + 4) % 7, "weekday");
    vf_check(tp.tm_isdst == 0, "dst");
    long days = t / 86400;
    long y = tp.tm_year + 1900L;
    vf_check(tp.tm_mon >= 0 && tp.tm_mon <= 11, "month in range");
    static const int cum[12] = {0,31,59,90,120,151,181,212,243,273,304,334};
    static const int len[12] = {31,28,31,30,31,30,31,31,30,31,30,31};
    long dim = len[tp.tm_mon] + (tp.tm_mon == 1 && leap(y));
    vf_check(tp.tm_mday >= 1 && tp.tm_mday <= dim, "day in range");
    long yday = cum[tp.tm_mon] + (tp.tm_mon > 1 && leap(y)) + tp.tm_mday - 1;
    vf_check(tp.tm_yday == yday, "yday");
    long p = y - 1;
    vf_check(365 * (y - 1970) + (p/4 - p/100 + p/400) - 477 + yday == days, "date");
}
