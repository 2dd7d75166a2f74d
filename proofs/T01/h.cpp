// Contracts for timestamps (cfapi/V8Time.cpp, SystemClasses/System.cpp, Common.cpp)
#include "V8Time.h"
#include "Common.h"
#include "vf.h"
#include <cstring>
#include <cstdlib>
#include <time.h>
using namespace System;

static const int64_t SECONDS_1601 = 11644473600LL;	// between 1601 and 1970
static const int64_t TICK = 10000000;				// 100 ns
static int64_t zone;								// local time = universal time + zone

#ifdef VF_PROOF
// Contracts of the C library: a broken-down time stands for the moment it spells; the zone is constant.
static struct tm civil;		// result of gmtime and localtime: the moment is kept in two members, marked by tm_isdst
static struct tm spelled;	// the last calendar date given to timegm or mktime
static int64_t moment;		// the moment that date stands for
static struct tm *spell(int64_t s) { civil.tm_isdst = 99; civil.tm_wday = (int)((uint64_t)s >> 32); civil.tm_yday = (int)(uint32_t)s; return &civil; }
static int64_t read_civil(const struct tm *t)
{
	if (t->tm_isdst == 99) return (int64_t)((uint64_t)(uint32_t)t->tm_wday << 32 | (uint32_t)t->tm_yday);
	spelled = *t;
	return moment;
}
extern "C" struct tm *gmtime(const time_t *t) noexcept { return spell(*t); }
extern "C" struct tm *localtime(const time_t *t) noexcept { return spell(*t + zone); }
extern "C" time_t timegm(struct tm *t) noexcept { return read_civil(t); }
extern "C" time_t mktime(struct tm *t) noexcept { return read_civil(t) - zone; }
static void set_zone()
{
	zone = (int64_t)vf_range("zone", 0, 28 * 3600) - 14 * 3600;
}
#else
static void set_zone()
{
	zone = (int64_t)vf_range("zone", 0, 28 * 3600) - 14 * 3600;
	char b[40];
	long z = -zone, a = z < 0 ? -z : z;
	snprintf(b, sizeof b, "XXX%s%ld:%02ld:%02ld", z < 0 ? "-" : "", a / 3600, a / 60 % 60, a % 60);
	setenv("TZ", b, 1);
	tzset();
}
#endif

static FILETIME filetime(uint64_t ticks) { FILETIME f; f.dwLowDateTime = (uint32_t)ticks; f.dwHighDateTime = (uint32_t)(ticks >> 32); return f; }
static uint64_t ticks(const FILETIME &f) { return (uint64_t)f.dwHighDateTime << 32 | f.dwLowDateTime; }

static const int64_t YEARS = 400LL * 366 * 86400;	// moments from 1602 to about 2370

// a file time of s seconds and a part of a second
PROOF(proof_posix)
{
	uint64_t s = vf_range("s", 0, 2 * YEARS), sub = vf_range("sub", 0, TICK - 1);
	FILETIME f = filetime(s * TICK + sub);
	vf_assert((int64_t)FileTime_to_POSIX(&f) == (int64_t)s - SECONDS_1601, "file time -> seconds since 1970");
	vf_cover("converted");
}
PROOF(proof_filetime)
{
	int64_t t = (int64_t)vf_range("s", 0, 2 * YEARS) - SECONDS_1601;
	FILETIME f;
	UnixTimeToFileTime(t, &f);
	vf_assert(ticks(f) == (uint64_t)(t + SECONDS_1601) * TICK, "seconds since 1970 -> file time");
	vf_cover("converted");
}
PROOF(proof_local)
{
	set_zone();
	int64_t s = vf_range("s", 86400, 2 * YEARS - 86400), sub = vf_range("sub", 0, TICK - 1);
	FILETIME f = filetime(s * TICK + sub), r;
	LocalFileTimeToFileTime(&f, &r);
	vf_assert(ticks(r) == (uint64_t)(s - zone) * TICK, "local file time -> universal file time");
	FileTimeToLocalFileTime(&f, &r);
	vf_assert(ticks(r) == (uint64_t)(s + zone) * TICK, "universal file time -> local file time");
	vf_cover("converted");
}
#ifdef VF_PROOF
// The contracts proved above, for the callers: f holds s seconds and a part of a second
static uint64_t seconds_of(const FILETIME &f)
{
	uint64_t s = vf_fresh("ghost_s"), t = ticks(f);
	vf_assert(t <= (uint64_t)2 * YEARS * TICK, "the file time is within the range of the contract");
	vf_assume(s <= 2 * YEARS);
	vf_assume(s * TICK <= t && t < s * TICK + TICK);
	return s;
}
extern "C" uint64_t contract_posix(FILETIME *f) { return seconds_of(*f) - SECONDS_1601; }
static uint64_t moved(uint64_t s, int64_t by)	// s + by, named
{
	uint64_t r = vf_fresh("moved");
	vf_assume(r <= 3 * (uint64_t)YEARS);
	vf_assume(r == s + by);
	return r;
}
extern "C" bool contract_to_universal(const FILETIME *f, FILETIME *r) { *r = filetime(moved(seconds_of(*f), -zone) * TICK); return true; }
extern "C" bool contract_to_local(const FILETIME *f, FILETIME *r) { *r = filetime(moved(seconds_of(*f), zone) * TICK); return true; }
#endif
static int64_t stored(const V8Time &t)
{
	TMemoryStream m;
	vf_assert(t.write_to_stream(&m) == 8, "a timestamp is stored in 8 bytes");
	int64_t v;
	memcpy(&v, m.GetMemory(), 8);
	return v;
}
static const int64_t CONTAINER_1601 = 504911232000000LL;	// ten-thousandths of a second from year 1 to 1601

PROOF(proof_v8_to_filetime)
{
	set_zone();
	int64_t s = vf_range("s", 86400, YEARS), sub = vf_range("sub", 0, 9999);
	V8Time t(CONTAINER_1601 + s * 10000 + sub);
	FILETIME f = t.to_file_time();
	vf_assert(ticks(f) == (uint64_t)(s - zone) * TICK, "container timestamp (local) -> the same moment as a file time, to the second");
	vf_cover("converted");
}
PROOF(proof_v8_from_filetime)
{
	set_zone();
	int64_t s = vf_range("s", 86400, YEARS), sub = vf_range("sub", 0, TICK - 1);
	FILETIME f = filetime(s * TICK + sub);
	V8Time t(f);
	vf_assert(stored(t) == CONTAINER_1601 + (s + zone) * 10000, "file time -> the same moment as a container timestamp");
	V8Time u;
	u.from_file_time(f);
	vf_assert(stored(u) == stored(t), "from_file_time and the constructor agree");
	vf_cover("converted");
}
PROOF(proof_v8_round)
{
	set_zone();
	int64_t s = vf_range("s", 2 * 86400, YEARS), sub = vf_range("sub", 0, 9999);
	V8Time t(CONTAINER_1601 + s * 10000 + sub);
	V8Time u(t.to_file_time());
	vf_assert(stored(u) == CONTAINER_1601 + s * 10000, "there and back loses only the part below a second");
	vf_cover("converted");
}
PROOF(proof_v8_utime)
{
	set_zone();
	int64_t c = vf_range("c", 86400, YEARS), m = vf_range("m", 86400, YEARS);
	V8Time create(CONTAINER_1601 + c * 10000), modify(CONTAINER_1601 + m * 10000);
	struct utimbuf u = V8Time::to_file_times(create, modify);
	vf_assert(u.actime == c - zone - SECONDS_1601, "creation time of the file on disk");
	vf_assert(u.modtime == m - zone - SECONDS_1601, "modification time of the file on disk");
	vf_cover("converted");
}

#ifdef VF_PROOF
// a stored date (local time) is converted to the universal file time of the moment it spells
PROOF(proof_v8_1cd)
{
	set_zone();
	int64_t s = vf_range("s", 86400, YEARS);
	moment = s - SECONDS_1601;
	unsigned char *b = (unsigned char *)vf_buf("b", 7);
	for (int k = 0; k < 7; k++) vf_assume((b[k] & 15) <= 9 && b[k] >> 4 <= 9);
	FILETIME f;
	time1CD_to_FileTime(&f, b);
	int v[7];
	for (int k = 0; k < 7; k++) v[k] = (b[k] >> 4) * 10 + (b[k] & 15);
	vf_assert(spelled.tm_year == v[0] * 100 + v[1] - 1900 && spelled.tm_mon == v[2] - 1 && spelled.tm_mday == v[3], "year, month and day");
	vf_assert(spelled.tm_hour == v[4] && spelled.tm_min == v[5] && spelled.tm_sec == v[6], "hour, minute and second");
	vf_assert(ticks(f) + zone * TICK == (uint64_t)s * TICK, "the universal file time of the stored local date");
	vf_cover("converted");
}
#endif
