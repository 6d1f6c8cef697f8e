// U06: calendar dates, timestamps and their text, against a calendar counted day by day and the C library.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/chrono.hpp>
#include <string>
#include <string.h>
#include <time.h>
#include <vector>
using stdex::chrono::aosn_date; using stdex::chrono::aosn_timestamp;
typedef aosn_date::time_point DP; typedef aosn_timestamp::time_point TP;

static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }
// Julian day number of 1 January: days counted from 0001-01-01, which is 1721426
static int64_t jan1(int y) { int64_t n = y - 1, f = 0; auto fl = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }; f = 365 * n + fl(n, 4) - fl(n, 100) + fl(n, 400); return 1721426 + f; }
static DP day(int64_t n) { return DP(aosn_date::duration((int32_t)n)); }
static TP ms(int64_t n) { return TP(aosn_timestamp::duration(n)); }

static void one(int64_t n, int d, int m, int y)
{
	uint8_t gd = 0, gm = 0; int32_t gy = 0;
	DP p = aosn_date::from_dmy((uint8_t)d, (uint8_t)m, y);
	MC_CHECK(p == day(n), "chrono.from_dmy", "%d-%02d-%02d is day %d instead of %lld", y, m, d, (int)p.time_since_epoch().count(), (long long)n);
	aosn_date::to_dmy(p, &gd, &gm, &gy); MC_CHECK(gd == d && gm == m && gy == y, "chrono.to_dmy", "day %lld is %d-%02d-%02d instead of %d-%02d-%02d", (long long)n, gy, gm, gd, y, m, d);
	MC_CHECK(aosn_date::day_of_week(p) == n % 7 && aosn_date::day_of_week((uint8_t)d, (uint8_t)m, y) == n % 7, "chrono.day_of_week", "%d-%02d-%02d", y, m, d);
}
// Every day of a year, for every year.
static void years(int from, int to)
{
	for (int y = from; y <= to; y++) { int64_t n = jan1(y); for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++, n++) one(n, d, m, y); MC_CHECK(n == jan1(y + 1), "harness", "year %d", y); }
	mc::transition((to - from + 1) * 365); mc::state((uint64_t)(int64_t)from); mc::outcome((uint64_t)(int64_t)from); mc::nontrivial();
}
MC_HARNESS(every_day) { int b = (int)mc::choose(1000); mc::job(); years(b * 10, b * 10 + 9); }
MC_HARNESS(before_christ) { int b = (int)mc::choose(471); mc::job(); years(-4712 + b * 10, -4712 + b * 10 + 9); }
MC_HARNESS(far_years)
{
	int b = (int)mc::choose(1000);
	mc::job();
	for (int y = 9990 + b * 1000; y < 9990 + b * 1000 + 1000; y++) { int64_t n = jan1(y); one(n, 1, 1, y); one(n + 30, 31, 1, y); one(n + 58, 28, 2, y); if (leap(y)) one(n + 59, 29, 2, y); one(n + 59 + leap(y), 1, 3, y); one(n + 364 + leap(y), 31, 12, y); }
	mc::transition(6000); mc::state(b); mc::outcome(b); mc::nontrivial();
}
MC_HARNESS(optional_fields)
{
	size_t mask = mc::choose(8), mask2 = mc::choose(128); int y = 1990 + (int)mc::choose(20);
	mc::job();
	uint8_t d = 99, m = 99, h = 99, mi = 99, s = 99; int32_t yr = 99; uint16_t milli = 9999;
	aosn_date::to_dmy(aosn_date::from_dmy(29, 2, y), mask & 1 ? &d : nullptr, mask & 2 ? &m : nullptr, mask & 4 ? &yr : nullptr); int ed = leap(y) ? 29 : 1, em = leap(y) ? 2 : 3;
	MC_CHECK(d == (mask & 1 ? ed : 99) && m == (mask & 2 ? em : 99) && yr == (mask & 4 ? y : 99), "chrono.optional", "date mask %zu", mask);
	d = m = 99; yr = 99; aosn_timestamp::to_dmy(aosn_timestamp::from_dmy(7, 8, y, 1, 2, 3, 4), mask2 & 1 ? &d : nullptr, mask2 & 2 ? &m : nullptr, mask2 & 4 ? &yr : nullptr, mask2 & 8 ? &h : nullptr, mask2 & 16 ? &mi : nullptr, mask2 & 32 ? &s : nullptr, mask2 & 64 ? &milli : nullptr);
	MC_CHECK(d == (mask2 & 1 ? 7 : 99) && m == (mask2 & 2 ? 8 : 99) && yr == (mask2 & 4 ? y : 99) && h == (mask2 & 8 ? 1 : 99) && mi == (mask2 & 16 ? 2 : 99) && s == (mask2 & 32 ? 3 : 99) && milli == (mask2 & 64 ? 4 : 9999), "chrono.optional", "timestamp mask %zu", mask2);
	uint64_t k = mask * 1024 + mask2 * 4 + y % 4; mc::transition(2); mc::state(k); mc::outcome(k); mc::nontrivial();
}
// Every second of days at the ends of eras, months and years, with milliseconds.
static const int ymd[][3] = { { 1970, 1, 1 }, { 1969, 12, 31 }, { 2000, 2, 29 }, { 2024, 12, 31 }, { 2100, 2, 28 }, { 1, 1, 1 }, { 9999, 12, 31 }, { 1600, 3, 1 }, { 2038, 1, 19 }, { -4712, 1, 1 } };
static const int64_t unix_epoch = 2440588;
MC_HARNESS(every_second)
{
	size_t k = mc::choose(sizeof ymd / sizeof *ymd), h = mc::choose(24);
	mc::job();
	int y = ymd[k][0], m = ymd[k][1], d = ymd[k][2]; int64_t n = jan1(y); for (int i = 1; i < m; i++) n += mdays(y, i); n += d - 1;
	static const int millis[] = { 0, 1, 500, 999 };
	for (int mi = 0; mi < 60; mi++) for (int s = 0; s < 60; s++) for (int f : millis) {
		int64_t sec = (int64_t)h * 3600 + mi * 60 + s, t = n * 86400000 + sec * 1000 + f; TP p = aosn_timestamp::from_dmy((uint8_t)d, (uint8_t)m, y, (uint8_t)h, (uint8_t)mi, (uint8_t)s, (uint16_t)f); const char* w = "chrono.timestamp";
		MC_CHECK(p == ms(t), w, "%d-%d-%d %zu:%d:%d.%03d is %lld instead of %lld", y, m, d, h, mi, s, f, (long long)p.time_since_epoch().count(), (long long)t);
		uint8_t gd, gm, gh, gi, gs; int32_t gy; uint16_t gf; aosn_timestamp::to_dmy(p, &gd, &gm, &gy, &gh, &gi, &gs, &gf);
		MC_CHECK(gd == d && gm == m && gy == y && gh == h && gi == mi && gs == s && gf == f, w, "%lld is %d-%d-%d %d:%d:%d.%03d", (long long)t, gy, gm, gd, gh, gi, gs, gf);
		time_t u = (n - unix_epoch) * 86400 + sec; struct timespec ts = { u, f * 1000000 + (f ? 999999 : 0) };
		MC_CHECK(aosn_timestamp::to_time_t(p) == u && aosn_timestamp::from_time_t(u) == ms(t - f) && aosn_date::from_time_t(u) == day(n) && aosn_date::to_time_t(day(n)) == u - sec, "chrono.time_t", "%lld", (long long)u);
		MC_CHECK(aosn_timestamp::from_system(ts) == p && aosn_date::from_system(ts) == day(n), "chrono.timespec", "%lld.%09ld is %lld instead of %lld", (long long)u, ts.tv_nsec, (long long)aosn_timestamp::from_system(ts).time_since_epoch().count(), (long long)t);
		MC_CHECK(aosn_timestamp::to_date(p) == day(n) && aosn_timestamp::from_date(day(n)) == ms(n * 86400000), w, "date of %lld", (long long)t);
		struct tm a = {}, b = {}; aosn_timestamp::to_system(p, a); gmtime_r(&u, &b);
		MC_CHECK(a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && !a.tm_isdst, "chrono.tm", "%d-%d-%d %zu:%d:%d gives year day %d and week day %d", y, m, d, h, mi, s, a.tm_yday, a.tm_wday);
	}
	mc::transition(3600 * 4); mc::state(k * 24 + h); mc::outcome(k * 24 + h); mc::nontrivial();
}
// Text of every day of several years, and of every length around the internal buffer.
template <class T> static std::basic_string<T> W(const std::string& s) { return std::basic_string<T>(s.begin(), s.end()); }
MC_HARNESS(text_of_days)
{
	int y = 1995 + (int)mc::choose(30), m = 1 + (int)mc::choose(12);
	mc::job();
	static const char* const fs[] = { "%Y-%m-%d", "%j", "%U %W %V %G", "%a %A %b %B", "%H:%M:%S %p %I", "%u %w %y %C", "%c", "%D %T %e" };
	int64_t n = jan1(y); for (int i = 1; i < m; i++) n += mdays(y, i);
	for (int d = 1; d <= mdays(y, m); d++, n++) for (int h = 0; h < 24; h += 11) {
		TP p = ms(n * 86400000 + h * 3600000 + 59 * 60000 + 58999); time_t u = aosn_timestamp::to_time_t(p); struct tm t; gmtime_r(&u, &t);
		for (auto f : fs) { char b[200]; size_t k = strftime(b, sizeof b, f, &t); std::string w(b, k);
			MC_CHECK(aosn_timestamp::to_str(p, f, stdex::locale_C) == w && aosn_timestamp::to_str(p, W<wchar_t>(f).c_str(), stdex::locale_C) == W<wchar_t>(w), "chrono.text", "%s of %d-%d-%d is %s instead of %s", f, y, m, d, aosn_timestamp::to_str(p, f, stdex::locale_C).c_str(), w.c_str()); }
		char b[100]; size_t k = strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &t); MC_CHECK(aosn_timestamp::to_rfc822(p) == std::string(b, k), "chrono.rfc822", "%d-%d-%d", y, m, d);
	}
	mc::transition(31 * 27); mc::state(y * 12 + m); mc::outcome(y * 12 + m); mc::nontrivial();
}
MC_HARNESS(text_of_any_length)
{
	static const char* const tails[] = { "", "%Y", "%%", "%A%B%%", "%H:%M" }; size_t k = mc::choose(5), base = mc::choose(6), off = mc::choose(24);
	mc::job();
	static const size_t at[] = { 12, 256, 512, 1024, 2048, 4096 }; size_t n = at[base] - 12 + off; TP p = aosn_timestamp::from_dmy(29, 2, 2024, 23, 59, 58, 999); time_t u = aosn_timestamp::to_time_t(p); struct tm t; gmtime_r(&u, &t);
	std::string f = std::string(n, 'x') + tails[k], w; char b[100]; w = std::string(n, 'x') + std::string(b, strftime(b, sizeof b, tails[k], &t));
	MC_CHECK(aosn_timestamp::to_str(p, f.c_str(), stdex::locale_C) == w && aosn_timestamp::to_str(p, W<wchar_t>(f).c_str(), stdex::locale_C) == W<wchar_t>(w), "chrono.text", "%zu characters and %s", n, tails[k]);
	uint64_t h = k * 1000 + base * 100 + off; mc::transition(2); mc::state(h); mc::outcome(h); mc::nontrivial();
}
MC_HARNESS(present)
{
	time_t a = time(nullptr); auto d = aosn_date::now(); auto t = aosn_timestamp::now(); time_t b = time(nullptr);
	MC_CHECK(aosn_timestamp::from_time_t(a) <= t && t < aosn_timestamp::from_time_t(b + 1) && aosn_date::from_time_t(a) <= d && d <= aosn_date::from_time_t(b), "chrono.now", "the present is not between the present");
	mc::transition(2); mc::state(1); mc::outcome(1); mc::nontrivial(); mc::job();
}
