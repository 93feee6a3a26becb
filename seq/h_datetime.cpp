// C24-C27: dates, times of day, time deltas, datetimes against integer arithmetic and a calendar that is counted day by day.
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <optional>
#include <sstream>

#include "seq.h"

using seq::Ctx;
using namespace std::chrono;
using i64 = int64_t;
using i128 = __int128;

// ------------------------------------------------------------------ the clock of the process
static bool clock_set = false;
static i64 clock_ns = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if (clock_set && id == CLOCK_REALTIME)
    {
        i64 s = clock_ns / 1000000000, n = clock_ns % 1000000000;
        if (n < 0) { n += 1000000000; --s; }
        t->tv_sec = s;
        t->tv_nsec = n;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace
{
constexpr i64 US = 1000, MS = 1000000, S = 1000000000, MIN = 60 * S, HOUR = 3600 * S, DAY = 86400 * S;
i64 floordiv(i64 a, i64 b) { i64 q = a / b; return a % b < 0 ? q - 1 : q; }

// ------------------------------------------------------------------ the calendar, counted
struct Day { int y, m, d; i64 n; int wd; }; // n: days since 1970-01-01; wd: 0 = Sunday
bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int month_days(int y, int m)
{
    static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : k[m - 1];
}
struct Calendar
{
    std::vector<Day> days; // consecutive
    Calendar(int from, int to)
    {
        // 1970-01-01 was a Thursday; count to the first of `from`
        i64 n = 0;
        for (int y = 1970; y < from; ++y) n += leap(y) ? 366 : 365;
        for (int y = from; y < 1970; ++y) n -= leap(y) ? 366 : 365;
        for (int y = from; y <= to; ++y)
            for (int m = 1; m <= 12; ++m)
                for (int d = 1; d <= month_days(y, m); ++d, ++n) days.push_back({y, m, d, n, static_cast<int>(((n + 4) % 7 + 7) % 7)});
    }
    const Day* find(i64 n) const
    {
        i64 i = n - days.front().n;
        return i < 0 || i >= static_cast<i64>(days.size()) ? nullptr : &days[static_cast<size_t>(i)];
    }
};
std::string ymd_text(const Day& x)
{
    char b[32];
    if (x.y < 0) snprintf(b, sizeof b, "-%04d-%02d-%02d", -x.y, x.m, x.d);
    else snprintf(b, sizeof b, "%04d-%02d-%02d", x.y, x.m, x.d);
    return b;
}
tc::sdk::date make(const Day& x) { return tc::sdk::date(year(x.y), month(static_cast<unsigned>(x.m)), day(static_cast<unsigned>(x.d))); }
std::string fields(const tc::sdk::date& d)
{
    return std::to_string(static_cast<int>(d.year())) + "-" + std::to_string(static_cast<unsigned>(d.month())) + "-" + std::to_string(static_cast<unsigned>(d.day()));
}
bool is(const tc::sdk::date& d, const Day& x)
{
    return static_cast<int>(d.year()) == x.y && static_cast<unsigned>(d.month()) == static_cast<unsigned>(x.m) && static_cast<unsigned>(d.day()) == static_cast<unsigned>(x.d);
}
const i64 NS_DAYS_MIN = -106751, NS_DAYS_MAX = 106750; // whole days a nanosecond time point can hold

void one_date(Ctx& C, const Calendar& cal, const Day& x)
{
    C.at("date %lld-%lld-%lld", x.y, x.m, x.d);
    C.state();
    C.exec();
    tc::sdk::date d = make(x);
    CHECK(C, d.is_valid(), "an existing day is not valid");
    CHECK(C, is(d, x), "its fields are %s", fields(d).c_str());
    CHECK(C, d.weekday().c_encoding() == static_cast<unsigned>(x.wd), "its weekday is %u instead of %d", d.weekday().c_encoding(), x.wd);
    CHECK(C, d.iso_weekday() == static_cast<unsigned>(x.wd ? x.wd : 7), "its iso weekday is %u", d.iso_weekday());
    CHECK(C, d.to_timepoint().time_since_epoch().count() == x.n, "its day number is %lld instead of %lld", static_cast<long long>(d.to_timepoint().time_since_epoch().count()), static_cast<long long>(x.n));
    tc::sdk::date same(year_month_day(year(x.y) / x.m / x.d));
    CHECK(C, same == d && !(same != d) && !(same < d) && !(same > d), "two objects of the same day differ");
    std::string t = d.to_string();
    if (x.y >= 0) CHECK(C, t == ymd_text(x), "it prints as %s", t.c_str()); // before year 0 the text is the business of the date library
    if (x.y >= 0)
    {
        CHECK(C, tc::sdk::date::from_string(t) == d, "its text reads back as %s", fields(tc::sdk::date::from_string(t)).c_str());
        char b[32];
        snprintf(b, sizeof b, "%02d/%02d/%04d", x.d, x.m, x.y);
        CHECK(C, d.to_string("%d/%m/%Y") == b, "%%d/%%m/%%Y prints %s", d.to_string("%d/%m/%Y").c_str());
        CHECK(C, tc::sdk::date::from_string(b, "%d/%m/%Y") == d, "%s reads as %s", b, fields(tc::sdk::date::from_string(b, "%d/%m/%Y")).c_str());
    }
    if (x.n >= NS_DAYS_MIN && x.n <= NS_DAYS_MAX)
        for (i64 off : {i64(0), i64(1), 12 * HOUR, DAY - 1})
        {
            if (x.n == NS_DAYS_MAX && off) continue;
            CHECK(C, is(tc::sdk::date(nanoseconds(x.n * DAY + off)), x), "the instant %lld ns into it is on %s", static_cast<long long>(off), fields(tc::sdk::date(nanoseconds(x.n * DAY + off))).c_str());
            CHECK(C, is(tc::sdk::date(tc::sdk::sys_time_point(nanoseconds(x.n * DAY + off))), x), "the time point %lld ns into it is on another day", static_cast<long long>(off));
        }
    std::ostringstream os;
    os << d;
    CHECK(C, os.str() == t, "it streams as %s", os.str().c_str());
    // moving
    for (i64 k : {0, 1, 27, 28, 29, 30, 31, 32, 58, 59, 60, 61, 365, 366, 367, 1460, 1461, 36524, 36525, 73049, 100000})
        for (i64 sub : {i64(0), i64(1), 13 * HOUR, DAY - 1})
        {
            i64 ns = k * DAY + sub;
            // with part of a day the move is floored
            if (const Day* to = cal.find(x.n + k))
            {
                tc::sdk::date r = d + tc::sdk::timedelta(nanoseconds(ns));
                CHECK(C, is(r, *to), "+ %lld days %lld ns is %s instead of %s", static_cast<long long>(k), static_cast<long long>(sub), fields(r).c_str(), ymd_text(*to).c_str());
                tc::sdk::date q = d - tc::sdk::timedelta(nanoseconds(-ns));
                CHECK(C, q == r, "- (-%lld ns) is %s", static_cast<long long>(ns), fields(q).c_str());
                if (!sub)
                {
                    CHECK(C, (r - d).total_nanoseconds().count() == k * DAY, "the difference to %s is not %lld days", ymd_text(*to).c_str(), static_cast<long long>(k));
                    CHECK(C, (d - r).total_nanoseconds().count() == -k * DAY, "the negative difference to %s is not %lld days", ymd_text(*to).c_str(), static_cast<long long>(k));
                    CHECK(C, (d < r) == (k > 0) && (r > d) == (k > 0) && !(r < d) && !(d > r) && (d == r) == (k == 0) && (d != r) == (k != 0), "it compares wrongly to %s", ymd_text(*to).c_str());
                    CHECK(C, is(r - tc::sdk::timedelta(nanoseconds(ns)), x), "moving to %s and back gives another day", ymd_text(*to).c_str());
                }
            }
            if (const Day* to = cal.find(x.n - k - (sub ? 1 : 0)))
            {
                tc::sdk::date r = d - tc::sdk::timedelta(nanoseconds(ns));
                CHECK(C, is(r, *to), "- %lld days %lld ns is %s instead of %s", static_cast<long long>(k), static_cast<long long>(sub), fields(r).c_str(), ymd_text(*to).c_str());
                tc::sdk::date q = d + tc::sdk::timedelta(nanoseconds(-ns));
                CHECK(C, q == r, "+ (-%lld ns) is %s", static_cast<long long>(ns), fields(q).c_str());
            }
        }
    C.outcome(static_cast<uint64_t>(x.n));
}
void dates(Ctx& C, int from, int to, bool month_ends_only)
{
    Calendar cal(from - 300, to + 300);
    for (const Day& x : cal.days)
    {
        if (x.y < from || x.y > to) continue;
        if (month_ends_only && !(x.d <= 1 || x.d >= month_days(x.y, x.m) || (x.m == 2 && x.d >= 28))) continue;
        if (C.mine()) one_date(C, cal, x);
    }
    C.sample("every day of " + std::to_string(from) + ".." + std::to_string(to));
}
void invalid(Ctx& C)
{
    for (int y : {-32767, -400, -4, -1, 0, 1, 4, 100, 400, 1582, 1600, 1700, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9999, 32767})
        for (int m = 0; m <= 255; m += m < 15 ? 1 : 60)
            for (int d = 0; d <= 255; d += d < 34 ? 1 : 61)
            {
                if (!C.mine()) continue;
                C.at("date %lld-%lld-%lld", y, m, d);
                C.state();
                C.exec();
                bool exists = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
                tc::sdk::date x(year(y), month(static_cast<unsigned>(m)), day(static_cast<unsigned>(d)));
                CHECK(C, x.is_valid() == exists, "is_valid says %d", x.is_valid());
                C.outcome(exists);
                if (y < 0 || y > 9999 || m > 99 || d > 99) continue;
                char b[32];
                snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
                tc::sdk::date r;
                bool read = false;
                try { r = tc::sdk::date::from_string(b); read = true; } catch (const std::runtime_error&) {}
                CHECK(C, read == exists, "from_string %s %s", read ? "accepts" : "rejects", b);
                if (read) CHECK(C, r == x, "%s reads as %s", b, fields(r).c_str());
            }
    CHECK(C, !tc::sdk::date().is_valid(), "a default date is valid");
    for (const char* s : {"", "2024", "2024-", "2024-05", "2024-05-", "x", "2024/05/26", "2024-5x-26", "-", "2024-05-aa", "0x10-05-05"})
    {
        C.at_text(s);
        bool threw = false;
        try { (void)tc::sdk::date::from_string(s); } catch (const std::runtime_error&) { threw = true; }
        CHECK(C, threw, "from_string accepts '%s'", s);
    }
    C.sample("all (year, month, day) triples of 26 years");
}
void pairs(Ctx& C)
{
    // all pairs of a set of boundary days
    Calendar cal(1600, 2400);
    std::vector<Day> set;
    for (const Day& x : cal.days)
        if ((x.y % 50 == 0 || x.y % 100 == 4 || x.y % 100 == 99) && ((x.m == 1 && x.d == 1) || (x.m == 12 && x.d == 31) || (x.m == 2 && x.d >= 28) || (x.m == 3 && x.d == 1) || (x.m == 10 && x.d == 15))) set.push_back(x);
    for (auto& a : set)
        for (auto& b : set)
        {
            if (!C.mine()) continue;
            C.at("%lld-%lld-%lld and %lld-%lld-%lld", a.y, a.m, a.d, b.y, b.m, b.d);
            C.state();
            C.exec();
            tc::sdk::date x = make(a), y = make(b);
            CHECK(C, (x < y) == (a.n < b.n), "wrong <");
            CHECK(C, (x > y) == (a.n > b.n), "wrong >");
            CHECK(C, (x == y) == (a.n == b.n), "wrong ==");
            CHECK(C, (x != y) == (a.n != b.n), "wrong !=");
            if (std::abs(a.n - b.n) < 106000)
            {
                CHECK(C, (x - y).total_days().count() == a.n - b.n, "the difference is %lld instead of %lld days", static_cast<long long>((x - y).total_days().count()), static_cast<long long>(a.n - b.n));
                CHECK(C, is(y + (x - y), a), "y + (x - y) is not x");
            }
            tc::sdk::date z(year(a.y), month(static_cast<unsigned>(a.m)), day(static_cast<unsigned>(a.d)));
            z = y;
            CHECK(C, z == y, "an assigned date differs");
            C.outcome(static_cast<uint64_t>(a.n - b.n + 1000000));
        }
    C.sample("all pairs of " + std::to_string(set.size()) + " boundary days");
}
void clocks(Ctx& C)
{
    std::vector<i64> at;
    for (i64 d : {-100000, -7305, -366, -2, -1, 0, 1, 58, 59, 11016, 19722, 20000, 47541, 100000})
        for (i64 o : {i64(0), i64(1), US - 1, US, MS - 1, MS, 999 * MS, S - 1, S, 59 * S + 999 * MS, HOUR - 1, HOUR, 12 * HOUR + 34 * MIN + 56 * S + 789012345, DAY - 1}) at.push_back(d * DAY + o);
    Calendar cal(1600, 2300);
    for (i64 t : at)
    {
        C.at("the clock at %lld ns", t);
        C.state();
        C.exec();
        clock_set = true;
        clock_ns = t;
        tc::sdk::date today = tc::sdk::date::today();
        auto now = tc::sdk::datetime::utc_now<nanoseconds>();
        auto now_us = tc::sdk::datetime::utc_now<microseconds>();
        auto now_ms = tc::sdk::datetime::utc_now();
        auto now_s = tc::sdk::datetime::utc_now<seconds>();
        auto tn = tc::sdk::time::utc_now<nanoseconds>();
        auto tm = tc::sdk::time::utc_now();
        auto ts = tc::sdk::time::utc_now<seconds>();
        auto tmi = tc::sdk::time::utc_now<minutes>();
        auto th = tc::sdk::time::utc_now<hours>();
        clock_set = false;
        i64 n = floordiv(t, DAY), tod = t - n * DAY;
        CHECK(C, is(today, *cal.find(n)), "today is %s", fields(today).c_str());
        CHECK(C, now.to_time_point().time_since_epoch().count() == t, "utc_now<ns> is %lld", static_cast<long long>(now.to_time_point().time_since_epoch().count()));
        auto near = [&](const tc::sdk::datetime& x, i64 unit) { i64 v = x.to_time_point().time_since_epoch().count(); return v % unit == 0 && std::abs(v - t) < unit; };
        CHECK(C, near(now_us, US) && near(now_ms, MS) && near(now_s, S), "utc_now in a coarser unit is off by a unit or more");
        if (t >= 0)
            CHECK(C, now_us.to_time_point().time_since_epoch().count() <= t && now_ms.to_time_point().time_since_epoch().count() <= t && now_s.to_time_point().time_since_epoch().count() <= t, "utc_now in a coarser unit is in the future");
        CHECK(C, tn.to_duration().count() == tod, "time::utc_now<ns> is %lld instead of %lld", static_cast<long long>(tn.to_duration().count()), static_cast<long long>(tod));
        CHECK(C, tm.to_duration().count() == tod / MS * MS && ts.to_duration().count() == tod / S * S && tmi.to_duration().count() == tod / MIN * MIN && th.to_duration().count() == tod / HOUR * HOUR, "time::utc_now in a coarser unit is wrong");
        C.outcome(static_cast<uint64_t>(t));
    }
    C.sample("196 clock readings from 1696 to 2243");
}

// ------------------------------------------------------------------ C25: times of day
std::string clock_text(i64 ns, i64 unit, int width)
{
    // [-]HH:MM:SS[.fraction] of the value floored to the unit
    i64 v = floordiv(ns, unit) * unit;
    bool neg = v < 0;
    i64 a = neg ? -v : v;
    char b[64];
    int n = snprintf(b, sizeof b, "%s%02lld:%02lld:%02lld", neg ? "-" : "", static_cast<long long>(a / HOUR), static_cast<long long>(a / MIN % 60), static_cast<long long>(a / S % 60));
    if (width) snprintf(b + n, sizeof b - static_cast<size_t>(n), ".%0*lld", width, static_cast<long long>(a % S / unit));
    return b;
}
i64 wrap(i128 ns) { return static_cast<i64>(ns % DAY); } // the sign is kept, as documented by the library's tests
void one_time(Ctx& C, const tc::sdk::time& t, i64 v)
{
    i64 a = v < 0 ? -v : v;
    CHECK(C, t.is_valid(), "it is not valid");
    CHECK(C, t.to_duration().count() == v, "its duration is %lld instead of %lld ns", static_cast<long long>(t.to_duration().count()), static_cast<long long>(v));
    CHECK(C, t.hours().count() == a / HOUR, "its hour is %lld", static_cast<long long>(t.hours().count()));
    CHECK(C, t.minutes().count() == a / MIN % 60, "its minute is %lld", static_cast<long long>(t.minutes().count()));
    CHECK(C, t.seconds().count() == a / S % 60, "its second is %lld", static_cast<long long>(t.seconds().count()));
    CHECK(C, t.milliseconds().count() == a % S / MS, "its milliseconds are %lld", static_cast<long long>(t.milliseconds().count()));
    CHECK(C, t.microseconds().count() == a % S / US, "its microseconds are %lld", static_cast<long long>(t.microseconds().count()));
    CHECK(C, t.nanoseconds().count() == a % S, "its nanoseconds are %lld", static_cast<long long>(t.nanoseconds().count()));
}
void time_text(Ctx& C, const tc::sdk::time& t, i64 v)
{
    auto eq = [&](const std::string& got, const std::string& want) { CHECK(C, got == want, "it prints as %s instead of %s", got.c_str(), want.c_str()); };
    eq(t.to_string(), clock_text(v, MS, 3));
    eq(t.to_string<seconds>(), clock_text(v, S, 0));
    eq(t.to_string<microseconds>(), clock_text(v, US, 6));
    eq(t.to_string<nanoseconds>(), clock_text(v, 1, 9));
    eq(t.to_string<minutes>(), clock_text(v, MIN, 0));
    eq(t.to_string<hours>(), clock_text(v, HOUR, 0));
}
std::vector<i64> time_grid()
{
    std::vector<i64> g;
    for (i64 h : {0, 1, 11, 12, 22, 23})
        for (i64 m : {0, 1, 59})
            for (i64 s : {0, 1, 59})
                for (i64 n : {i64(0), i64(1), US, MS - 1, MS, 500 * MS, S - 1}) g.push_back(h * HOUR + m * MIN + s * S + n);
    return g;
}
void times_every_second(Ctx& C)
{
    for (i64 s = 0; s < 86400; ++s)
        for (i64 n : {i64(0), MS, 500 * MS, 999 * MS + 999 * US + 999})
        {
            if (!C.mine()) continue;
            i64 v = s * S + n;
            C.at("the time of day %lld s %lld ns", s, n);
            C.state();
            C.exec();
            tc::sdk::time t{nanoseconds(v)};
            one_time(C, t, v);
            tc::sdk::time u{hours(s / 3600), minutes(s / 60 % 60), seconds(s % 60), nanoseconds(n)};
            CHECK(C, u == t && !(u != t), "built from its fields it is another time");
            if (n == 0 || C.thorough || s % 7 == 0)
            {
                std::string x = t.to_string();
                CHECK(C, x == clock_text(v, MS, 3), "it prints as %s", x.c_str());
                tc::sdk::time r = tc::sdk::time::from_string(x);
                CHECK(C, r.to_duration().count() == v / MS * MS, "%s reads as %s", x.c_str(), r.to_string<nanoseconds>().c_str());
            }
            C.outcome(static_cast<uint64_t>(v));
        }
    C.sample("every second of the day, four fractions each");
}
void times_grid(Ctx& C)
{
    std::vector<i64> g = time_grid(), deltas;
    for (i64 k : {i64(0), i64(1), US, MS, S, MIN, HOUR, 12 * HOUR, DAY - 1, DAY, DAY + 1, 25 * HOUR, 2 * DAY - 1, 1000 * DAY + 5})
        for (int sg : {1, -1}) deltas.push_back(sg * k);
    for (i64 a : g)
        for (int sg : {1, -1})
        {
            i64 v = sg * a;
            if (!C.mine()) continue;
            C.at("the time %lld ns", v);
            C.state();
            C.exec();
            tc::sdk::time t{nanoseconds(v)};
            one_time(C, t, v);
            time_text(C, t, v);
            if (v >= 0)
            {
                CHECK(C, tc::sdk::time::from_string<nanoseconds>(t.to_string<nanoseconds>()) == t, "its text with nanoseconds reads back as another time");
                CHECK(C, tc::sdk::time::from_string<microseconds>(t.to_string<nanoseconds>()).to_duration().count() == v / US * US, "reading with microseconds is wrong");
                CHECK(C, tc::sdk::time::from_string<seconds>(t.to_string<seconds>()).to_duration().count() == v / S * S, "its text with seconds reads back as another time");
            }
            std::ostringstream os;
            os << t;
            CHECK(C, os.str() == t.to_string(), "it streams as %s", os.str().c_str());
            for (i64 d : deltas)
            {
                C.at("the time %lld ns and the delta %lld ns", v, d);
                tc::sdk::timedelta td{nanoseconds(d)};
                one_time(C, t + td, wrap(static_cast<i128>(v) + d));
                one_time(C, t - td, wrap(static_cast<i128>(v) - d));
                // a multiple of a day more is the same time
                one_time(C, tc::sdk::time(nanoseconds(v), nanoseconds(d)), wrap(static_cast<i128>(v) + d));
            }
            for (i64 b : g)
                for (int sb : {1, -1})
                {
                    i64 w = sb * b;
                    C.at("the times %lld ns and %lld ns", v, w);
                    tc::sdk::time u{nanoseconds(w)};
                    CHECK(C, (t - u).total_nanoseconds().count() == v - w, "wrong difference");
                    CHECK(C, (t + u).total_nanoseconds().count() == v + w, "wrong sum");
                    CHECK(C, (t == u) == (v == w) && (t != u) == (v != w) && (t < u) == (v < w) && (t > u) == (v > w), "wrong comparison");
                }
            C.outcome(static_cast<uint64_t>(v));
        }
    CHECK(C, !tc::sdk::time().is_valid(), "a default time is valid");
    C.sample("378 times in both signs, all pairs, 28 deltas");
}
void times_text(Ctx& C)
{
    // HH:MM:SS with every two-digit field
    for (int h = 0; h < 100; h += h < 30 ? 1 : 23)
        for (int m = 0; m < 100; ++m)
            for (int s = 0; s < 100; ++s)
            {
                if (m > 2 && m < 57 && s > 2 && s < 57 && !C.thorough) continue;
                if (!C.mine()) continue;
                char b[32];
                snprintf(b, sizeof b, "%02d:%02d:%02d", h, m, s);
                C.at_text(b);
                C.state();
                C.exec();
                std::optional<i64> r; // its duration
                try { r = tc::sdk::time::from_string<seconds>(b).to_duration().count(); } catch (const std::runtime_error&) {}
                bool ok = h < 24 && m < 60 && s < 60;
                // fields that are no time of day may be refused; if they are read, then as the duration they make, wrapped into a day
                if (ok) CHECK(C, r.has_value(), "from_string rejects it");
                if (r) CHECK(C, *r == wrap((h * 3600 + m * 60 + s) * S), "it reads as %lld ns", static_cast<long long>(*r));
                C.outcome(ok ? static_cast<uint64_t>(h * 3600 + m * 60 + s) : 1u << 20);
            }
    for (const char* x : {"", ":", "12", "12:", "12:3", "12-30-00", "aa:bb:cc", "12:30:", "::", "12:30:x"})
    {
        C.at_text(x);
        bool threw = false;
        try { (void)tc::sdk::time::from_string(x); } catch (const std::runtime_error&) { threw = true; }
        CHECK(C, threw, "from_string accepts '%s'", x);
    }
    C.sample("all two-digit fields");
}

// ------------------------------------------------------------------ C26: time deltas
std::vector<i64> delta_grid()
{
    std::vector<i64> g{0};
    for (i64 u : {i64(1), US, MS, S, MIN, HOUR, DAY, 7 * DAY, i64(2629746) * S, i64(31556952) * S})
        for (i64 k : {i64(1), i64(2), i64(59), i64(61)})
            for (i64 d : {i64(-1), i64(0), i64(1)})
                for (int sg : {1, -1})
                    if (k <= i64(8000000000000000000) / u) g.push_back(sg * (u * k + d));
    for (i64 x : {HOUR + 2 * MIN + 3 * S + 4 * MS + 5 * US + 6, 99 * HOUR + 59 * MIN + 59 * S + 999999999, 100 * HOUR, 123456 * HOUR + 7})
        for (int sg : {1, -1}) g.push_back(sg * x);
    g.push_back(INT64_MAX);
    g.push_back(INT64_MAX - 1);
    for (i64 x : {i64(1) << 31, (i64(1) << 31) - 1, i64(1) << 32, (i64(1) << 32) + 1, i64(1) << 53, i64(1) << 62})
        for (int sg : {1, -1}) g.push_back(sg * x);
    std::sort(g.begin(), g.end());
    g.erase(std::unique(g.begin(), g.end()), g.end());
    return g;
}
std::string delta_text(i64 ns, i64 unit, int width)
{
    i64 v = ns / unit; // truncated towards zero
    bool neg = v < 0;
    i64 a = (neg ? -v : v) * unit;
    char b[64];
    int n = snprintf(b, sizeof b, "%s%02lld:%02lld:%02lld", neg ? "-" : "", static_cast<long long>(a / HOUR), static_cast<long long>(a / MIN % 60), static_cast<long long>(a / S % 60));
    if (width) snprintf(b + n, sizeof b - static_cast<size_t>(n), ".%0*lld", width, static_cast<long long>(a % S / unit));
    return b;
}
const i128 DELTA_LOW = static_cast<i128>(INT64_MIN) + HOUR; // (the components are rounded down: below this they do not fit)
void one_delta(Ctx& C, const tc::sdk::timedelta& t, i64 v)
{
    auto eq = [&](const char* what, i64 got, i64 want) { CHECK(C, got == want, "%s is %lld instead of %lld", what, static_cast<long long>(got), static_cast<long long>(want)); };
    eq("total_nanoseconds", t.total_nanoseconds().count(), v);
    eq("total_microseconds", t.total_microseconds().count(), v / US);
    eq("total_milliseconds", t.total_milliseconds().count(), v / MS);
    eq("total_seconds", t.total_seconds().count(), v / S);
    eq("total_minutes", t.total_minutes().count(), v / MIN);
    eq("total_hours", t.total_hours().count(), v / HOUR);
    eq("total_days", t.total_days().count(), v / DAY);
    eq("total_months", t.total_months().count(), v / (i64(2629746) * S));
    eq("total_years", t.total_years().count(), v / (i64(31556952) * S));
    eq("hours", t.hours().count(), floordiv(v, HOUR));
    eq("minutes", t.minutes().count(), floordiv(v, MIN) - floordiv(v, HOUR) * 60);
    eq("seconds", t.seconds().count(), floordiv(v, S) - floordiv(v, MIN) * 60);
    eq("milliseconds", t.milliseconds().count(), floordiv(v, MS) - floordiv(v, S) * 1000);
    eq("microseconds", t.microseconds().count(), floordiv(v, US) - floordiv(v, MS) * 1000);
    eq("nanoseconds", t.nanoseconds().count(), v - floordiv(v, US) * 1000);
    eq("the sum of the components", (nanoseconds(t.hours()) + t.minutes() + t.seconds() + t.milliseconds() + t.microseconds() + t.nanoseconds()).count(), v);
    CHECK(C, t.is_null() == (v == 0), "is_null is %d", t.is_null());
}
void deltas(Ctx& C)
{
    std::vector<i64> g = delta_grid();
    for (i64 a : g)
    {
        if (!C.mine()) continue;
        C.at("the delta %lld ns", a);
        C.state();
        C.exec();
        tc::sdk::timedelta t{nanoseconds(a)};
        one_delta(C, t, a);
        auto eq = [&](const std::string& got, const std::string& want) { CHECK(C, got == want, "it prints as %s instead of %s", got.c_str(), want.c_str()); };
        eq(t.to_string(), delta_text(a, MS, 3));
        eq(t.to_string<seconds>(), delta_text(a, S, 0));
        eq(t.to_string<microseconds>(), delta_text(a, US, 6));
        eq(t.to_string<nanoseconds>(), delta_text(a, 1, 9));
        std::ostringstream os;
        os << t;
        eq(os.str(), delta_text(a, MS, 3));
        // built from several durations
        one_delta(C, tc::sdk::timedelta(nanoseconds(a), hours(1), seconds(-3600)), a);
        one_delta(C, tc::sdk::timedelta(hours(a / HOUR), minutes(a % HOUR / MIN), seconds(a % MIN / S), nanoseconds(a % S)), a);
        for (i64 k : {i64(0), i64(1), i64(-1), i64(2), i64(3), i64(-7), i64(1000), i64(24)})
        {
            i128 p = static_cast<i128>(a) * k;
            C.at("the delta %lld ns and the factor %lld", a, k);
            if (p < INT64_MAX && p > DELTA_LOW) one_delta(C, t * k, static_cast<i64>(p));
            if (k && a / k > DELTA_LOW) one_delta(C, t / k, a / k);
        }
        C.at("the delta %lld ns divided by zero", a);
        bool refused = false;
        try { refused = (t / 0).is_null() && false; } catch (const std::domain_error&) { refused = true; }
        CHECK(C, refused, "a division by zero is not refused");
        for (i64 b : g)
        {
            C.at("the deltas %lld ns and %lld ns", a, b);
            tc::sdk::timedelta u{nanoseconds(b)};
            i128 s = static_cast<i128>(a) + b, d = static_cast<i128>(a) - b;
            if (s < INT64_MAX && s > DELTA_LOW)
            {
                one_delta(C, t + u, static_cast<i64>(s));
                CHECK(C, (t + u) - u == t, "adding and subtracting again is not neutral");
            }
            if (d < INT64_MAX && d > DELTA_LOW) one_delta(C, t - u, static_cast<i64>(d));
            CHECK(C, (t == u) == (a == b) && (t != u) == (a != b), "wrong comparison");
            i128 p = static_cast<i128>(a) * b; // the second value as a factor
            if (p < INT64_MAX && p > DELTA_LOW) CHECK(C, (t * b).total_nanoseconds().count() == static_cast<i64>(p), "the product is %lld", static_cast<long long>((t * b).total_nanoseconds().count()));
            if (b) CHECK(C, (t / b).total_nanoseconds().count() == a / b, "the quotient is %lld", static_cast<long long>((t / b).total_nanoseconds().count()));
            tc::sdk::timedelta c{nanoseconds(a)};
            c = u;
            CHECK(C, c == u, "an assigned delta differs");
        }
        C.outcome(static_cast<uint64_t>(a));
    }
    CHECK(C, tc::sdk::timedelta().is_null(), "a default delta is not null");
    C.sample("all pairs of " + std::to_string(g.size()) + " deltas");
}

// ------------------------------------------------------------------ C27: datetimes
std::string instant_text(const Day& x, i64 tod, i64 unit, int width) { return ymd_text(x) + "T" + clock_text(tod, unit, width); }
void one_instant(Ctx& C, const Calendar& cal, const tc::sdk::datetime& t, i64 v)
{
    i64 n = floordiv(v, DAY), tod = v - n * DAY;
    const Day& x = *cal.find(n);
    CHECK(C, t.is_valid(), "it is not valid");
    CHECK(C, t.to_time_point().time_since_epoch().count() == v, "it is at %lld instead of %lld", static_cast<long long>(t.to_time_point().time_since_epoch().count()), static_cast<long long>(v));
    CHECK(C, is(t.date(), x), "its date is %s instead of %s", fields(t.date()).c_str(), ymd_text(x).c_str());
    CHECK(C, t.time().to_duration().count() == tod, "its time of day is %lld instead of %lld ns", static_cast<long long>(t.time().to_duration().count()), static_cast<long long>(tod));
    CHECK(C, tc::sdk::datetime(t.date(), t.time()) == t, "its date and time make another datetime");
}
void instants(Ctx& C, int ystep)
{
    Calendar cal(1670, 2270);
    const std::vector<i64> offs{0, 1, US - 1, US, MS - 1, MS, 500 * MS, S - 1, S, MIN - 1, HOUR, 12 * HOUR + 34 * MIN + 56 * S + 789012345, DAY - S, DAY - MS, DAY - US, DAY - 1};
    std::vector<i64> deltas;
    for (i64 k : {i64(0), i64(1), US, MS, S - 1, S, MIN, HOUR, DAY - 1, DAY, DAY + 1, 31 * DAY, 366 * DAY, 36525 * DAY})
        for (int sg : {1, -1}) deltas.push_back(sg * k);
    i64 lo = (NS_DAYS_MIN + 2) * DAY, hi = (NS_DAYS_MAX - 2) * DAY;
    for (const Day& x : cal.days)
    {
        if (x.n <= NS_DAYS_MIN + 2 || x.n >= NS_DAYS_MAX - 2) continue;
        bool pick = (x.y % ystep == 0 || (x.y >= 1967 && x.y <= 1973)) && (x.d == 1 || x.d == month_days(x.y, x.m) || (x.m == 2 && x.d >= 28));
        if (x.n >= -3 && x.n <= 3) pick = true;
        if (!pick || !C.mine()) continue;
        for (i64 o : offs)
        {
            i64 v = x.n * DAY + o;
            C.at("%lld-%lld-%lld and %lld ns", x.y, x.m, x.d, o);
            C.state();
            C.exec();
            tc::sdk::datetime t{tc::sdk::sys_time_point(nanoseconds(v))};
            one_instant(C, cal, t, v);
            auto eq = [&](const std::string& got, const std::string& want) { CHECK(C, got == want, "it prints as %s instead of %s", got.c_str(), want.c_str()); };
            eq(t.to_string(), instant_text(x, o, MS, 3));
            eq(t.to_string<seconds>(), instant_text(x, o, S, 0));
            eq(t.to_string<microseconds>(), instant_text(x, o, US, 6));
            eq(t.to_string<nanoseconds>(), instant_text(x, o, 1, 9));
            eq(t.to_string<seconds>("%Y/%m/%d %H-%M-%S"), [&] { char b[40]; snprintf(b, sizeof b, "%04d/%02d/%02d %02d-%02d-%02d", x.y, x.m, x.d, static_cast<int>(o / HOUR), static_cast<int>(o / MIN % 60), static_cast<int>(o / S % 60)); return std::string(b); }());
            CHECK(C, tc::sdk::datetime::from_string<nanoseconds>(instant_text(x, o, 1, 9)) == t, "its text reads back as another datetime");
            CHECK(C, tc::sdk::datetime::from_string(instant_text(x, o, MS, 3)).to_time_point().time_since_epoch().count() == x.n * DAY + o / MS * MS, "its text with milliseconds reads back as another datetime");
            CHECK(C, tc::sdk::datetime::from_string<seconds>(instant_text(x, o, S, 0)).to_time_point().time_since_epoch().count() == x.n * DAY + o / S * S, "its text with seconds reads back as another datetime");
            std::ostringstream os;
            os << t;
            eq(os.str(), instant_text(x, o, MS, 3));
            CHECK(C, tc::sdk::datetime(year(x.y), month(static_cast<unsigned>(x.m)), day(static_cast<unsigned>(x.d)), hours(o / HOUR), minutes(o / MIN % 60), seconds(o / S % 60), milliseconds(o % S / MS), microseconds(o % MS / US), nanoseconds(o % US)) == t, "built from its fields it is another datetime");
            CHECK(C, tc::sdk::datetime(make(x)).to_time_point().time_since_epoch().count() == x.n * DAY, "its date alone is not midnight");
            for (i64 d : deltas)
            {
                C.at("%lld-%lld-%lld and %lld ns shifted by %lld ns", x.y, x.m, x.d, o, d);
                tc::sdk::timedelta td{nanoseconds(d)};
                if (static_cast<i128>(v) + d > lo && static_cast<i128>(v) + d < hi)
                {
                    tc::sdk::datetime u = t + td;
                    one_instant(C, cal, u, v + d);
                    CHECK(C, (u - t) == td && (u - td) == t, "the shift is not undone exactly");
                    CHECK(C, (t < u) == (d > 0) && (t > u) == (d < 0) && (t == u) == (d == 0) && (t != u) == (d != 0), "wrong comparison with the shifted datetime");
                }
                if (static_cast<i128>(v) - d > lo && static_cast<i128>(v) - d < hi) one_instant(C, cal, t - td, v - d);
            }
            C.outcome(static_cast<uint64_t>(v));
        }
    }
    CHECK(C, !tc::sdk::datetime().is_valid(), "a default datetime is valid");
    CHECK(C, !tc::sdk::datetime(tc::sdk::sys_time_point::max()).is_valid(), "the end of time is valid");
    C.sample("first and last days of every month of every " + std::to_string(ystep) + "th year");
}
void instants_time_only(Ctx& C)
{
    for (i64 v : time_grid())
        for (int sg : {1, -1})
        {
            C.at("the time %lld", sg * v);
            C.state();
            C.exec();
            tc::sdk::datetime t{tc::sdk::time(nanoseconds(sg * v))};
            CHECK(C, t.to_time_point().time_since_epoch().count() == sg * v, "a time alone is not counted from 1970-01-01");
            C.outcome(static_cast<uint64_t>(sg * v));
        }
    for (const char* x : {"", "T", "2024-01-01", "2024-01-01T", "2024-01-01T12", "2024-01-01T24:00:00", "2024-13-01T00:00:00", "2024-00-01T00:00:00", "2023-02-29T00:00:00", "2024-02-30T00:00:00", "2024-01-01T00:60:00", "2024-01-01 00:00:00", "x"})
    {
        C.at_text(x);
        bool threw = false;
        try { (void)tc::sdk::datetime::from_string(x); } catch (const std::runtime_error&) { threw = true; }
        CHECK(C, threw, "from_string accepts '%s'", x);
    }
    C.sample("times alone, malformed text");
}

// ------------------------------------------------------------------ other formats, against the C library
struct tm broken(const Day& x, i64 tod, int yday)
{
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_year = x.y - 1900;
    t.tm_mon = x.m - 1;
    t.tm_mday = x.d;
    t.tm_wday = x.wd;
    t.tm_yday = yday;
    t.tm_hour = static_cast<int>(tod / HOUR);
    t.tm_min = static_cast<int>(tod / MIN % 60);
    t.tm_sec = static_cast<int>(tod / S % 60);
    return t;
}
std::string c_format(const char* f, const struct tm& t)
{
    char b[200];
    size_t n = strftime(b, sizeof b, f, &t);
    return std::string(b, n);
}
void formats(Ctx& C, int from, int to)
{
    Calendar cal(from, to);
    int yday = 0;
    for (const Day& x : cal.days)
    {
        yday = x.m == 1 && x.d == 1 ? 0 : yday + 1;
        if (!C.mine()) continue;
        C.at("formats of %lld-%lld-%lld", x.y, x.m, x.d);
        C.state();
        C.exec();
        tc::sdk::date d = make(x);
        struct tm t = broken(x, 0, yday);
        for (const char* f : {"%Y", "%y", "%C", "%m", "%d", "%e", "%j", "%a", "%A", "%b", "%B", "%h", "%u", "%w", "%U", "%W", "%V", "%G", "%g", "%D", "%F", "%d.%m.%Y", "%A, %d %B %Y", "%%%n%t", "%EY|%Ey|%EC|%Om|%Od|%Oe", "%Ou|%Ow|%OU|%OV|%OW|%Oy", "%Ex", "%c", "%x"})
        {
            std::string want = c_format(f, t), got = d.to_string(f);
            CHECK(C, got == want, "%s prints %s instead of %s", f, got.c_str(), want.c_str());
        }
        for (const char* f : {"%d %b %Y", "%A, %d %B %Y", "%a %d %h %Y", "%Y-%j", "%Y%m%d", "%G-W%V-%u", "%Y %U %w", "%Y %W %u", "%C%y-%m-%d", "%F", "%d%%%m%%%Y", "%EY-%Om-%Od", "%Y%n%m%t%d"})
        {
            std::string text = c_format(f, t);
            bool same = false;
            std::string why = "it throws";
            try
            {
                tc::sdk::date r = tc::sdk::date::from_string(text, f);
                same = r == d;
                why = fields(r);
            }
            catch (const std::exception&) {}
            CHECK(C, same, "'%s' with format %s reads as %s", text.c_str(), f, why.c_str());
        }
        if (x.y >= 1969 && x.y <= 2068)
        {
            std::string text = c_format("%D", t);
            CHECK(C, tc::sdk::date::from_string(text, "%D") == d && tc::sdk::date::from_string(text, "%m/%d/%y") == d, "%s is read as another date", text.c_str());
        }
        C.outcome(static_cast<uint64_t>(x.n));
    }
    C.sample("every day of " + std::to_string(from) + ".." + std::to_string(to) + ", 29 formats printed, 14 read");
}
// the text and every text that differs from it in one number that is one lower or higher
template <class Fn> void near_misses(const std::string& text, Fn fn)
{
    fn(text);
    auto digit = [&](size_t i) { return i < text.size() && isdigit(static_cast<unsigned char>(text[i])); };
    for (size_t i = 0; i < text.size(); ++i)
    {
        if (!digit(i) || (i && digit(i - 1))) continue;
        size_t j = i;
        while (digit(j)) ++j;
        const int n = std::stoi(text.substr(i, j - i));
        for (int d : {-1, 1})
        {
            if (n + d < 0) continue;
            char b[32];
            snprintf(b, sizeof b, "%0*d", static_cast<int>(j - i), n + d);
            if (strlen(b) == j - i) fn(text.substr(0, i) + b + text.substr(j));
        }
    }
}
// Text of days that do not exist: a text in a format is read exactly if it is the text of a day, as that day. Candidates: all day numbers, all weeks, all
// weekday names, and the text of every day with one of its numbers one lower or higher.
void reads(Ctx& C, int from, int to)
{
    Calendar cal(from - 1, to + 1);
    struct Format { const char* f; std::map<std::string, i64> days; };
    std::vector<Format> F;
    for (const char* f : {"%Y-%j", "%G-W%V-%u", "%Y %U %w", "%Y %W %u", "%a %d %b %Y", "%F", "%F %j", "%Y-%m-%d %U", "%F %W", "%F %V", "%F %G", "%F %G %V", "%C%y-%m-%d %Y", "%Y-%j %V", "%Y %U %w %W", "%Y %W %u %V", "%G-W%V-%u %j", "%G-W%V-%u %F", "%A, %d/%m/%Y %j", "%F %u %w", "%D %Y"}) F.push_back({f, {}});
    int yday = 0;
    for (const Day& x : cal.days)
    {
        yday = x.m == 1 && x.d == 1 ? 0 : yday + 1;
        struct tm t = broken(x, 0, yday);
        for (auto& f : F) f.days.emplace(c_format(f.f, t), x.n);
    }
    auto candidate = [&](const Format& f, const std::string& text) {
        C.state();
        C.exec();
        auto it = f.days.find(text);
        bool read = false, same = false;
        std::string what;
        try
        {
            tc::sdk::date r = tc::sdk::date::from_string(text, f.f);
            read = true;
            what = fields(r);
            same = it != f.days.end() && is(r, *cal.find(it->second));
        }
        catch (const std::runtime_error&) {}
        CHECK(C, read == (it != f.days.end()), "'%s' with format %s is %s", text.c_str(), f.f, read ? ("read as " + what).c_str() : "refused");
        if (read) CHECK(C, same, "'%s' with format %s is read as %s", text.c_str(), f.f, what.c_str());
        C.outcome(read ? static_cast<uint64_t>(it->second) : 1u << 30);
    };
    char b[64];
    for (int y = from; y <= to; ++y)
    {
        if (!C.mine()) continue;
        C.at("text of days of the year %lld", y);
        for (int j = 0; j < 400; ++j) { snprintf(b, sizeof b, "%04d-%03d", y, j); candidate(F[0], b); }
        for (int w = 0; w < 61; ++w)
            for (int d = 0; d < 10; ++d)
            {
                snprintf(b, sizeof b, "%04d-W%02d-%d", y, w, d); candidate(F[1], b);
                snprintf(b, sizeof b, "%04d %02d %d", y, w, d); candidate(F[2], b); candidate(F[3], b);
            }
        for (const char* a : {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"})
            for (const char* m : {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"})
                for (int d = 0; d < 33; ++d) { snprintf(b, sizeof b, "%s %02d %s %04d", a, d, m, y); candidate(F[4], b); }
    }
    yday = 0;
    for (const Day& x : cal.days)
    {
        yday = x.m == 1 && x.d == 1 ? 0 : yday + 1;
        if (x.y < from || x.y > to) continue;
        const bool edge = yday < 10 || yday > 354 || x.d <= 2 || x.d >= 28; // where weeks and days leave their month or year
        if (!edge && !C.thorough) continue;
        if (!C.mine()) continue;
        C.at("text near %lld-%lld-%lld", x.y, x.m, x.d);
        struct tm t = broken(x, 0, yday);
        for (size_t k = 5; k < F.size(); ++k) near_misses(c_format(F[k].f, t), [&](const std::string& text) { candidate(F[k], text); });
    }
    C.sample("years " + std::to_string(from) + ".." + std::to_string(to) + ", 21 formats");
}
void time_formats(Ctx& C, i64 step)
{
    for (i64 s = 0; s < 86400; s += step)
    {
        if (!C.mine()) continue;
        C.at("formats of the time of day %lld s", s);
        C.state();
        C.exec();
        tc::sdk::time t{seconds(s)};
        struct tm b = broken(Day{1970, 1, 1, 0, 4}, s * S, 0);
        for (const char* f : {"%H", "%I", "%M", "%S", "%p", "%R", "%T", "%H-%M-%S", "%I:%M:%S %p", "%r", "%X", "%EX", "%OH|%OI|%OM|%OS", "%H%%%M"})
        {
            std::string want = c_format(f, b), got = t.to_string<seconds>(f);
            CHECK(C, got == want, "%s prints %s instead of %s", f, got.c_str(), want.c_str());
        }
        for (const char* f : {"%H-%M-%S", "%H %M %S", "%T", "%S:%M:%H", "%I:%M:%S %p", "%p %I %M %S", "%r", "%X", "%OH.%OM.%OS", "%H%M%S"})
        {
            std::string text = c_format(f, b);
            i64 r = -1;
            try { r = tc::sdk::time::from_string<seconds>(text, f).to_duration().count(); } catch (const std::exception&) {}
            CHECK(C, r == s * S, "'%s' with format %s reads as %lld ns", text.c_str(), f, static_cast<long long>(r));
        }
        i64 r = tc::sdk::time::from_string<minutes>(c_format("%R", b), "%R").to_duration().count();
        CHECK(C, r == s / 60 * MIN, "%%R reads as %lld ns", static_cast<long long>(r));
        C.outcome(static_cast<uint64_t>(s));
    }
    C.sample("every " + std::to_string(step) + " s of the day, 14 formats printed, 11 read");
}
void time_reads(Ctx& C)
{
    struct Format { const char* f; std::map<std::string, i64> times; };
    std::vector<Format> F;
    for (const char* f : {"%I:%M:%S %p", "%H %I:%M:%S %p", "%T %r", "%R %S %I%p", "%T %H", "%T %M %S", "%r %H:%M:%S", "%T %I", "%I %T"}) F.push_back({f, {}});
    for (i64 s = 0; s < 86400; ++s)
    {
        struct tm b = broken(Day{1970, 1, 1, 0, 4}, s * S, 0);
        for (auto& f : F) f.times.emplace(c_format(f.f, b), s);
    }
    auto candidate = [&](const Format& f, const std::string& text) {
        if (text.find("60") != std::string::npos || text.find("24") == 0) return; // no time of day, but a duration that may be read
        C.state();
        C.exec();
        auto it = f.times.find(text);
        i64 r = -1, want = it == f.times.end() ? -1 : it->second * S;
        try { r = tc::sdk::time::from_string<seconds>(text, f.f).to_duration().count(); } catch (const std::runtime_error&) {}
        CHECK(C, r == want, "'%s' with format %s is %s", text.c_str(), f.f, r < 0 ? "refused" : ("read as " + std::to_string(r) + " ns").c_str());
        C.outcome(static_cast<uint64_t>(r));
    };
    char b[64];
    for (int h = 0; h < 100; ++h)
        for (const char* p : {"AM", "PM"})
        {
            if (!C.mine()) continue;
            for (int m : {0, 1, 30, 59})
                for (int k = 0; k < 24; ++k)
                {
                    C.at("%lld on a clock of 12 hours, %lld on one of 24", h, k);
                    snprintf(b, sizeof b, "%02d %02d:%02d:00 %s", k, h, m, p);
                    candidate(F[1], b);
                    if (k == 0) candidate(F[0], b + 3);
                }
        }
    for (i64 s = 0; s < 86400; ++s)
    {
        const i64 r = s % 3600;
        if ((r > 2 && r < 3597 && s % 60 > 1 && s % 60 < 58 && !C.thorough) || !C.mine()) continue;
        C.at("text near the time of day %lld s", s);
        struct tm t = broken(Day{1970, 1, 1, 0, 4}, s * S, 0);
        for (auto& f : F) near_misses(c_format(f.f, t), [&](const std::string& text) { candidate(f, text); });
    }
    C.sample("all hours of clocks of 12 and 24 hours, near misses in 9 formats");
}
// text of days and times of day that do not exist
void instant_reads(Ctx& C)
{
    auto candidate = [&](const char* text, const char* f, bool ok, i64 want) {
        C.state();
        C.exec();
        i64 r = INT64_MIN;
        bool read = false;
        try { r = tc::sdk::datetime::from_string<seconds>(text, f).to_time_point().time_since_epoch().count(); read = true; } catch (const std::runtime_error&) {}
        CHECK(C, read == ok, "'%s' with format %s is %s", text, f, read ? ("read as " + std::to_string(r) + " ns").c_str() : "refused");
        if (read) CHECK(C, r == want, "'%s' with format %s is read as %lld ns", text, f, static_cast<long long>(r));
        C.outcome(static_cast<uint64_t>(r));
    };
    char b[64];
    Calendar cal(1960, 2030);
    for (int y : {1960, 1969, 1970, 1999, 2000, 2023, 2024, 2030})
        for (int m = 0; m < 15; ++m)
            for (int d = 0; d < 34; ++d)
            {
                if (!C.mine()) continue;
                C.at("%lld-%lld-%lld", y, m, d);
                bool exists = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
                i64 n = 0;
                if (exists) n = std::find_if(cal.days.begin(), cal.days.end(), [&](const Day& x) { return x.y == y && x.m == m && x.d == d; })->n;
                for (int h : {0, 12, 23, 24})
                    for (int mi : {0, 59, 60})
                        for (int s : {0, 59, 60})
                        {
                            snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, s);
                            candidate(b, "%F %T", exists && h < 24 && mi < 60 && s < 60, ((n * 24 + h) * 60 + mi) * MIN + s * S);
                        }
            }
    for (int h = 0; h < 100; ++h)
        for (int mi = 0; mi < 100; ++mi)
        {
            if (!C.mine()) continue;
            C.at("%lld hours and %lld minutes", h, mi);
            for (int s : {0, 1, 30, 59, 60, 61, 99})
            {
                snprintf(b, sizeof b, "%02d:%02d:%02d on 2024-02-29", h, mi, s);
                candidate(b, "%H:%M:%S on %Y-%m-%d", h < 24 && mi < 60 && s < 60, i64(19782) * DAY + (h * 60 + mi) * MIN + s * S);
                for (int p = 0; p < 2; ++p)
                {
                    snprintf(b, sizeof b, "2024-060 %02d:%02d:%02d %s", h, mi, s, p ? "PM" : "AM");
                    candidate(b, "%Y-%j %I:%M:%S %p", h >= 1 && h <= 12 && mi < 60 && s < 60, i64(19782) * DAY + ((h % 12 + 12 * p) * 60 + mi) * MIN + s * S);
                }
            }
        }
    C.sample("8 years x 15 months x 34 days x 36 times of day, all hours and minutes of two digits");
}
void instant_formats(Ctx& C)
{
    Calendar cal(1900, 2100);
    int yday = 0;
    for (const Day& x : cal.days)
    {
        yday = x.m == 1 && x.d == 1 ? 0 : yday + 1;
        bool pick = C.thorough || x.d == 1 || x.d == month_days(x.y, x.m) || (x.n >= -4 && x.n <= 4);
        if (!pick || !C.mine()) continue;
        for (i64 o : {i64(0), HOUR, 12 * HOUR - S, 12 * HOUR, 13 * HOUR + 5 * MIN + 9 * S, DAY - S})
        {
            C.at("formats of %lld-%lld-%lld and %lld ns", x.y, x.m, x.d, o);
            C.state();
            C.exec();
            tc::sdk::datetime t{tc::sdk::sys_time_point(nanoseconds(x.n * DAY + o))};
            struct tm b = broken(x, o, yday);
            for (const char* f : {"%Y-%m-%d %H:%M:%S", "%F %T", "%d/%m/%y %I:%M %p", "%c", "%A %d %B %Y, %R", "%j %U %w"})
            {
                std::string want = c_format(f, b), got = t.to_string<seconds>(f);
                CHECK(C, got == want, "%s prints %s instead of %s", f, got.c_str(), want.c_str());
            }
            for (const char* f : {"%Y-%m-%d %H:%M:%S", "%d %b %Y %T", "%Y%j%H%M%S", "%I:%M:%S %p on %d.%m.%Y", "%a, %d %b %Y %T", "%D %r", "%x %X"})
            {
                if (strstr(f, "%D") || strstr(f, "%x")) { if (x.y < 1969 || x.y > 2068) continue; }
                std::string text = c_format(f, b);
                i64 r = INT64_MIN;
                try { r = tc::sdk::datetime::from_string<seconds>(text, f).to_time_point().time_since_epoch().count(); } catch (const std::exception&) {}
                CHECK(C, r == x.n * DAY + o, "'%s' with format %s reads as %lld ns", text.c_str(), f, static_cast<long long>(r));
            }
            CHECK(C, t.to_string<seconds>("%FT%T%z") == c_format("%FT%T", b) + "+0000", "with its offset it prints as %s", t.to_string<seconds>("%FT%T%z").c_str());
            for (int off : {0, 1, 59, 60, 90, 330, 720, 840, -1, -60, -90, -300, -720})
            {
                char z[16];
                snprintf(z, sizeof z, "%c%02d%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60);
                std::string text = c_format("%FT%T", b) + z;
                i64 r = INT64_MIN;
                try { r = tc::sdk::datetime::from_string<seconds>(text, "%FT%T%z").to_time_point().time_since_epoch().count(); } catch (const std::exception&) {}
                CHECK(C, r == x.n * DAY + o - off * MIN, "'%s' reads as %lld ns", text.c_str(), static_cast<long long>(r));
            }
            C.outcome(static_cast<uint64_t>(x.n * DAY + o));
        }
    }
    C.sample("days of 1900..2100, 6 times of day, 7 formats printed, 8 read, 13 offsets");
}

// ------------------------------------------------------------------------------------------------ C37: the fields of a date in a stream
std::string year_text(int y)
{
    char b[64];
    snprintf(b, sizeof b, "%s%04d", y < 0 ? "-" : "", std::abs(y));
    return std::string(b) + (y < -32767 || y > 32767 ? " is not a valid year" : "");
}
std::string month_text(unsigned m) { return std::to_string(m) + (m < 1 || m > 12 ? " is not a valid month" : ""); }
std::string two(unsigned n) { char b[16]; snprintf(b, sizeof b, "%02u", n); return b; }
std::string day_text(unsigned d) { return two(d) + (d < 1 || d > 31 ? " is not a valid day" : ""); }
std::string ymd_text(int y, unsigned m, unsigned d)
{
    bool ok = y >= -32767 && m >= 1 && m <= 12 && d >= 1 && static_cast<int>(d) <= month_days(y, static_cast<int>(m));
    return std::to_string(y) + "-" + two(m) + "-" + two(d) + (ok ? "" : " is not a valid year_month_day");
}
template <class T> std::string streamed(const T& x) { std::ostringstream o; o << x; return o.str(); }
void field_values(Ctx& C)
{
    auto check = [&](const std::string& got, const std::string& want) {
        C.state(); C.exec(); C.outcome(got);
        CHECK(C, got == want, "it prints '%s' instead of '%s'", got.c_str(), want.c_str());
    };
    for (int y = -32768; y <= 32767; y++) { if (!C.mine()) continue; C.at("year %lld", y); check(streamed(year(y)), year_text(y)); }
    for (unsigned m = 0; m < 256; m++) { if (!C.mine()) continue; C.at("month %lld", m); check(streamed(month(m)), month_text(m)); }
    for (unsigned d = 0; d < 256; d++) { if (!C.mine()) continue; C.at("day %lld", d); check(streamed(day(d)), day_text(d)); }
    for (int y : {-32768, -32767, -10000, -9999, -400, -100, -5, -4, -1, 0, 1, 4, 9, 10, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 9999, 10000, 32767})
        for (unsigned m = 0; m < 256; m += m < 15 ? 1 : 60)
            for (unsigned d = 0; d < 256; d += d < 34 ? 1 : 37)
            {
                if (!C.mine()) continue;
                C.at("year_month_day %lld-%lld-%lld", y, m, d);
                check(streamed(std::chrono::year_month_day(year(y), month(m), day(d))), ymd_text(y, m, d));
            }
    if (C.shard == 0) C.sample("every year, month and day; 32 years x 19 months x 41 days");
}
void field_sequences(Ctx& C)
{
    // one stream, all sequences of up to 4 insertions (also of numbers and text between them)
    const int N = 14, L = C.thorough ? 5 : 4;
    long long total = 1;
    for (int i = 0; i < L; i++) total *= N;
    for (long long n = 0; n < total; n++)
    {
        if (!C.mine()) continue;
        C.at("insertion sequence %lld", n);
        C.state(); C.exec();
        std::ostringstream o;
        std::string want;
        long long k = n;
        for (int i = 0; i < L; i++, k /= N)
        {
            switch (k % N)
            {
            case 0: o << year(5); want += year_text(5); break;
            case 1: o << year(-44); want += year_text(-44); break;
            case 2: o << year(12345); want += year_text(12345); break;
            case 3: o << month(3); want += month_text(3); break;
            case 4: o << month(12); want += month_text(12); break;
            case 5: o << month(13); want += month_text(13); break;
            case 6: o << day(7); want += day_text(7); break;
            case 7: o << day(31); want += day_text(31); break;
            case 8: o << day(0); want += day_text(0); break;
            case 9: o << std::chrono::year_month_day(year(2024), month(2), day(9)); want += ymd_text(2024, 2, 9); break;
            case 10: o << std::chrono::year_month_day(year(2023), month(2), day(29)); want += ymd_text(2023, 2, 29); break;
            case 11: { tc::sdk::date d(year(1999), month(1), day(2)); o << d.year() << '/' << d.month() << '/' << d.day(); want += "1999/1/02"; break; }
            case 12: { tc::sdk::date d(year(987), month(6), day(5)); o << d; want += "0987-06-05"; break; }
            default: o << ' ' << 8; want += " 8"; break;
            }
            C.step();
        }
        CHECK(C, o.str() == want, "they print '%s' instead of '%s'", o.str().c_str(), want.c_str());
        C.outcome(want);
    }
    if (C.shard == 0) C.sample("all sequences of " + std::to_string(L) + " of 14 insertions into one stream");
}
seq::Reg e1("C37/values", 4, field_values, "every year, month and day, valid or not; year_month_day from 32 years x 19 months x 41 days");
seq::Reg e2("C37/sequences", 8, field_sequences, "all sequences of 4 (thorough: 5) of 14 insertions into one stream");

seq::Reg a1("C24/days", 16, [](Ctx& C) { if (C.thorough) dates(C, 1000, 3000, false); else dates(C, 1690, 2310, false); }, "every day of 1690..2310 (thorough: 1000..3000) with 21 day offsets and part-day offsets");
seq::Reg a2("C24/month-ends", 16, [](Ctx& C) { if (C.thorough) dates(C, -9000, 9700, true); else dates(C, -400, 4000, true); }, "first and last days of all months of -400..4000 (thorough: -9000..9700)");
seq::Reg a3("C24/invalid", 2, invalid, "all (year, month, day) triples of 26 years, malformed text");
seq::Reg a4("C24/pairs", 2, pairs, "all pairs of boundary days of 1600..2400");
seq::Reg a5("C24/today", 1, clocks, "today and utc_now of all three classes at 196 clock readings");
seq::Reg b1("C25/seconds", 8, times_every_second, "every second of the day with four fractions");
seq::Reg b2("C25/grid", 8, times_grid, "378 boundary times in both signs, all pairs, 28 deltas");
seq::Reg b3("C25/text", 4, times_text, "all two-digit fields, malformed text");
seq::Reg b4("C25/now", 1, clocks, "utc_now at 196 clock readings");
seq::Reg c1("C26/grid", 8, deltas, "all pairs of a grid of about 200 boundary values in both signs, 8 factors");
seq::Reg d1("C27/instants", 16, [](Ctx& C) { instants(C, C.thorough ? 1 : 3); }, "first and last days of the months of every 3rd year (thorough: every year) of 1678..2261, 16 offsets, 28 shifts");
seq::Reg d2("C27/times", 1, instants_time_only);
seq::Reg d3("C27/now", 1, clocks, "utc_now at 196 clock readings");
seq::Reg a6("C24/formats", 8, [](Ctx& C) { if (C.thorough) formats(C, 1600, 2500); else formats(C, 1890, 2110); }, "every day of 1890..2110 (thorough: 1600..2500), 29 formats printed and 14 read, against the C library");
seq::Reg a7("C24/reads", 8, [](Ctx& C) { if (C.thorough) reads(C, 1900, 2199); else reads(C, 1970, 2033); }, "all day numbers, weeks and weekday names of 1970..2033 (thorough: 1900..2199) and near misses in 21 formats, accepted exactly if they are the text of a day");
seq::Reg b5("C25/formats", 8, [](Ctx& C) { time_formats(C, 1); }, "every second of the day, 14 formats printed and 11 read, against the C library");
seq::Reg b6("C25/reads", 8, time_reads, "all hours of clocks of 12 and of 24 hours, near misses in 9 formats, accepted exactly if they are the text of a time");
seq::Reg d5("C27/reads", 8, instant_reads, "all hours and minutes of two digits, 8 years x 15 months x 34 days x 36 times of day, accepted exactly if they exist");
seq::Reg d4("C27/formats", 8, instant_formats, "first and last days of the months of 1900..2100 (thorough: every day), 6 times of day, 7 formats printed and 8 read, 13 offsets from UTC, against the C library");
}
