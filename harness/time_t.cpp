// T01: time_t arithmetic, ordering, calendar round trips and formatting
#include "tracked.hpp"
#include <itlib/time_t.hpp>
#include <itlib/time_t.hpp>
#include <cmath>
#include <ratio>
using namespace mc;
typedef itlib::time_t T; typedef __int128 I;
// ---- calendar by the definition of the Gregorian calendar
static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int mdays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int64_t days_from(int64_t y, int m, int d) { // m 0..11, d from 1
    int64_t p = y - 1, days = p * 365 + (p >= 0 ? p / 4 - p / 100 + p / 400 : -((-p + 3) / 4) + (-p + 99) / 100 - (-p + 399) / 400) - 719162; for (int i = 0; i < m; ++i) days += mdays[i] + (i == 1 && leap(y)); return days + d - 1; }
static std::tm calendar(int64_t s) {
    int64_t days = s / 86400, r = s % 86400; if (r < 0) { r += 86400; --days; } int64_t y = 1970 + int64_t(std::floor(double(days) / 365.2425)); while (days_from(y + 1, 0, 1) <= days) ++y; while (days_from(y, 0, 1) > days) --y; int yd = int(days - days_from(y, 0, 1)), m = 0, d = yd; while (d >= mdays[m] + (m == 1 && leap(y))) { d -= mdays[m] + (m == 1 && leap(y)); ++m; }
    std::tm t = {}; t.tm_sec = int(r % 60); t.tm_min = int(r / 60 % 60); t.tm_hour = int(r / 3600); t.tm_mday = d + 1; t.tm_mon = m; t.tm_year = int(y - 1900); t.tm_yday = yd; t.tm_wday = int(((days + 4) % 7 + 7) % 7); return t; }
static bool eq(const std::tm& a, const std::tm& b) { return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday; }
static std::vector<int64_t> instants; static void window(int64_t at, int64_t before, int64_t after) { for (int64_t i = at - before; i <= at + after; ++i) instants.push_back(i); }
static void boundaries(int w) {
    instants.clear(); for (int64_t a : {int64_t(0), int64_t(INT32_MAX), int64_t(INT32_MIN), int64_t(UINT32_MAX), int64_t(1) << 32, int64_t(-1) * (int64_t(1) << 32), int64_t(253402300800), int64_t(-62135596800), int64_t(67767976233532799), int64_t(1000100000)}) window(a, w, w);
    for (int64_t y : {1900, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2037, 2038, 2099, 2100, 2400}) for (int m : {0, 1, 2, 11}) { window(days_from(y, m, 1) * 86400, w, w); window(days_from(y, m, 28) * 86400, 2, 2); window(days_from(y, m, 29) * 86400, 2, 2); }
    instants.erase(std::remove_if(instants.begin(), instants.end(), [](int64_t x) { return x > 67767976233532799; }), instants.end()); }
// daylight saving changes of 2024 and others in the zones below
static void dst(int w) { instants.clear(); for (int64_t y = 2019; y <= 2025; ++y) for (int m : {2, 3, 9, 10}) for (int d = 1; d <= mdays[m]; ++d) for (int h = 0; h < 24; ++h) window(days_from(y, m, d) * 86400 + h * 3600, h < 12 && w > 1 ? w : 1, 1); }
static const char* zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "<-03>3", "NPT-5:45", "<+14>-14"};
static void zone(const char* z) { setenv("TZ", z, 1); tzset(); }
static void utc() {
    int64_t s = pick(instants); T t = T::from_seconds(s); if (t.seconds_since_epoch() != s || std::time_t(t) != std::time_t(s) || T(std::time_t(s)) != t) fail("conversions of %lld", (long long)s);
    std::time_t other = 86400 * 365 * 7 + 12345; std::tm* shared = std::gmtime(&other); std::tm keep = *shared; std::tm g = t.gmtime(); const std::tm want = calendar(s); if (!eq(*shared, keep)) fail("gmtime() writes to memory shared by all threads"); if (!eq(g, want) || g.tm_isdst) fail("gmtime of %lld: %d-%d-%d %d:%d:%d", (long long)s, g.tm_year, g.tm_mon, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
    std::tm h = g; T back = T::from_gmtime(h); if (back != t) fail("from_gmtime(gmtime(%lld)) is %lld", (long long)s, (long long)back.seconds_since_epoch()); if (!eq(h, want)) fail("from_gmtime changed a normalised argument");
}
static void local() {
    int z = choose(int(sizeof zones / sizeof *zones)); int64_t s = pick(instants); zone(zones[z]); T t = T::from_seconds(s); std::time_t ct = s; std::tm want = {}; localtime_r(&ct, &want); 
    std::time_t other = 86400 * 365 * 7 + 12345; std::tm* shared = std::localtime(&other); std::tm keep = *shared; std::tm l = t.localtime(); if (!eq(*shared, keep)) fail("localtime() writes to memory shared by all threads"); if (!eq(l, want) || l.tm_isdst != want.tm_isdst || l.tm_gmtoff != want.tm_gmtoff) fail("localtime of %lld in %s", (long long)s, zones[z]);
    std::tm c = calendar(s + want.tm_gmtoff); if (!eq(l, c)) fail("localtime of %lld in %s is off", (long long)s, zones[z]); std::tm h = l; T back = T::from_localtime(h); if (back != t) fail("from_localtime(localtime(%lld)) is %lld in %s", (long long)s, (long long)back.seconds_since_epoch(), zones[z]); if (!eq(h, want) || h.tm_isdst != want.tm_isdst) fail("from_localtime changed a normalised argument");
}
static void normalise() {     // fields out of range
    int sec = choose_of({0, 59, 60, -1, 86400, -100000}), min = choose_of({0, 60, -1, 1500}), hour = choose_of({0, 23, 24, -1, 800}), day = choose_of({1, 0, -1, 28, 29, 30, 31, 32, 366, -400}), mon = choose_of({0, 1, 2, 11, 12, -1, 25, -13}), year = choose_of({70, 100, 0, 124, 200, -1}), z = choose(4), d = choose_of({-1, 0});
    std::tm t = {}; t.tm_sec = sec; t.tm_min = min; t.tm_hour = hour; t.tm_mday = day; t.tm_mon = mon; t.tm_year = year; t.tm_isdst = d; t.tm_wday = 99; t.tm_yday = -5; int64_t y = 1900 + year + (mon < 0 ? -((-mon + 11) / 12) : mon / 12); int m = ((mon % 12) + 12) % 12; int64_t s = (days_from(y, m, 1) + day - 1) * 86400 + int64_t(hour) * 3600 + int64_t(min) * 60 + sec;
    { std::tm g = t; g.tm_isdst = 0; T r = T::from_gmtime(g); if (r.seconds_since_epoch() != s) fail("from_gmtime gave %lld, expected %lld", (long long)r.seconds_since_epoch(), (long long)s); if (!eq(g, calendar(s))) fail("from_gmtime did not normalise its argument"); }
    { zone(zones[z]); std::tm l = t, w = t; auto want = ::mktime(&w); T r = T::from_localtime(l); if (r.seconds_since_epoch() != want || !eq(l, w) || l.tm_isdst != w.tm_isdst) fail("from_localtime gave %lld, expected %lld", (long long)r.seconds_since_epoch(), (long long)want); std::tm b = r.localtime(); if (!eq(b, l)) fail("localtime of from_localtime"); }
}
// ---- arithmetic
static const std::vector<int64_t>& counts() { static std::vector<int64_t> c; if (c.empty()) { Quiet q; for (int64_t i = -25; i <= 25; ++i) c.push_back(i); for (int64_t b : {59, 60, 61, 999, 1000, 1001, 1799, 1800, 1999, 2000, 3599, 3600, 86399, 86400, 999999, 1000000, 1000001, 999999999, 1000000000, 1000000001, INT32_MAX}) { c.push_back(b); c.push_back(-b); } c.push_back(INT32_MIN); } return c; }
template <class D> static I whole(const D& d) { I n = I(d.count()) * D::period::num; return n / D::period::den; }     // towards zero
template <class D> static void arith(int64_t s, int64_t n) {
    if (double(n) * D::period::num / D::period::den > 1e17) return; D d{typename D::rep(n)}; if (I(d.count()) != n) return; int64_t w = int64_t(whole(d)); T t = T::from_seconds(s), a = t, b = t; const T k = t;
    if ((k + d).seconds_since_epoch() != s + w) fail("%lld + %lld units is %lld, expected %lld", (long long)s, (long long)n, (long long)(k + d).seconds_since_epoch(), (long long)(s + w)); if ((k - d).seconds_since_epoch() != s - w) fail("%lld - %lld units is %lld", (long long)s, (long long)n, (long long)(k - d).seconds_since_epoch()); if (&(a += d) != &a || a.seconds_since_epoch() != s + w) fail("+="); if (&(b -= d) != &b || b.seconds_since_epoch() != s - w) fail("-="); if (a - t != std::chrono::seconds(w) || (b - a).count() != -2 * w) fail("difference"); if (a - d != t || b + d != t) fail("adding and subtracting the same");
}
static void arithmetic() {
    using namespace std::chrono; int64_t s = choose_of({0, 1, -1, 59, -59, 100, 1000100000, INT32_MAX, INT32_MIN}); if (choose(2)) s *= int64_t(1) << 20; int64_t n = pick(counts());
    arith<seconds>(s, n); arith<milliseconds>(s, n); arith<microseconds>(s, n); arith<nanoseconds>(s, n); arith<minutes>(s, n); arith<hours>(s, n); arith<duration<int64_t, std::ratio<1, 3>>>(s, n); arith<duration<int64_t, std::ratio<7>>>(s, n); arith<duration<int64_t, std::ratio<86400>>>(s, n); arith<duration<int64_t, std::ratio<2, 7>>>(s, n); arith<duration<int16_t>>(s, n); arith<duration<signed char, std::deci>>(s, n); arith<duration<int, std::ratio<1, 60>>>(s, n); arith<duration<int64_t, std::ratio<3600, 7>>>(s, n);
    { duration<double> d(double(n) + 0.75); int64_t w = int64_t(double(n) + 0.75); T t = T::from_seconds(s); if ((t + d).seconds_since_epoch() != s + w || (t - d).seconds_since_epoch() != s - w) fail("floating point seconds"); duration<float, std::milli> f(1500.5f); if ((t + f).seconds_since_epoch() != s + 1) fail("floating point milliseconds"); }
}
static void order() {
    static const int64_t v[] = {INT64_MIN, INT64_MIN + 1, -(int64_t(1) << 32), INT32_MIN, -2, -1, 0, 1, 2, 255, 256, INT32_MAX, int64_t(1) << 31, UINT32_MAX, int64_t(1) << 32, (int64_t(1) << 32) + 1, INT64_MAX - 1, INT64_MAX}; int64_t a = v[choose(18)], b = v[choose(18)]; const T x = T::from_seconds(a), y = T::from_seconds(b);
    if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) fail("comparison of %lld and %lld", (long long)a, (long long)b); I d = I(a) - b; if (d >= INT64_MIN && d <= INT64_MAX && I((x - y).count()) != d) fail("difference of %lld and %lld", (long long)a, (long long)b); static_assert(std::is_same<decltype(x - y), std::chrono::duration<int64_t>>::value, "");
    T z; if (z.seconds_since_epoch() != 0) fail("a default time_t"); z = x; T w(x); if (z != x || w != x || T(std::time_t(a)).seconds_since_epoch() != a) fail("copies"); if (choose(2)) { auto t0 = std::time(nullptr); auto n = T::now(); auto t1 = std::time(nullptr); if (n.seconds_since_epoch() < t0 || n.seconds_since_epoch() > t1) fail("now()"); }
}
static_assert(!std::is_convertible<std::time_t, T>::value && !std::is_convertible<T, std::time_t>::value && !std::is_convertible<T, bool>::value, "");
// ---- formatting
static void format(const std::string& f, const std::tm& tm) { static std::vector<char> buf(1 << 20); size_t n = f.empty() ? 0 : std::strftime(buf.data(), buf.size(), f.c_str(), &tm); std::string r = itlib::strftime(f.c_str(), tm); if (r.size() != n || !std::equal(r.begin(), r.end(), buf.data())) fail("strftime(\"%s\") gave %zu characters, expected %zu", f.substr(0, 100).c_str(), r.size(), n); }
static void formats() {
    static const std::vector<std::string> items{"%Y", "%m", "%d", "%H", "%M", "%S", "%a", "%A", "%b", "%B", "%c", "%x", "%X", "%p", "%j", "%U", "%W", "%w", "%y", "%Z", "%z", "%%", "%n", "%t", "%D", "%F", "%T", "%R", "%r", "%e", "%h", "%I", "%u", "%V", "%G", "%g", "%C", "%s", "%Ec", "%Oy", " ", "x"};
    int k = choose(thorough ? 5 : 3); std::string f; for (int i = 0; i < k; ++i) f += items[size_t(choose(int(items.size())))]; int64_t s = choose_of({0, 1000100000, -1, INT32_MAX}); std::tm t = calendar(s); int z = choose(2); t.tm_zone = z ? "" : "UTC"; format(f, t);
}
static void lengths() { // every length of the result, made of letters, of one conversion and letters, and of conversions only
    int n = choose(thorough ? 5000 : 1200), kind = choose(4); std::tm t = calendar(1000100000); t.tm_zone = ""; std::string f; if (kind == 0) f.assign(size_t(n), 'x'); else if (kind == 1) { f = "%Y"; f.append(size_t(n), ' '); } else if (kind == 2) { f.assign(size_t(n), 'y'); f += "%A"; } else { for (int i = 0; i < n % 300; ++i) f += "%A%S"; f += "%Z"; } format(f, t);
}
static void empties() { int n = choose(400); std::string f; for (int i = 0; i < n; ++i) f += "%Z"; std::tm t = calendar(5); t.tm_zone = ""; format(f, t); }
void mc_setup() {
    add("utc", [] { boundaries(thorough ? 20000 : 600); explore_choices(utc); }); add("local_boundaries", [] { boundaries(thorough ? 1500 : 30); explore_choices(local); }); add("local_dst", [] { dst(thorough ? 120 : 1); explore_choices(local); });
    add("normalise", [] { explore_choices(normalise); }); add("arithmetic", [] { explore_choices(arithmetic); }); add("order", [] { explore_choices(order); }); add("formats", [] { explore_choices(formats); }); add("lengths", [] { explore_choices(lengths); }); add("empty_results", [] { explore_choices(empties); });
}
