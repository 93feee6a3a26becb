// C28-C31, C35: points, sizes, lines, ranges, rectangles, min/max against exact integer geometry, exhaustively on grids.
#include <algorithm>
#include <cmath>
#include <limits>
#include <optional>
#include <sstream>
#include <type_traits>

#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/math.hpp>

#include "seq.h"

using seq::Ctx;
using i64 = int64_t;
using i128 = __int128;
template <class T> using point = tc::sdk::point<T>;
template <class T> using line = tc::sdk::line<T>;
template <class T> using range = tc::sdk::range<T>;
template <class T> using rect = tc::sdk::rectangle<T>;
template <class T> using size = tc::sdk::size<T>;

namespace
{
template <class T> const char* tname()
{
    if (std::is_same_v<T, int>) return "int";
    if (std::is_same_v<T, unsigned>) return "unsigned";
    if (std::is_same_v<T, long>) return "long";
    if (std::is_same_v<T, long long>) return "long long";
    if (std::is_same_v<T, unsigned long>) return "unsigned long";
    if (std::is_same_v<T, float>) return "float";
    return "double";
}
template <class T> constexpr bool fp = std::is_floating_point_v<T>;
template <class T> constexpr bool uns = std::is_unsigned_v<T>;
template <class V> std::string streamed(const V& v)
{
    std::ostringstream os;
    os << v;
    return os.str();
}
template <class T> std::string num(T v) { return std::to_string(v); }
template <class T> long long ll(T v) { return static_cast<long long>(v); }

// ------------------------------------------------------------------ C28
template <class T> std::vector<T> coords()
{
    std::vector<T> g;
    for (int v : {0, 1, 2, 3, 5, 7, 100, 50000, 46341, 1000003}) g.push_back(static_cast<T>(v));
    if constexpr (!uns<T>)
        for (int v : {-1, -2, -4, -50000}) g.push_back(static_cast<T>(v));
    if constexpr (fp<T>)
        {
        for (double v : {0.5, -0.25, 1.75, -1000.5, 1e-9, -1e-9, 1e12}) g.push_back(static_cast<T>(v));
        g.push_back(std::nextafter(static_cast<T>(1), static_cast<T>(2)));
    }
    if constexpr (!fp<T>) g.push_back(static_cast<T>(1500000000));
    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) g.push_back(static_cast<T>(3000000000ll));
    return g;
}
i128 isqrt(i128 n)
{
    i128 r = static_cast<i128>(std::sqrt(static_cast<double>(n)));
    while (r * r > n) --r;
    while ((r + 1) * (r + 1) <= n) ++r;
    return r;
}
template <class T> bool is_distance(T got, T ax, T ay, T bx, T by)
{
    if constexpr (fp<T>)
    {
        long double dx = static_cast<long double>(ax) - bx, dy = static_cast<long double>(ay) - by, want = std::sqrt(dx * dx + dy * dy);
        return std::fabs(static_cast<long double>(got) - want) <= want * (std::is_same_v<T, float> ? 3e-7L : 1e-15L);
    }
    else
    {
        i128 dx = static_cast<i128>(ax) - bx, dy = static_cast<i128>(ay) - by, want = isqrt(dx * dx + dy * dy);
        i128 slack = want > (i128(1) << 25) ? 1 : 0; // beyond this the root of a double may round up to the next integer
        return static_cast<i128>(got) - want <= slack && want - static_cast<i128>(got) <= slack;
    }
}
template <class T> bool fits(i128 v)
{
    if constexpr (fp<T>) return true;
    else if constexpr (uns<T>) return true; // wraps, as the type does
    else return v >= static_cast<i128>(std::numeric_limits<T>::min()) && v <= static_cast<i128>(std::numeric_limits<T>::max());
}
template <class T> bool add_ok(T a, T b)
{
    if constexpr (fp<T>) return true;
    else return fits<T>(static_cast<i128>(a) + b);
}
template <class T> bool sub_ok(T a, T b)
{
    if constexpr (fp<T>) return true;
    else return fits<T>(static_cast<i128>(a) - b);
}
template <class T> void is(Ctx& C, const point<T>& p, T x, T y, const char* what)
{
    CHECK(C, p.x() == x && p.y() == y, "%s is %s instead of (%s, %s)", what, p.to_string().c_str(), num(x).c_str(), num(y).c_str());
}
template <class T, class S> void scaled(Ctx& C, T x, T y, S k)
{
    point<T> p(x, y);
    auto ok = [](auto v) { return fp<T> || (static_cast<long double>(v) < static_cast<long double>(std::numeric_limits<T>::max()) && static_cast<long double>(v) > static_cast<long double>(std::numeric_limits<T>::lowest()) && (!uns<T> || static_cast<long double>(v) > -1)); };
    if (ok(static_cast<long double>(x) * k) && ok(static_cast<long double>(y) * k))
    {
        T wx = static_cast<T>(x * k), wy = static_cast<T>(y * k);
        is(C, p * k, wx, wy, "point * scalar");
        point<T> q(x, y);
        point<T>& r = (q *= k);
        is(C, q, wx, wy, "point *= scalar");
        CHECK(C, &r == &q, "*= does not return the point");
    }
    if (k != 0)
    {
        T wx = static_cast<T>(x / k), wy = static_cast<T>(y / k);
        is(C, p / k, wx, wy, "point / scalar");
        point<T> q(x, y);
        point<T>& r = (q /= k);
        is(C, q, wx, wy, "point /= scalar");
        CHECK(C, &r == &q, "/= does not return the point");
    }
    is(C, p, x, y, "the operand after scaling");
}
template <class T> void points(Ctx& C)
{
    std::vector<T> g = coords<T>();
    is(C, point<T>(), T(), T(), "a default point");
    for (T ax : g) for (T ay : g)
    {
        if (!C.mine()) continue;
        C.at_text(std::string(tname<T>()) + " (" + num(ax) + ", " + num(ay) + ")");
        C.state();
        C.exec();
        point<T> a(ax, ay);
        is(C, a, ax, ay, "the point");
        CHECK(C, a.is_origin() == (ax == T() && ay == T()), "is_origin is wrong");
        CHECK(C, is_distance<T>(a.distance_from_origin(), ax, ay, T(), T()), "its distance from the origin is %s", num(a.distance_from_origin()).c_str());
        std::string text = "(" + num(ax) + ", " + num(ay) + ")";
        CHECK(C, a.to_string() == text && streamed(a) == text, "it prints as %s", a.to_string().c_str());
        for (int k : {1, 2, 3, 10}) scaled(C, ax, ay, static_cast<T>(k));
        if constexpr (!uns<T>)
            for (int k : {-1, -3}) scaled(C, ax, ay, static_cast<T>(k));
        for (double k : {0.5, 1.0, 2.5, 0.25, 8.0}) scaled(C, ax, ay, k);
        for (float k : {0.5f, 2.0f}) scaled(C, ax, ay, k);
        if constexpr (!uns<T>)
            for (double k : {-0.5, -1.5}) scaled(C, ax, ay, k);
        size<T> s(ax, ay);
        CHECK(C, s.width() == ax && s.height() == ay, "a size has other dimensions");
        CHECK(C, s.is_null() == (ax == T() && ay == T()), "size::is_null is wrong");
        std::string st = "(" + num(ax) + "x" + num(ay) + ")";
        CHECK(C, s.to_string() == st && streamed(s) == st, "a size prints as %s", s.to_string().c_str());
        for (T bx : g) for (T by : g)
        {
            point<T> b(bx, by);
            bool same = ax == bx && ay == by;
            CHECK(C, (a == b) == same && (a != b) == !same, "compares wrongly to %s", b.to_string().c_str());
            CHECK(C, is_distance<T>(a.distance(b), ax, ay, bx, by), "the distance to %s is %s", b.to_string().c_str(), num(a.distance(b)).c_str());
            CHECK(C, a.distance(b) == b.distance(a), "the distance to %s is not symmetric", b.to_string().c_str());
            if (add_ok(ax, bx) && add_ok(ay, by))
            {
                T x = static_cast<T>(ax + bx), y = static_cast<T>(ay + by);
                is(C, a + b, x, y, "the sum");
                point<T> c(ax, ay), d(ax, ay);
                point<T>& r = (c += b);
                is(C, c, x, y, "+=");
                CHECK(C, &r == &c, "+= does not return the point");
                d.add_delta(bx, by);
                is(C, d, x, y, "add_delta");
            }
            if (sub_ok(ax, bx) && sub_ok(ay, by))
            {
                T x = static_cast<T>(ax - bx), y = static_cast<T>(ay - by);
                is(C, a - b, x, y, "the difference");
                point<T> c(ax, ay), d(ax, ay);
                point<T>& r = (c -= b);
                is(C, c, x, y, "-=");
                CHECK(C, &r == &c, "-= does not return the point");
                d.sub_delta(bx, by);
                is(C, d, x, y, "sub_delta");
            }
            point<T> e(a);
            e = b;
            CHECK(C, e == b && a.x() == ax && a.y() == ay, "assignment is wrong");
            size<T> t(bx, by);
            CHECK(C, (s == t) == same && (s != t) == !same, "sizes compare wrongly");
            size<T> u(s);
            u.set_width(bx);
            CHECK(C, u.width() == bx && u.height() == ay, "set_width is wrong");
            u.set_height(by);
            CHECK(C, u == t && u.height() == by, "set_height is wrong");
        }
        // itself as the operand
        if (add_ok(ax, ax) && add_ok(ay, ay)) { point<T> c(ax, ay); c += c; is(C, c, static_cast<T>(ax + ax), static_cast<T>(ay + ay), "p += p"); }
        { point<T> c(ax, ay); c -= c; is(C, c, T(), T(), "p -= p"); }
        C.outcome(text);
    }
    C.sample(std::string(tname<T>()) + ": all pairs of " + std::to_string(g.size() * g.size()) + " points");
}
// all sequences of mutations
template <class T> struct Walk
{
    Ctx& C;
    int depth;
    void go(point<T> p, i64 x, i64 y, int d)
    {
        C.state();
        is(C, p, static_cast<T>(x), static_cast<T>(y), "the point after the operations");
        C.outcome(static_cast<uint64_t>(x * 1000003 + y));
        if (d == depth) { C.exec(); return; }
        auto sub = [&](auto f, i64 nx, i64 ny) { point<T> q(p); f(q); C.step(); go(q, nx, ny, d + 1); };
        sub([](point<T>& q) { q.set_x(static_cast<T>(3)); }, 3, y);
        sub([](point<T>& q) { q.set_y(static_cast<T>(5)); }, x, 5);
        sub([](point<T>& q) { q.add_delta(static_cast<T>(1), static_cast<T>(2)); }, x + 1, y + 2);
        sub([](point<T>& q) { q += point<T>(static_cast<T>(4), static_cast<T>(0)); }, x + 4, y);
        sub([](point<T>& q) { q *= 2; }, x * 2, y * 2);
        if (!uns<T> || (x >= 1 && y >= 1)) sub([](point<T>& q) { q.sub_delta(static_cast<T>(1), static_cast<T>(1)); }, x - 1, y - 1);
        if (!uns<T> || (x >= 2 && y >= 3)) sub([](point<T>& q) { q -= point<T>(static_cast<T>(2), static_cast<T>(3)); }, x - 2, y - 3);
        if (!fp<T> || (x % 2 == 0 && y % 2 == 0)) sub([](point<T>& q) { q /= 2; }, x / 2, y / 2);
        if (!uns<T>) sub([](point<T>& q) { q *= -1; }, -x, -y);
    }
};
template <class T> void walks(Ctx& C)
{
    for (int x : {0, 1, 6})
        for (int y : {0, 4})
        {
            if (!C.mine()) continue;
            C.at("walk from (%lld, %lld)", x, y);
            Walk<T>{C, C.thorough ? 8 : 6}.go(point<T>(static_cast<T>(x), static_cast<T>(y)), x, y, 0);
        }
    C.sample(std::string(tname<T>()) + ": all sequences of 9 mutations");
}

// ------------------------------------------------------------------ C29
struct Seg { i64 ax, ay, bx, by; };
struct Hit { bool parallel, hit; i128 n, d; }; // the point is a + n/d (b - a)
Hit meet(const Seg& s, const Seg& o)
{
    i128 rx = s.bx - s.ax, ry = s.by - s.ay, qx = o.bx - o.ax, qy = o.by - o.ay, d = rx * qy - ry * qx;
    if (d == 0) return {true, false, 0, 1};
    i128 wx = o.ax - s.ax, wy = o.ay - s.ay, t = wx * qy - wy * qx, u = wx * ry - wy * rx;
    if (d < 0) { d = -d; t = -t; u = -u; }
    return {false, t >= 0 && t <= d && u >= 0 && u <= d, t, d};
}
template <class T> void segs(Ctx& C, const std::vector<Seg>& all, i64 extent, double unit);
template <class T> void segs(Ctx& C, int n, i64 mul, i64 off, double unit)
{
    // coordinates (off + mul * k) * unit for k < n
    std::vector<Seg> all;
    for (i64 a = 0; a < n; ++a) for (i64 b = 0; b < n; ++b) for (i64 c = 0; c < n; ++c) for (i64 d = 0; d < n; ++d) all.push_back({off + mul * a, off + mul * b, off + mul * c, off + mul * d});
    segs<T>(C, all, std::abs(off) + mul * n, unit);
}
// segments that miss or reach each other by very little: horizontal and vertical ones (every product of differences is exact or
// nearly so) and, between round coordinates only, diagonal ones
template <class T> void close_segs(Ctx& C, i64 one, double unit)
{
    std::vector<i64> g{0, 1, one - 1, one, one + 1, 2 * one}, round{0, one, 2 * one};
    if (!uns<T>) g.push_back(-1);
    std::vector<Seg> all;
    for (i64 a : g) for (i64 b : g) for (i64 c : g)
    {
        all.push_back({a, b, c, b});
        if (a != c) all.push_back({b, a, b, c});
    }
    for (i64 a : round) for (i64 b : round) for (i64 c : round) for (i64 d : round)
        if (a != c && b != d && std::abs(a - c) == std::abs(b - d)) all.push_back({a, b, c, d});
    segs<T>(C, all, 2 * one, unit);
}
template <class T> void segs(Ctx& C, const std::vector<Seg>& all, i64 extent, double unit)
{
    auto P = [&](i64 x, i64 y) { return point<T>(static_cast<T>(static_cast<double>(x) * unit), static_cast<T>(static_cast<double>(y) * unit)); };
    for (auto& s : all)
    {
        if (!C.mine()) continue;
        line<T> l(P(s.ax, s.ay), P(s.bx, s.by));
        C.at("segment (%lld, %lld) (%lld, %lld)", s.ax, s.ay, s.bx, s.by);
        CHECK(C, l.start() == P(s.ax, s.ay) && l.end() == P(s.bx, s.by), "its end points are %s", l.to_string().c_str());
        CHECK(C, l.is_null() == (s.ax == s.bx && s.ay == s.by) && l.is_vertical() == (s.ax == s.bx) && l.is_horizontal() == (s.ay == s.by), "is_null, is_vertical or is_horizontal is wrong");
        std::string text = "(" + P(s.ax, s.ay).to_string() + " : " + P(s.bx, s.by).to_string() + ")";
        CHECK(C, l.to_string() == text && streamed(l) == text, "it prints as %s", l.to_string().c_str());
        { line<T> m; m.set_end(P(s.bx, s.by)); m.set_start(P(s.ax, s.ay)); CHECK(C, m == l && m.start() == l.start() && m.end() == l.end(), "built with set_start and set_end it is %s", m.to_string().c_str()); line<T> k(P(s.bx, s.by), P(s.ax, s.ay)); CHECK(C, k == l && !(k != l), "reversed it is not equal"); k = l; CHECK(C, k.start() == l.start() && k.end() == l.end(), "assigned it is another line"); }
        for (auto& o : all)
        {
            C.at("%lld, %lld, %lld, %lld and %lld, %lld, %lld, %lld", s.ax, s.ay, s.bx, s.by, o.ax, o.ay, o.bx, o.by);
            C.state();
            C.exec();
            line<T> m(P(o.ax, o.ay), P(o.bx, o.by));
            bool same = (s.ax == o.ax && s.ay == o.ay && s.bx == o.bx && s.by == o.by) || (s.ax == o.bx && s.ay == o.by && s.bx == o.ax && s.by == o.ay);
            CHECK(C, (l == m) == same && (l != m) == !same, "wrong comparison");
            Hit h = meet(s, o);
            auto p = l.get_intersection(m);
            CHECK(C, p.has_value() == h.hit, "get_intersection reports %s point", p ? "a" : "no");
            CHECK(C, l.intersects(m) == h.hit, "intersects is %d", l.intersects(m));
            C.outcome(static_cast<uint64_t>(h.parallel * 2 + h.hit));
            if (!p) continue;
            double x = (static_cast<double>(s.ax) + static_cast<double>(h.n) / static_cast<double>(h.d) * static_cast<double>(s.bx - s.ax)) * unit;
            double y = (static_cast<double>(s.ay) + static_cast<double>(h.n) / static_cast<double>(h.d) * static_cast<double>(s.by - s.ay)) * unit;
            double tol = 1e-9 * (1 + static_cast<double>(extent)) * unit;
            CHECK(C, std::fabs(p->x() - x) <= tol && std::fabs(p->y() - y) <= tol, "the intersection is %s instead of (%g, %g)", p->to_string().c_str(), x, y);
            auto q = m.get_intersection(l);
            CHECK(C, q && std::fabs(q->x() - x) <= tol && std::fabs(q->y() - y) <= tol, "with the segments swapped the intersection differs");
        }
    }
    C.sample(std::string(tname<T>()) + ": all pairs of " + std::to_string(all.size()) + " segments");
}

// Ranges and rectangles are checked on the integer grid times a unit plus a base: 1 and 0, small and large units, and small
// units far from zero. V is a length, B a position.
double U = 1, BASE = 0;
struct Unit
{
    explicit Unit(double u, double base = 0) { U = u; BASE = base; }
    ~Unit() { U = 1; BASE = 0; }
};
template <class T, class N> T V(N v)
{
    if constexpr (fp<T>) return static_cast<T>(static_cast<double>(v) * U);
    else return static_cast<T>(v) * static_cast<T>(U);
}
template <class T, class N> T B(N v)
{
    if constexpr (fp<T>) return static_cast<T>(static_cast<double>(v) * U + BASE);
    else return static_cast<T>(V<T>(v) + static_cast<T>(BASE));
}
// ------------------------------------------------------------------ C30
template <class T> bool is(const range<T>& r, i64 a, i64 b) { return r.min() == B<T>(a) && r.max() == B<T>(b); }
template <class T> struct RangeWalk
{
    Ctx& C;
    i64 lo, hi;
    int depth;
    void go(range<T> r, i64 a, i64 b, int d)
    {
        C.state();
        CHECK(C, is(r, a, b), "after the setters it is %s instead of (%lld:%lld)", r.to_string().c_str(), ll(a), ll(b));
        CHECK(C, r.lenght() == V<T>(b - a) && r.is_null() == (a == b), "its length or is_null is wrong");
        C.outcome(static_cast<uint64_t>(a * 64 + b));
        if (d == depth) { C.exec(); return; }
        for (i64 v = lo; v <= hi; ++v)
        {
            range<T> p(r), q(r);
            p.set_min(B<T>(v));
            C.step();
            go(p, v, std::max(v, b), d + 1);
            q.set_max(B<T>(v));
            C.step();
            go(q, std::min(v, a), v, d + 1);
        }
    }
};
template <class T> void ranges(Ctx& C)
{
    const i64 lo = uns<T> ? 0 : -3, hi = lo + (C.thorough ? 13 : 9);
    CHECK(C, range<T>().min() == T() && range<T>().max() == T() && range<T>().is_null(), "a default range is not empty");
    for (i64 a = lo; a <= hi; ++a) for (i64 b = a; b <= hi; ++b)
    {
        if (!C.mine()) continue;
        C.at("range %lld %lld", a, b);
        C.state();
        C.exec();
        range<T> r(B<T>(a), B<T>(b));
        CHECK(C, is(r, a, b) && r.lenght() == V<T>(b - a) && r.is_null() == (a == b), "its bounds are %s", r.to_string().c_str());
        std::string text = "(" + num(B<T>(a)) + ":" + num(B<T>(b)) + ")";
        CHECK(C, r.to_string() == text && streamed(r) == text, "it prints as %s", r.to_string().c_str());
        for (i64 v = uns<T> ? 0 : lo - 2; v <= hi + 2; ++v)
        {
            CHECK(C, r.contains(B<T>(v)) == (a <= v && v < b), "contains(%lld) is wrong", ll(v));
            CHECK(C, r.clamp(B<T>(v)) == B<T>(std::clamp(v, a, b)), "clamp(%lld) is %s", ll(v), num(r.clamp(B<T>(v))).c_str());
        }
        if constexpr (fp<T>)
            for (double h : {0.5, -0.5})
                for (i64 v = lo - 1; v <= hi + 1; ++v)
                {
                    double w = static_cast<double>(v) + h, da = static_cast<double>(a), db = static_cast<double>(b);
                    CHECK(C, r.contains(B<T>(w)) == (da <= w && w < db) && r.clamp(B<T>(w)) == B<T>(std::clamp(w, da, db)), "contains or clamp of %g is wrong", w);
                }
        for (double f : {0.0, 0.25, 0.5, 0.75, 1.0})
        {
            double want = static_cast<double>(a) + f * static_cast<double>(b - a);
            CHECK(C, std::fabs(r.map(f) - (want * U + BASE)) <= 1e-9 * (U + std::fabs(BASE) * 1e-6), "map(%g) is %g instead of %g", f, r.map(f), want * U + BASE);
        }
        for (i64 c = lo; c <= hi; ++c) for (i64 d = c; d <= hi; ++d)
        {
            C.at("ranges %lld %lld and %lld %lld", a, b, c, d);
            range<T> o(B<T>(c), B<T>(d));
            CHECK(C, (r == o) == (a == c && b == d) && (r != o) == !(a == c && b == d), "wrong comparison");
            CHECK(C, r.contains(o) == (a <= c && d <= b), "contains is wrong");
            bool x = c < b && a < d;
            CHECK(C, r.intersects(o) == x && o.intersects(r) == x, "intersects is %d and %d", r.intersects(o), o.intersects(r));
            range<T> i = r.get_intersection(o), u = r.get_union(o);
            CHECK(C, x ? is(i, std::max(a, c), std::min(b, d)) : (i.min() == T() && i.max() == T()), "the intersection is %s", i.to_string().c_str());
            CHECK(C, is(u, std::min(a, c), std::max(b, d)), "the union is %s", u.to_string().c_str());
            if (x)
                for (i64 v = lo; v <= hi; ++v) CHECK(C, i.contains(B<T>(v)) == (r.contains(B<T>(v)) && o.contains(B<T>(v))), "the intersection and the ranges disagree on %lld", ll(v));
            range<T> k;
            k = o;
            CHECK(C, k == o, "an assigned range differs");
        }
        RangeWalk<T>{C, lo, uns<T> ? 4 : 1, C.thorough ? 5 : 4}.go(r, a, b, 0);
    }
    C.sample(std::string(tname<T>()) + ": all pairs of ranges, all setter sequences");
}

// ------------------------------------------------------------------ C31
struct R { i64 x, y, w, h; };
template <class T> rect<T> make(const R& r) { return rect<T>(B<T>(r.x), B<T>(r.y), V<T>(r.w), V<T>(r.h)); }
template <class T> bool is(const rect<T>& q, const R& r) { return q.top_left().x() == B<T>(r.x) && q.top_left().y() == B<T>(r.y) && q.width() == V<T>(r.w) && q.height() == V<T>(r.h); }
template <class T> void one_rect(Ctx& C, const rect<T>& q, const R& r)
{
    CHECK(C, is(q, r), "it is %s instead of %lld, %lld, %lld, %lld", q.to_string().c_str(), ll(r.x), ll(r.y), ll(r.w), ll(r.h));
    auto at = [](const point<T>& p, i64 x, i64 y) { return p.x() == B<T>(x) && p.y() == B<T>(y); };
    CHECK(C, at(q.top_left(), r.x, r.y) && at(q.top_right(), r.x + r.w, r.y) && at(q.bottom_left(), r.x, r.y + r.h) && at(q.bottom_right(), r.x + r.w, r.y + r.h), "its corners are wrong");
    CHECK(C, q.size() == size<T>(V<T>(r.w), V<T>(r.h)) && q.area() == V<T>(r.w * r.h) * static_cast<T>(U), "its size or area is wrong");
    auto near = [](double got, double want) { return std::fabs(got - want) <= std::fabs(BASE) * 1e-15; }; // exact unless far from zero
    CHECK(C, near(q.center().x(), (static_cast<double>(r.x) + static_cast<double>(r.w) * 0.5) * U + BASE) && near(q.center().y(), (static_cast<double>(r.y) + static_cast<double>(r.h) * 0.5) * U + BASE), "its center is %s", q.center().to_string().c_str());
    CHECK(C, q.is_null() == (r.w <= 0 && r.h <= 0), "is_null is %d", q.is_null());
}
template <class T> struct RectWalk
{
    Ctx& C;
    int depth;
    void go(rect<T> q, R r, int d)
    {
        C.state();
        one_rect(C, q, r);
        C.outcome(static_cast<uint64_t>(((r.x * 64 + r.y) * 64 + r.w) * 64 + r.h));
        if (d == depth) { C.exec(); return; }
        auto sub = [&](auto f, R n) { rect<T> p(q); f(p); C.step(); go(p, n, d + 1); };
        sub([](rect<T>& p) { p.translate(V<T>(1), V<T>(2)); }, {r.x + 1, r.y + 2, r.w, r.h});
        sub([](rect<T>& p) { p.set_width(V<T>(3)); }, {r.x, r.y, 3, r.h});
        sub([](rect<T>& p) { p.set_height(V<T>(0)); }, {r.x, r.y, r.w, 0});
        sub([](rect<T>& p) { p.set_size(V<T>(0), V<T>(4)); }, {r.x, r.y, 0, 4});
        sub([](rect<T>& p) { p.set_position(point<T>(B<T>(7), B<T>(1))); }, {7, 1, r.w, r.h});
        sub([](rect<T>& p) { p = p.translated(V<T>(2), V<T>(0)); }, {r.x + 2, r.y, r.w, r.h});
        if (!uns<T>)
        {
            sub([](rect<T>& p) { p.translate(V<T>(-3), V<T>(-1)); }, {r.x - 3, r.y - 1, r.w, r.h});
            sub([](rect<T>& p) { p.set_size(V<T>(-1), V<T>(0)); }, {r.x, r.y, -1, 0});
        }
    }
};
template <class T> void rects(Ctx& C, int n, int smax)
{
    const i64 lo = uns<T> ? 0 : -2;
    std::vector<R> all, nulls;
    for (i64 x = lo; x < lo + n; ++x) for (i64 y = lo; y < lo + n; ++y) for (i64 w = 1; w <= smax; ++w) for (i64 h = 1; h <= smax; ++h) all.push_back({x, y, w, h});
    for (i64 x : {lo, lo + 2}) for (i64 w : {0, -1}) for (i64 h : {0, -2})
        if (!uns<T> || (w == 0 && h == 0)) nulls.push_back({x, x + 1, w, h});
    CHECK(C, rect<T>().top_left() == point<T>() && rect<T>().size() == size<T>() && rect<T>().is_null(), "a default rectangle is not empty");
    for (auto& a : all)
    {
        if (!C.mine()) continue;
        C.at("rectangle %lld %lld %lld %lld", a.x, a.y, a.w, a.h);
        rect<T> r = make<T>(a);
        one_rect(C, r, a);
        CHECK(C, r == rect<T>(point<T>(B<T>(a.x), B<T>(a.y)), V<T>(a.w), V<T>(a.h)), "built from a position it is another rectangle");
        std::string text = "(" + num(B<T>(a.x)) + ", " + num(B<T>(a.y)) + ") : (" + num(V<T>(a.w)) + "x" + num(V<T>(a.h)) + ")";
        CHECK(C, r.to_string() == text && streamed(r) == text, "it prints as %s", r.to_string().c_str());
        for (i64 x = uns<T> ? 0 : lo - 1; x <= lo + n + smax; ++x) for (i64 y = uns<T> ? 0 : lo - 1; y <= lo + n + smax; ++y)
            CHECK(C, r.contains(point<T>(B<T>(x), B<T>(y))) == (x > a.x && x < a.x + a.w && y > a.y && y < a.y + a.h), "contains(point %lld, %lld) is wrong", ll(x), ll(y));
        if constexpr (fp<T>)
            for (i64 x = 2 * lo - 2; x <= 2 * (lo + n + smax); ++x) for (i64 y = 2 * lo - 2; y <= 2 * (lo + n + smax); ++y)
                CHECK(C, r.contains(point<T>(B<T>(static_cast<double>(x) / 2), B<T>(static_cast<double>(y) / 2))) == (x > 2 * a.x && x < 2 * (a.x + a.w) && y > 2 * a.y && y < 2 * (a.y + a.h)), "contains(point %lld/2, %lld/2) is wrong", ll(x), ll(y));
        for (auto& b : all)
        {
            C.at("rectangles %lld %lld %lld %lld and %lld %lld %lld %lld", a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h);
            C.state();
            C.exec();
            rect<T> o = make<T>(b);
            bool same = a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
            CHECK(C, (r == o) == same && (r != o) == !same, "wrong comparison");
            i64 x0 = std::max(a.x, b.x), y0 = std::max(a.y, b.y), x1 = std::min(a.x + a.w, b.x + b.w), y1 = std::min(a.y + a.h, b.y + b.h);
            // the unit cells of both
            i64 cells = 0, ca = 0, cb = 0;
            for (i64 x = lo; x < lo + n + smax; ++x) for (i64 y = lo; y < lo + n + smax; ++y)
            {
                bool ia = x >= a.x && x < a.x + a.w && y >= a.y && y < a.y + a.h, ib = x >= b.x && x < b.x + b.w && y >= b.y && y < b.y + b.h;
                cells += ia && ib;
                ca += ia;
                cb += ib;
            }
            CHECK(C, r.intersects(o) == (cells > 0), "intersects is %d", r.intersects(o));
            rect<T> i = r.get_intersection(o);
            if (cells) CHECK(C, is(i, R{x0, y0, x1 - x0, y1 - y0}) && i.area() == V<T>(cells) * static_cast<T>(U), "the intersection is %s", i.to_string().c_str());
            else CHECK(C, i.area() == T(), "the intersection is %s although they have no area in common", i.to_string().c_str());
            CHECK(C, i == o.get_intersection(r), "the intersection is not symmetric");
            i64 ux0 = std::min(a.x, b.x), uy0 = std::min(a.y, b.y), ux1 = std::max(a.x + a.w, b.x + b.w), uy1 = std::max(a.y + a.h, b.y + b.h);
            rect<T> u = r.get_union(o);
            CHECK(C, is(u, R{ux0, uy0, ux1 - ux0, uy1 - uy0}), "the union is %s", u.to_string().c_str());
            CHECK(C, r.contains(o) == (b.x > a.x && b.y > a.y && b.x + b.w < a.x + a.w && b.y + b.h < a.y + a.h), "contains is %d", r.contains(o));
            CHECK(C, ca == a.w * a.h && cb == b.w * b.h, "internal");
            rect<T> k;
            k = o;
            CHECK(C, k == o, "an assigned rectangle differs");
            C.outcome(static_cast<uint64_t>((cells * 64 + (ux1 - ux0)) * 64 + (uy1 - uy0)));
        }
        for (auto& z : nulls)
        {
            C.at("rectangle %lld %lld %lld %lld and null %lld %lld %lld %lld", a.x, a.y, a.w, a.h, z.x, z.y, z.w, z.h);
            C.state();
            C.exec();
            rect<T> o = make<T>(z);
            CHECK(C, o.is_null(), "it is not null");
            CHECK(C, !r.intersects(o) && !o.intersects(r), "it intersects a null rectangle");
            CHECK(C, r.get_union(o) == r && o.get_union(r) == r, "the union with a null rectangle is another one");
            CHECK(C, r.get_intersection(o).area() == T() && o.get_intersection(r).area() == T(), "the intersection with a null rectangle is not empty");
        }
    }
    C.sample(std::string(tname<T>()) + ": all pairs of " + std::to_string(all.size()) + " rectangles");
}
template <class T> void rect_walks(Ctx& C)
{
    for (auto& a : {R{0, 0, 1, 1}, R{5, 3, 2, 4}, R{4, 4, 0, 0}})
    {
        if (!C.mine()) continue;
        C.at("changes of %lld %lld %lld %lld", a.x, a.y, a.w, a.h);
        RectWalk<T>{C, C.thorough ? 8 : 6}.go(make<T>(a), a, 0);
    }
    C.sample(std::string(tname<T>()) + ": all sequences of 8 changes");
}
template <class T> void rect_lines(Ctx& C, int n)
{
    // every segment of an n x n grid and every rectangle with positive sizes inside it
    const i64 lo = uns<T> ? 0 : -1;
    auto P = [](i64 x, i64 y) { return point<T>(B<T>(x), B<T>(y)); };
    for (i64 x = lo; x < lo + n - 1; ++x) for (i64 y = lo; y < lo + n - 1; ++y) for (i64 w = 1; x + w < lo + n; ++w) for (i64 h = 1; y + h < lo + n; ++h)
    {
        if (!C.mine()) continue;
        R a{x, y, w, h};
        rect<T> r = make<T>(a);
        const Seg edges[4] = {{x, y, x + w, y}, {x + w, y, x + w, y + h}, {x + w, y + h, x, y + h}, {x, y + h, x, y}};
        for (i64 p = lo; p < lo + n; ++p) for (i64 q = lo; q < lo + n; ++q) for (i64 s = lo; s < lo + n; ++s) for (i64 t = lo; t < lo + n; ++t)
        {
            C.at("rectangle %lld %lld %lld %lld and segment %lld %lld %lld %lld", x, y, w, h, p, q, s, t);
            C.state();
            C.exec();
            auto inside = [&](i64 u, i64 v) { return u > x && u < x + w && v > y && v < y + h; };
            bool want = inside(p, q) || inside(s, t);
            for (auto& e : edges) want = want || meet({p, q, s, t}, e).hit;
            CHECK(C, r.intersects(line<T>(P(p, q), P(s, t))) == want, "intersects is %d", !want);
            CHECK(C, r.intersects(line<T>(P(s, t), P(p, q))) == want, "reversed, intersects is %d", !want);
            C.outcome(static_cast<uint64_t>(want));
        }
    }
    C.sample(std::string(tname<T>()) + ": all segments and rectangles of a grid");
}

// ------------------------------------------------------------------ C35
template <class T> void minmax(Ctx& C)
{
    std::vector<T> g;
    for (int v : {0, 1, 2, 3, 4, 100}) g.push_back(static_cast<T>(v));
    if constexpr (!uns<T>) { g.push_back(static_cast<T>(-1)); g.push_back(static_cast<T>(-100)); }
    if constexpr (fp<T>) { g.push_back(std::nextafter(static_cast<T>(1), static_cast<T>(2))); g.push_back(static_cast<T>(1e-12)); g.push_back(static_cast<T>(0.5)); g.push_back(static_cast<T>(-0.25)); g.push_back(std::numeric_limits<T>::infinity()); g.push_back(-std::numeric_limits<T>::infinity()); }
    g.push_back(std::numeric_limits<T>::max());
    g.push_back(std::numeric_limits<T>::lowest());
    auto show = [](std::initializer_list<T> l) { std::string s = tname<T>(); for (T v : l) s += " " + num(v); return s; };
    for (T a : g) for (T b : g)
    {
        if (!C.mine()) continue;
        C.at_text(show({a, b}));
        C.state();
        C.exec();
        CHECK(C, tc::sdk::min(a, b) == std::min(a, b) && tc::sdk::max(a, b) == std::max(a, b), "min or max of two is wrong");
        for (T c : g)
        {
            C.state();
            C.exec();
            T lo = std::min({a, b, c}), hi = std::max({a, b, c});
            CHECK(C, tc::sdk::min(a, b, c) == lo && tc::sdk::max(a, b, c) == hi, "min or max of three (with %s) is wrong", num(c).c_str());
            for (T d : g)
            {
                C.state();
                C.exec();
                CHECK(C, tc::sdk::min(a, b, c, d) == std::min(lo, d) && tc::sdk::max(a, b, c, d) == std::max(hi, d), "min or max of four (with %s, %s) is wrong", num(c).c_str(), num(d).c_str());
            }
        }
        C.outcome(show({a, b}));
    }
    C.sample(show({}) + ": all tuples of two to four values");
}

seq::Reg a1("C28/int", 2, points<int>, "all pairs of points over 15 coordinates, 14 scalars");
seq::Reg a2("C28/unsigned", 2, points<unsigned>, "all pairs of points over 11 coordinates, 11 scalars");
seq::Reg a3("C28/long", 2, points<long>, "all pairs of points over 16 coordinates, 14 scalars");
seq::Reg a4("C28/float", 2, points<float>, "all pairs of points over 22 coordinates, 14 scalars");
seq::Reg a5("C28/double", 2, points<double>, "all pairs of points over 22 coordinates, 14 scalars");
seq::Reg a6("C28/long-long", 2, points<long long>, "all pairs of points over 16 coordinates, 14 scalars");
seq::Reg a7("C28/walk-int", 6, walks<int>, "all sequences of 6 (thorough: 8) of 9 mutations from 6 points");
seq::Reg a8("C28/walk-unsigned", 6, walks<unsigned>, "the same, without results below zero");
seq::Reg a9("C28/walk-double", 6, walks<double>, "the same with halves left out");
seq::Reg b1("C29/int", 8, [](Ctx& C) { segs<int>(C, C.thorough ? 8 : 7, 1, -3, 1); }, "all pairs of segments of a 7x7 grid (thorough: 8x8)");
seq::Reg b2("C29/double", 8, [](Ctx& C) { segs<double>(C, C.thorough ? 8 : 7, 1, -3, 0.25); }, "the same on quarters");
seq::Reg b3("C29/float", 4, [](Ctx& C) { segs<float>(C, C.thorough ? 7 : 6, 3, -4, 0.5); }, "all pairs of segments of a 6x6 grid (thorough: 7x7) of halves");
seq::Reg b4("C29/long", 4, [](Ctx& C) { segs<long>(C, C.thorough ? 7 : 6, 1000003, -2000001, 1); }, "all pairs of segments of a 6x6 grid (thorough: 7x7) with large coordinates");
seq::Reg b5("C29/unsigned", 4, [](Ctx& C) { segs<unsigned>(C, C.thorough ? 7 : 6, 1, 0, 1); }, "all pairs of segments of a 6x6 grid (thorough: 7x7)");
seq::Reg b13("C29/close-double", 8, [](Ctx& C) { close_segs<double>(C, i64(1) << 40, 0x1p-40); }, "axis-parallel segments that miss each other by 2^-40 of their length, with diagonals of a 3x3 grid");
seq::Reg b14("C29/close-long", 8, [](Ctx& C) { close_segs<long>(C, i64(1) << 40, 1); }, "the same with integers around 2^40");
seq::Reg b15("C29/close-float", 8, [](Ctx& C) { close_segs<float>(C, i64(1) << 20, 0x1p-10); }, "the same with 2^-20");
seq::Reg b16("C29/close-int", 8, [](Ctx& C) { close_segs<int>(C, i64(1) << 29, 1); }, "the same with integers around 2^29");
seq::Reg b17("C29/close-unsigned", 8, [](Ctx& C) { close_segs<unsigned>(C, i64(1) << 30, 1); }, "the same with integers around 2^30");
seq::Reg c1("C30/int", 4, ranges<int>, "all pairs of well-formed ranges over 10 (thorough: 14) bounds, all sequences of 4 (5) setters");
seq::Reg c2("C30/unsigned", 4, ranges<unsigned>, "the same");
seq::Reg c3("C30/long", 4, ranges<long>, "the same");
seq::Reg c4("C30/float", 4, ranges<float>, "the same");
seq::Reg c5("C30/double", 4, ranges<double>, "the same");
seq::Reg d1("C31/int", 8, [](Ctx& C) { rects<int>(C, C.thorough ? 7 : 6, C.thorough ? 5 : 4); }, "all pairs of rectangles at 6x6 positions with sizes 1..4 (thorough: 7x7, 1..5), 8 null rectangles");
seq::Reg d2("C31/double", 8, [](Ctx& C) { rects<double>(C, C.thorough ? 7 : 6, C.thorough ? 5 : 4); }, "the same");
seq::Reg d3("C31/unsigned", 4, [](Ctx& C) { rects<unsigned>(C, 4, 3); }, "4x4 positions, sizes 1..3");
seq::Reg d4("C31/float", 4, [](Ctx& C) { rects<float>(C, 4, 3); }, "4x4 positions, sizes 1..3");
seq::Reg d5("C31/walk-int", 3, rect_walks<int>, "all sequences of 6 (thorough: 8) of 8 changes from 3 rectangles");
seq::Reg d6("C31/walk-double", 3, rect_walks<double>, "the same");
seq::Reg d7("C31/walk-unsigned", 3, rect_walks<unsigned>, "the same, 6 changes");
seq::Reg d8("C31/lines-int", 8, [](Ctx& C) { rect_lines<int>(C, C.thorough ? 9 : 8); }, "all rectangles and all segments of a 8x8 grid (thorough: 9x9)");
seq::Reg d9("C31/lines-double", 8, [](Ctx& C) { rect_lines<double>(C, C.thorough ? 9 : 8); }, "the same");
seq::Reg b6("C29/double-tiny", 8, [](Ctx& C) { segs<double>(C, C.thorough ? 7 : 6, 1, -2, 0x1p-60); }, "6x6 grid (thorough: 7x7) with spacing 2^-60");
seq::Reg b7("C29/double-huge", 8, [](Ctx& C) { segs<double>(C, C.thorough ? 7 : 6, 1, -2, 0x1p60); }, "6x6 grid (thorough: 7x7) with spacing 2^60");
seq::Reg b8("C29/float-tiny", 4, [](Ctx& C) { segs<float>(C, 5, 1, -1, 0x1p-40); }, "5x5 grid with spacing 2^-40");
seq::Reg b9("C29/float-huge", 4, [](Ctx& C) { segs<float>(C, 5, 1, -2, 0x1p40); }, "5x5 grid with spacing 2^40");
seq::Reg b10("C29/int-huge", 8, [](Ctx& C) { segs<int>(C, C.thorough ? 7 : 6, 500000000, -1000000000, 1); }, "6x6 grid (thorough: 7x7) with spacing 500000000");
seq::Reg b11("C29/long-long", 4, [](Ctx& C) { segs<long long>(C, 5, 1ll << 40, -(1ll << 41), 1); }, "5x5 grid with spacing 2^40");
seq::Reg b12("C29/near", 8, [](Ctx& C) { segs<double>(C, C.thorough ? 6 : 5, 1, 1 << 24, 1); }, "5x5 grid (thorough: 6x6) next to (2^24, 2^24)");
seq::Reg c6("C30/double-tiny", 4, [](Ctx& C) { Unit u(0x1p-60); ranges<double>(C); }, "the same in units of 2^-60");
seq::Reg c7("C30/float-tiny", 4, [](Ctx& C) { Unit u(0x1p-40); ranges<float>(C); }, "the same in units of 2^-40");
seq::Reg c8("C30/double-huge", 4, [](Ctx& C) { Unit u(0x1p60); ranges<double>(C); }, "the same in units of 2^60");
seq::Reg c9("C30/int-huge", 4, [](Ctx& C) { Unit u(100000000); ranges<int>(C); }, "the same in units of 100000000");
seq::Reg c10("C30/long-long", 4, [](Ctx& C) { Unit u(0x1p40); ranges<long long>(C); }, "the same in units of 2^40");
seq::Reg c11("C30/unsigned-huge", 4, [](Ctx& C) { Unit u(250000000); ranges<unsigned>(C); }, "the same in units of 250000000");
seq::Reg f1("C31/double-tiny", 8, [](Ctx& C) { Unit u(0x1p-40); rects<double>(C, 4, 3); }, "4x4 positions, sizes 1..3 in units of 2^-40");
seq::Reg f2("C31/double-huge", 8, [](Ctx& C) { Unit u(0x1p60); rects<double>(C, 4, 3); }, "the same in units of 2^60");
seq::Reg f3("C31/float-tiny", 4, [](Ctx& C) { Unit u(0x1p-30); rects<float>(C, 4, 3); }, "the same in units of 2^-30");
seq::Reg f4("C31/int-huge", 8, [](Ctx& C) { Unit u(10000); rects<int>(C, 4, 3); }, "the same in units of 10000");
seq::Reg f5("C31/long", 8, [](Ctx& C) { Unit u(0x1p29); rects<long>(C, 4, 3); }, "the same in units of 2^29");
seq::Reg f6("C31/lines-tiny", 8, [](Ctx& C) { Unit u(0x1p-40); rect_lines<double>(C, 5); }, "5x5 grid in units of 2^-40");
seq::Reg f7("C31/lines-huge", 8, [](Ctx& C) { Unit u(100000000); rect_lines<int>(C, 5); }, "5x5 grid in units of 100000000");
seq::Reg f8("C31/lines-float", 8, [](Ctx& C) { rect_lines<float>(C, 5); }, "5x5 grid");
seq::Reg f9("C31/lines-unsigned", 8, [](Ctx& C) { rect_lines<unsigned>(C, 5); }, "5x5 grid");
seq::Reg f10("C30/near-double", 4, [](Ctx& C) { Unit u(0x1p-30, 0x1p20); ranges<double>(C); }, "the same in units of 2^-30 from 2^20 on");
seq::Reg f11("C30/near-float", 4, [](Ctx& C) { Unit u(0x1p-10, 0x1p10); ranges<float>(C); }, "the same in units of 2^-10 from 2^10 on");
seq::Reg f12("C30/near-long", 4, [](Ctx& C) { Unit u(1, 0x1p60); ranges<long>(C); }, "the same from 2^60 on");
seq::Reg f13("C30/near-int", 4, [](Ctx& C) { Unit u(1, 2147483600); ranges<int>(C); }, "the same from 2147483600 on");
seq::Reg f14("C31/near-double", 8, [](Ctx& C) { Unit u(0x1p-30, 0x1p20); rects<double>(C, 4, 3); }, "4x4 positions, sizes 1..3 in units of 2^-30 from 2^20 on");
seq::Reg f15("C31/near-float", 8, [](Ctx& C) { Unit u(0x1p-10, -0x1p10); rects<float>(C, 4, 3); }, "the same in units of 2^-10 from -2^10 on");
seq::Reg f16("C31/near-int", 8, [](Ctx& C) { Unit u(1, 2147483600); rects<int>(C, 4, 3); }, "the same in units of 1 from 2147483600 on");
seq::Reg f17("C31/near-unsigned", 8, [](Ctx& C) { Unit u(1, 4294967200.0); rects<unsigned>(C, 4, 3); }, "the same in units of 1 from 4294967200 on");
seq::Reg f18("C31/near-long", 8, [](Ctx& C) { Unit u(1, -0x1p61); rects<long>(C, 4, 3); }, "the same in units of 1 from -2^61 on");
seq::Reg e1("C35/int", 1, minmax<int>, "all tuples of two to four of 10 values");
seq::Reg e2("C35/unsigned", 1, minmax<unsigned>, "all tuples of two to four of 8 values");
seq::Reg e3("C35/double", 1, minmax<double>, "all tuples of two to four of 16 values");
seq::Reg e4("C35/long", 1, minmax<long>, "all tuples of two to four of 10 values");
seq::Reg e5("C35/float", 1, minmax<float>, "all tuples of two to four of 16 values");
seq::Reg e6("C35/long-long", 1, minmax<long long>, "all tuples of two to four of 10 values");
seq::Reg e7("C35/unsigned-long", 1, minmax<unsigned long>, "all tuples of two to four of 8 values");
}
