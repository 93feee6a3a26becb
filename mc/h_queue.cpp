// C05 / C06: blocking_queue
#include "mc.h"
#include "util.h"
#include <teiacare/sdk/blocking_queue.hpp>
#include <thread>
#include <memory>
#include <cstring>

namespace {
enum Op { PUSH, PUSHR, TRYPUSH, TRYPUSHR, POP, TRYPOP, SIZE, CAP };
struct Rec { int op, arg, res; long inv, ret; };   // res: popped value, -1 none; try_push 0/1
// Histories are recorded with a logical clock: log() is a totally ordered event.
struct Item { int v; int copy_check; explicit Item(int x) : v(x), copy_check(~x) {} };

struct History {
    Rec r[12]; int n = 0; 
};
// brute-force linearizability against a bounded FIFO
bool lin(const std::vector<Rec>& h, unsigned done, std::vector<int>& q, size_t cap, bool complete_only) {
    bool all = true; // pending operations have not taken effect and must have a reason to be blocked
    for (size_t i = 0; i < h.size() && all; i++) if (!(done >> i & 1)) all = h[i].ret == LONG_MAX && (h[i].op <= PUSHR ? q.size() >= cap : h[i].op == POP && q.empty());
    if (all) return true;
    long minret = LONG_MAX;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].ret < minret) minret = h[i].ret;
    for (size_t i = 0; i < h.size(); i++) {
        if (done >> i & 1 || h[i].inv > minret || h[i].ret == LONG_MAX) continue;
        const Rec& r = h[i]; bool ok = false; int popped = 0; 
        switch (r.op) {
        case PUSH: case PUSHR: if (q.size() < cap) { q.push_back(r.arg); ok = true; if (lin(h, done | 1u << i, q, cap, complete_only)) return true; q.pop_back(); } break;
        case TRYPUSH: case TRYPUSHR:
            if (r.res) { if (q.size() < cap) { q.push_back(r.arg); if (lin(h, done | 1u << i, q, cap, complete_only)) return true; q.pop_back(); } }
            else if (q.size() >= cap) { if (lin(h, done | 1u << i, q, cap, complete_only)) return true; }
            break;
        case POP: case TRYPOP:
            if (r.res < 0) { if (r.op == TRYPOP && q.empty() && lin(h, done | 1u << i, q, cap, complete_only)) return true; }
            else if (!q.empty() && q.front() == r.res) { popped = q.front(); q.erase(q.begin()); if (lin(h, done | 1u << i, q, cap, complete_only)) return true; q.insert(q.begin(), popped); }
            break;
        case SIZE: if ((int)q.size() == r.res && lin(h, done | 1u << i, q, cap, complete_only)) return true; break;
        case CAP: if (r.res == (int)cap && lin(h, done | 1u << i, q, cap, complete_only)) return true; break;
        }
        (void)ok;
    }
    return false;
}
const char* ON[] = {"push", "push&&", "try_push", "try_push&&", "pop", "try_pop", "size", "capacity"};

struct Prog { std::vector<std::vector<int>> threads; size_t cap; };

enum { INV = 1, RET = 2 };
void run_ops(tc::sdk::blocking_queue<Item>& q, int tno, const std::vector<int>& ops) {
    int k = 0;
    for (int op : ops) {
        int id = tno * 8 + k; int val = tno * 10 + k + 1; k++;
        int res = -1;
        mc::log(INV, id, op, val);
        switch (op) {
        case PUSH: { Item it(val); q.push(it); res = 1; break; }
        case PUSHR: q.push(Item(val)); res = 1; break;
        case TRYPUSH: { Item it(val); res = q.try_push(it); break; }
        case TRYPUSHR: res = q.try_push(Item(val)); break;
        case POP: { Item it = q.pop(); MC_CHECK(it.copy_check == ~it.v, "popped a torn item"); res = it.v; break; }
        case TRYPOP: { auto it = q.try_pop(); res = it ? it->v : -1; break; }
        case SIZE: res = (int)q.size(); break;
        case CAP: res = (int)q.capacity(); break;
        }
        mc::log(RET, id, res);
    }
}
void check_history(size_t cap) {
    std::vector<Rec> h; 
    int pos[64]; for (int& p : pos) p = -1;
    for (size_t i = 0; i < mc::nevents(); i++) {
        auto& e = mc::event(i);
        if (e.tag == INV) { pos[e.a] = (int)h.size(); h.push_back({(int)e.b, (int)e.c, -1, (long)i, LONG_MAX}); }
        else if (e.tag == RET) { h[pos[e.a]].res = (int)e.b; h[pos[e.a]].ret = (long)i; }
    }
    std::vector<int> q;
    if (!lin(h, 0, q, cap ? cap : 1, false)) {
        std::string s; for (auto& r : h) s += std::string(" ") + ON[r.op] + "(" + std::to_string(r.arg) + ")=" + std::to_string(r.res) + "@[" + std::to_string(r.inv) + "," + std::to_string(r.ret) + "]";
        mc::fail("history is not explained by any bounded FIFO of capacity %zu:%s", cap, s.c_str());
    }
}
void end_check(void* p) { check_history(((const Prog*)p)->cap); }
void run_prog(const Prog& p) {
    mc::expect_deadlock(); mc::at_end(end_check, (void*)&p);
    auto q = std::make_unique<tc::sdk::blocking_queue<Item>>(p.cap);
    {
        std::vector<std::jthread> ts;
        for (size_t i = 1; i < p.threads.size(); i++) ts.emplace_back([&, i] { run_ops(*q, (int)i, p.threads[i]); });
        run_ops(*q, 0, p.threads[0]);
    }
    // drain: the remaining content is part of the history
    std::vector<int> d; int k = 0; int n = (int)q->size();
    for (int i = 0; i <= n; i++) d.push_back(TRYPOP);
    (void)k; run_ops(*q, (int)p.threads.size(), d);
}
// ---- one thread, long histories, items of several types: contents, order, size and refusals against a list
struct Big { unsigned char b[200]; explicit Big(int s) { for (int i = 0; i < 200; i++) b[i] = (unsigned char)(s * 3 + i); } bool operator==(const Big& o) const { return memcmp(b, o.b, 200) == 0; } };
template <class T> T mk(int v);
template <> int mk<int>(int v) { return v; }
template <> std::string mk<std::string>(int v) { return std::string(v % 40, (char)('a' + v % 26)) + std::to_string(v); }
template <> Big mk<Big>(int v) { return Big(v); }
std::shared_ptr<int> keep[1200];
template <> std::shared_ptr<int> mk<std::shared_ptr<int>>(int v) { if (!keep[v]) keep[v] = std::make_shared<int>(v); return keep[v]; }
template <> std::vector<int> mk<std::vector<int>>(int v) { return std::vector<int>(v % 7, v); }
const int CAPS[] = {0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300};
template <class T> void typed() {
    mc::Quiet quiet; for (auto& k : keep) k.reset(); int want = CAPS[mc::choose(20)], cap = want ? want : 1, pattern = mc::choose(4); tc::sdk::blocking_queue<T> q(want); int next = 0, out = 0;
    auto check = [&] { MC_CHECK(q.size() == (size_t)(next - out) && q.capacity() == (size_t)cap, "size %zu of %zu, expected %d of %d", q.size(), q.capacity(), next - out, cap); };
    auto push = [&](int how) { bool room = next - out < cap; if (!room) how |= 2; T x = mk<T>(next), y = x; bool r = true;
        switch (how) { case 0: q.push((const T&)x); break; case 1: q.push(std::move(x)); break; case 2: r = q.try_push((const T&)x); break; default: r = q.try_push(std::move(x)); }
        MC_CHECK(r == room, "try_push returned %d with %d of %d items", r, next - out, cap); if (!(how & 1) || !r) MC_CHECK(x == y, "the item of the caller is modified"); next += r; check(); };
    auto pop = [&](int how) { if (next == out) { MC_CHECK(!q.try_pop().has_value(), "try_pop of an empty queue"); check(); return; } T x = mk<T>(out); if (how) { auto o = q.try_pop(); MC_CHECK(o && *o == x, "item %d is lost or modified", out); } else MC_CHECK(q.pop() == x, "item %d is modified", out); out++; check(); };
    int n = 0; auto how = [&] { return (n++ * 7 + pattern) & 3; };
    for (int round = 0; round < 2; round++) {
        if (pattern == 0) { while (next - out < cap) push(how()); push(2); push(3); while (next > out) pop(how() & 1); pop(0); } // fill up, empty
        else if (pattern == 1) { while (next - out < cap) push(how()); for (int i = 0; i < cap + 3; i++) { push(3); pop(how() & 1); push(how()); } } // stay full
        else if (pattern == 2) { for (int i = 0; i < cap + 3; i++) { push(how()); pop(how() & 1); pop(1); } } // stay empty
        else { for (int i = 0; i < cap + 3; i++) { push(how()); push(how()); if (next - out > 1) pop(how() & 1); } } // grow slowly
    }
    while (next > out) pop(0);
    for (int i = 0; i < next && keep[i]; i++) MC_CHECK(keep[i].use_count() == 1, "item %d is still held after it was popped", i);
}
void types() { switch (mc::choose(5)) { case 0: typed<int>(); break; case 1: typed<std::string>(); break; case 2: typed<Big>(); break; case 3: typed<std::shared_ptr<int>>(); break; default: typed<std::vector<int>>(); } }
// ---- P producers and C consumers of many items: every item arrives once, in the order of its producer, and everything completes
void stream(int P, int C, int cap, int n, bool mixed) {
    tc::sdk::blocking_queue<int> q(cap); std::vector<int> got[4]; MC_CHECK(P * n % C == 0, "configuration");
    { std::vector<std::jthread> t; for (int p = 0; p < P; p++) t.emplace_back([&, p] { for (int i = 0; i < n; i++) { int v = p * 1000 + i; if (mixed && i % 3 == 1 && q.try_push(v)) continue; if (i & 1) q.push(v); else q.push(int(v)); } });
      for (int c = 0; c < C; c++) t.emplace_back([&, c] { for (int i = 0; i < P * n / C; i++) { if (mixed && i % 4 == 2) { if (auto o = q.try_pop()) { got[c].push_back(*o); continue; } } got[c].push_back(q.pop()); } }); }
    std::vector<int> seen(P * 1000); for (auto& g : got) { int last[4] = {-1, -1, -1, -1}; for (int v : g) { MC_CHECK(v >= 0 && v < P * 1000 && !seen[v]++, "item %d arrives twice", v); MC_CHECK(v % 1000 > last[v / 1000], "a consumer gets item %d of a producer after item %d", v % 1000, last[v / 1000]); last[v / 1000] = v % 1000; } }
    for (int p = 0; p < P; p++) for (int i = 0; i < n; i++) MC_CHECK(seen[p * 1000 + i], "item %d of producer %d is lost", i, p); MC_CHECK(q.size() == 0, "left over");
}
void streams() { static const int caps[] = {0, 1, 2, 3, 7, 8, 9, 16, 33, 64, 255, 256, 257}; int P = 1 + mc::choose(3), C = 1 + mc::choose(3); stream(P, C, caps[mc::choose(13)], 120, mc::choose(2)); }
void capacities() { // the capacity is the requested one, however large, and it is used to the full
    static const size_t caps[] = {0, 1, 2, 127, 128, 255, 256, 257, 1000, 4097, 32767, 32768, 65535, 65536, 65537, (1u << 31) - 1, 1u << 31, 0xffffffffu, 1ull << 32, (1ull << 32) + 1, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull};
    size_t want = caps[mc::choose(24)], c = want ? want : 1, n = c < 70000 ? c : 300; tc::sdk::blocking_queue<uint16_t> q(want); MC_CHECK(q.capacity() == c, "capacity %zu instead of %zu", q.capacity(), c); int how = mc::choose(3);
    for (size_t i = 0; i < n; i++) { uint16_t v = (uint16_t)(i * 7); if (how == 0 || (how == 2 && i % 3 == 0)) q.push(v); else if (how == 1) MC_CHECK(q.try_push(v), "refused at %zu of %zu", i, c); else q.push(uint16_t(v)); MC_CHECK(q.size() == i + 1, "size %zu after %zu", q.size(), i + 1); }
    if (n == c) { uint16_t v = 9; MC_CHECK(!q.try_push(v) && !q.try_push(uint16_t(9)) && q.size() == c, "accepted although full"); }
    for (size_t i = 0; i < n; i++) { uint16_t v = (uint16_t)(i * 7); if (i & 1) MC_CHECK(q.pop() == v, "order"); else { auto o = q.try_pop(); MC_CHECK(o && *o == v, "order"); } } MC_CHECK(!q.try_pop() && q.size() == 0 && q.capacity() == c, "empty");
}
// ---- a copy of an item fails somewhere in the history: that operation has no effect, everything else is as without it
void faults(int depth) {
    mc::Quiet quiet; Fuse::left = -1; Fuse::copies = Fuse::live = 0; int cap = 1 + mc::choose(3), fuse = 1 + mc::choose(8);
    { tc::sdk::blocking_queue<Fragile> q(cap); std::vector<int> m; int next = 1; Fuse::set(fuse);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(6); size_t n = m.size(); bool threw = false, r = true; int got = -1; if ((op < 2 && n == (size_t)cap) || (op == 4 && n == 0)) return; // (would block)
        Fragile x(next);
        try { switch (op) { case 0: q.push((const Fragile&)x); break; case 1: q.push(std::move(x)); break; case 2: r = q.try_push((const Fragile&)x); break; case 3: r = q.try_push(std::move(x)); break; case 4: got = q.pop().v; break; default: { auto o = q.try_pop(); r = o.has_value(); if (r) got = o->v; } } }
        catch (const Blown&) { threw = true; }
        if (threw) MC_CHECK(op < 4 ? n < (size_t)cap : n > 0, "an operation that cannot succeed copies an item");
        else if (op < 4) { MC_CHECK(r == (n < (size_t)cap), "try_push returned %d with %zu of %d items", r, n, cap); if (r) m.push_back(next++); }
        else { MC_CHECK(r == (n > 0) && (!r || got == m[0]), "popped %d", got); if (r) m.erase(m.begin()); }
        MC_CHECK(q.size() == m.size(), "%zu items after operation %d%s, expected %zu", q.size(), op, threw ? " that failed" : "", m.size());
    }
    Fuse::set(-1); for (int v : m) MC_CHECK(q.pop().v == v, "contents after a failed copy"); MC_CHECK(q.size() == 0, "left over");
    for (int i = 0; i < cap; i++) q.push(Fragile(i)); }
    MC_CHECK(Fuse::live == 0, "%d items leaked", Fuse::live);
}
// memory runs out in the n-th allocation: that operation throws and has no effect
void exhausted() {
    mc::Quiet quiet; int cap = 1 + mc::choose(3) * 19, k = 1 + mc::choose(12), pre = mc::choose(3) * (cap / 2), shift = mc::choose(4) * 13; tc::sdk::blocking_queue<std::string> q(cap); std::vector<std::string> m; int next = 0, failed = 0; auto name = [](int i) { return std::string(50 + i % 7, char('a' + i % 26)) + std::to_string(i); };
    for (int i = 0; i < shift; i++) { q.push(name(1000 + i)); MC_CHECK(q.pop() == name(1000 + i), "order"); } for (int i = 0; i < pre; i++) { q.push(name(next)); m.push_back(name(next++)); } m.reserve(200); std::vector<std::string> in; for (int i = 0; i < 60; i++) in.push_back(name(next + i)); size_t at = 0; int kind = mc::choose(4);
    for (int i = 0; i < 40 && at < in.size(); i++) { auto& x = in[at]; int op = i % 5 == 4 ? 4 : (kind + i) % 4; size_t n = m.size(); bool threw = false, r = true; if (op < 2 && n == (size_t)cap) op += 2; if (op == 4 && !n) continue; std::string got; const std::string copy = x; mc::fault_alloc(k);
        try { switch (op) { case 0: q.push((const std::string&)x); break; case 1: q.push(std::move(x)); break; case 2: r = q.try_push((const std::string&)x); break; case 3: r = q.try_push(std::move(x)); break; default: got = q.pop(); } } catch (const std::bad_alloc&) { threw = true; failed++; } k = mc::fault_alloc(0);
        if (threw) { MC_CHECK(op == 4 || n < (size_t)cap, "an operation that cannot succeed allocates"); MC_CHECK(x == copy, "the item is gone although it was not accepted"); } else if (op < 4) { MC_CHECK(r == (n < (size_t)cap), "accepted %d with %zu of %d", r, n, cap); if (r) { m.push_back(copy); at++; } else MC_CHECK(x == copy, "the item is gone although it was not accepted"); } else { MC_CHECK(got == m[0], "order"); m.erase(m.begin()); }
        MC_CHECK(q.size() == m.size(), "%zu items, expected %zu", q.size(), m.size()); }
    MC_CHECK(failed <= 1, "one failure hits several operations"); for (auto& x : m) MC_CHECK(q.pop() == x, "contents"); MC_CHECK(q.size() == 0 && !q.try_pop(), "left over"); for (int i = 0; i < cap; i++) q.push(name(i)); MC_CHECK(!q.try_push(name(0)), "capacity");
}
// a failing operation does not strand the others
void fault_streams(bool consumer) {
    Fuse::left = -1; tc::sdk::blocking_queue<Fragile> q(1); int done = 0; std::vector<int> got; Fuse::set(1 + mc::choose(6)); int failures = 0;
    { std::jthread o([&] { for (int i = 1; i <= 3;) { try { if (consumer) { got.push_back(q.pop().v); } else q.push(Fragile(i)); i++; done++; } catch (const Blown&) { failures++; } } });
      for (int i = 1; i <= 3;) { try { if (!consumer) got.push_back(q.pop().v); else q.push(Fragile(i)); i++; } catch (const Blown&) { failures++; } } }
    MC_CHECK(got == (std::vector<int>{1, 2, 3}) && done == 3 && failures <= 1, "items after a failed copy"); MC_CHECK(q.size() == 0, "left over");
}
void two() { // two queues of different capacities, and a third one of another type, share nothing
    mc::Quiet quiet; tc::sdk::blocking_queue<int> a(1 + mc::choose(2)), b(2); tc::sdk::blocking_queue<std::string> c(1); tc::sdk::blocking_queue<int>* q[2] = {&a, &b}; size_t cap[2] = {a.capacity(), 2}; std::vector<int> m[2]; bool has = false;
    for (int i = 0; i < (mc::thorough() ? 7 : 6); i++) {
        int op = mc::choose(6), k = op & 1; if (op < 2) { bool r = q[k]->try_push(i), w = m[k].size() < cap[k]; MC_CHECK(r == w, "try_push returned %d", r); if (w) m[k].push_back(i); } else if (op < 4) { auto o = q[k]->try_pop(); MC_CHECK(o.has_value() == !m[k].empty() && (!o || *o == m[k][0]), "try_pop"); if (o) m[k].erase(m[k].begin()); }
        else if (op == 4) { MC_CHECK(c.try_push("x") == !has, "try_push"); has = true; } else { MC_CHECK(c.try_pop().has_value() == has, "try_pop"); has = false; }
        MC_CHECK(a.size() == m[0].size() && b.size() == m[1].size() && c.size() == has && a.capacity() == cap[0] && b.capacity() == 2 && c.capacity() == 1, "sizes after operation %d", op);
    }
}
void pipeline() { // items go through one queue into another one; each side blocks on its own queue only
    tc::sdk::blocking_queue<int> a(1), b(1); std::vector<int> got; { std::jthread mid([&] { for (int i = 0; i < 3; i++) b.push(a.pop()); }), end([&] { for (int i = 0; i < 3; i++) got.push_back(b.pop()); }); for (int i = 0; i < 3; i++) a.push(i + 0); } MC_CHECK(got == (std::vector<int>{0, 1, 2}) && a.size() == 0 && b.size() == 0, "items");
}
void add_long(const char* name, std::function<void()> fn, int qb, int tb, bool seq, bool delay) { mc::Scenario s; s.name = name; s.fn = fn; s.seq = seq; s.delay = delay; s.quick = {qb, 0, 0, 60}; s.thorough = {tb, 0, 0, 100}; mc::add(s); }
void add(const char* name, Prog p, int qb, int tb, int qs = 0, int ts = 1) {
    mc::Scenario s; s.name = name; auto* pp = new Prog(p); s.fn = [pp] { run_prog(*pp); };
    s.quick = {qb, 0, qs, 120}; s.thorough = {tb, 0, ts, 150}; mc::add(s);
}
}
void register_scenarios() {
    // C05: mixtures of operations
    add("C05/mix-cap1", {{{PUSH, POP}, {TRYPUSH, TRYPOP}, {TRYPOP, TRYPUSHR}}, 1}, 4, 99);
    add("C05/mix-cap2", {{{PUSH, PUSHR, TRYPOP}, {TRYPUSH, TRYPUSHR}, {POP, TRYPOP}}, 2}, 3, 99);
    add("C05/try-only-cap1", {{{TRYPUSH, TRYPUSH}, {TRYPOP, TRYPOP}, {TRYPUSHR, TRYPOP}}, 1}, 4, 99);
    add("C05/size-cap2", {{{PUSH, PUSH, POP}, {SIZE, TRYPUSH, SIZE}, {POP, SIZE}}, 2}, 3, 99);
    add("C05/cap0-means-1", {{{PUSH, CAP, TRYPUSH}, {POP, TRYPUSHR, CAP}}, 0}, 8, 99);
    add("C05/fifo-two-consumers", {{{PUSH, PUSH, PUSH}, {POP, POP}, {POP}}, 2}, 3, 99);
    add("C05/fifo-two-producers", {{{PUSH, PUSHR}, {PUSH, PUSH}, {POP, POP, POP, POP}}, 2}, 3, 99);
    // C06: matched totals always complete (a stuck operation is a deadlock verdict of the runtime)
    add("C06/1p1c-cap1", {{{PUSH, PUSHR, PUSH}, {POP, POP, POP}}, 1}, 5, 99, 1, 1);
    add("C06/2p1c-cap1", {{{PUSH, PUSH}, {PUSHR}, {POP, POP, POP}}, 1}, 3, 99, 0, 1);
    add("C06/1p2c-cap1", {{{PUSH, PUSHR, PUSH}, {POP, POP}, {POP}}, 1}, 3, 99, 0, 1);
    add("C06/2p2c-cap1", {{{PUSH}, {PUSH}, {POP}, {POP}}, 1}, 3, 99, 0, 1);
    add("C06/2p2c-cap2", {{{PUSH, PUSH}, {PUSHR}, {POP, POP}, {POP}}, 2}, 3, 99, 0, 1);
    add("C06/3c1p-cap2", {{{PUSH, PUSH, PUSH}, {POP}, {POP}, {POP}}, 2}, 3, 99, 0, 1);
    add("C06/3p1c-cap2", {{{POP, POP, POP, POP}, {PUSH, PUSH}, {PUSHR}, {PUSH}}, 2}, 3, 99, 0, 1);
    add("C06/try-wakes-blocking", {{{PUSH, PUSH}, {TRYPOP, POP}, {TRYPOP, TRYPOP}}, 2}, 3, 99, 0, 1);
    add_long("C05/no-memory", exhausted, 0, 0, true, false);
    add_long("C05/faults", [] { faults(mc::thorough() ? 7 : 5); }, 0, 0, true, false);
    add_long("C06/fault-producer", [] { fault_streams(true); }, 4, 99, false, false);
    add_long("C06/fault-consumer", [] { fault_streams(false); }, 4, 99, false, false);
    { mc::Scenario c; c.name = "C05/capacities"; c.fn = capacities; c.seq = true; c.step_limit = 2000000; c.quick = c.thorough = {0, 0, 0, 60}; mc::add(c); }
    add_long("C05/two", two, 0, 0, true, false);
    add_long("C06/pipeline", pipeline, 3, 9, false, false);
    add_long("C05/types", types, 0, 0, true, false);
    add_long("C05/streams", streams, 0, 0, true, false);
    add_long("C05/stream-2p1c-cap3", [] { stream(2, 1, 3, 8, true); }, 3, 5, false, true);
    add_long("C05/stream-2p2c-cap4", [] { stream(2, 2, 4, 6, false); }, 3, 5, false, true);
    add_long("C06/streams", streams, 0, 0, true, false);
    add_long("C06/stream-1p3c-cap2", [] { stream(1, 3, 2, 9, true); }, 3, 5, false, true);
    add_long("C06/stream-3p2c-cap2", [] { stream(3, 2, 2, 4, false); }, 3, 5, false, true);
    add_long("C06/stream-3p3c-cap5", [] { stream(3, 3, 5, 5, true); }, 3, 5, false, true);
}
