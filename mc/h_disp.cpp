// C11-C13: event_dispatcher
#include "mc.h"
#include "util.h"
#include <teiacare/sdk/event_dispatcher.hpp>
#include <thread>
#include <memory>
#include <cstring>
#include <numeric>
#include <set>
#include <typeinfo>

using tc::sdk::event_dispatcher;
namespace {
enum { CALL = 1, CALLEND, EMIT, EMITTED, ADD, ADDED, REM, REMD, STOP, STOPPED };
void pass(int64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
struct Call { int h; int64_t v; long pos; };
size_t ncalls() { size_t n = 0; for (size_t i = 0; i < mc::nevents(); i++) n += mc::event(i).tag == CALL; return n; }
std::vector<Call> calls(int h = -1) { std::vector<Call> r; for (size_t i = 0; i < mc::nevents(); i++) { auto& e = mc::event(i); if (e.tag == CALL && (h < 0 || e.a == h)) r.push_back({(int)e.a, e.b, (long)i}); } return r; }
long pos(int tag, int64_t a) { for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == tag && mc::event(i).a == a) return (long)i; return -1; }

// ---- the menu of argument lists: registering handler h, emitting value k, and what such a handler must receive
int64_t hs(const std::string& s) { int64_t r = 7; for (char c : s) r = r * 31 + c; return r; }
void got(int h, int64_t v) { mc::log(CALL, h, v); mc::note(CALLEND, h); }
struct Pt { int x, y; };
constexpr int NT = 10;
unsigned long reg(event_dispatcher& d, const std::string& n, int t, int h) {
    switch (t) {
    case 0: return d.add_handler(n, [h] { got(h, 0); });
    case 1: return d.add_handler<int>(n, [h](int a) { got(h, a * 3 + 1); });
    case 2: return d.add_handler<double>(n, [h](double a) { got(h, int64_t(a * 4) + 2); });
    case 3: return d.add_handler<int, double>(n, [h](int a, const double& b) { got(h, a * 1000 + int64_t(b * 4)); });
    case 4: return d.add_handler<double, int>(n, [h](double b, int a) { got(h, a * 2000 + int64_t(b * 4)); });
    case 5: return d.add_handler<int, int>(n, [h](int a, int b) { got(h, a * 3000 + b); });
    case 6: return d.add_handler<std::string>(n, [h](const std::string& s) { got(h, hs(s)); });
    case 7: return d.add_handler<std::string, int>(n, [h](std::string s, int a) { got(h, hs(s) + a); });
    case 8: return d.add_handler<unsigned>(n, [h](unsigned a) { got(h, int64_t(a) * 5 + 4); });
    case 9: return d.add_handler<Pt>(n, [h](Pt p) { got(h, p.x * 7 + p.y * 11); });
    }
    return 0;
}
bool emit(event_dispatcher& d, const std::string& n, int t, int k) {
    switch (t) {
    case 0: return d.emit(n);
    case 1: return d.emit(n, k);
    case 2: return d.emit(n, k + 0.25);
    case 3: return d.emit(n, k, k + 0.5);
    case 4: return d.emit(n, k + 0.5, k);
    case 5: return d.emit(n, k, k + 1);
    case 6: return d.emit(n, std::string("s") + std::to_string(k));
    case 7: return d.emit(n, std::string("t") + std::to_string(k), k);
    case 8: return d.emit(n, unsigned(k));
    case 9: return d.emit(n, Pt{k, k + 2});
    }
    return false;
}
int64_t expect(int t, int k) {
    switch (t) {
    case 0: return 0;
    case 1: return k * 3 + 1;
    case 2: return int64_t((k + 0.25) * 4) + 2;
    case 3: return k * 1000 + int64_t((k + 0.5) * 4);
    case 4: return k * 2000 + int64_t((k + 0.5) * 4);
    case 5: return k * 3000 + k + 1;
    case 6: return hs("s" + std::to_string(k));
    case 7: return hs("t" + std::to_string(k)) + k;
    case 8: return int64_t(k) * 5 + 4;
    case 9: return k * 7 + (k + 2) * 11;
    }
    return 0;
}
std::vector<std::string> names(int n) {
    std::vector<std::string> r{"a", "ab", "", "a" + std::to_string(typeid(int).hash_code()), "b", std::string("a\0x", 3), "ab" + std::to_string(typeid(std::string).hash_code()), "a" + std::to_string(typeid(int).hash_code() + typeid(double).hash_code()), "A", "aa", "a," };
    r.resize(std::min<size_t>(n, r.size())); return r;
}
// ---- C11
void c11_pairs() { // one handler, one emission: all combinations of names and argument lists
    event_dispatcher d; d.start(1); auto N = names(11);
    int n1 = mc::choose(N.size()), t1 = mc::choose(NT), n2 = mc::choose(N.size()), t2 = mc::choose(NT);
    reg(d, N[n1], t1, 1); bool r = emit(d, N[n2], t2, 6); pass(1);
    bool match = n1 == n2 && t1 == t2; auto c = calls();
    MC_CHECK(r == match, "emit returned %d: handler (name %d, arguments %d), event (name %d, arguments %d)", r, n1, t1, n2, t2);
    MC_CHECK(c.size() == (match ? 1u : 0u), "%zu invocations: handler (name %d, arguments %d), event (name %d, arguments %d)", c.size(), n1, t1, n2, t2);
    if (match) MC_CHECK(c[0].v == expect(t1, 6), "wrong values delivered for arguments %d", t1);
}
void c11_two_handlers() { // two handlers, one event
    event_dispatcher d; d.start(1 + mc::choose(2)); auto N = names(4);
    int n[2], t[2]; for (int i = 0; i < 2; i++) { n[i] = mc::choose(2 + i); t[i] = mc::choose(5); reg(d, N[n[i]], t[i], i); }
    int ne = mc::choose(3), te = mc::choose(5); bool r = emit(d, N[ne], te, 3); pass(1); bool any = false;
    for (int i = 0; i < 2; i++) { bool m = n[i] == ne && t[i] == te; any |= m; auto c = calls(i); MC_CHECK(c.size() == (m ? 1u : 0u), "handler %d invoked %zu times", i, c.size()); if (m) MC_CHECK(c[0].v == expect(te, 3), "values"); }
    MC_CHECK(r == any, "emit returned %d", r);
}
void c11_emitters(int W, int E, int H) { // E emitting threads x 2 events, H handlers, W workers
    event_dispatcher d; { mc::Quiet q; d.start(W); for (int h = 0; h < H; h++) reg(d, "e", 3, h); reg(d, "e", 4, 9); }
    auto em = [&](int e) { for (int k = 0; k < (E > 2 ? 1 : 2); k++) MC_CHECK(emit(d, "e", 3, e * 10 + k), "emit false"); };
    { std::vector<std::jthread> t; for (int e = 1; e < E; e++) t.emplace_back([&, e] { em(e); }); em(0); }
    pass(1);
    for (int h = 0; h < H; h++) { auto c = calls(h); std::multiset<int64_t> want, is; for (int e = 0; e < E; e++) for (int k = 0; k < (E > 2 ? 1 : 2); k++) want.insert(expect(3, e * 10 + k)); for (auto& x : c) is.insert(x.v); MC_CHECK(want == is, "handler %d received %zu events, or wrong ones, of %zu", h, is.size(), want.size()); }
    MC_CHECK(calls(9).empty(), "handler of another argument list invoked");
}
void c11_args() { // arguments are copied at the emission, const references and several handlers do not disturb each other
    event_dispatcher d; d.start(1); std::string s = "one";
    d.add_handler<std::string>("x", [&](const std::string& v) { got(0, v == "one"); mc::await(0); });
    d.add_handler<std::string>("x", [&](std::string v) { got(1, v == "one"); v = "changed"; });
    d.add_handler<std::string>("x", [&](std::string v) { got(2, v == "one"); });
    MC_CHECK(d.emit("x", s), "emit"); s = "two"; mc::set(0); pass(1);
    for (int h = 0; h < 3; h++) { auto c = calls(h); MC_CHECK(c.size() == 1 && c[0].v == 1, "handler %d did not receive the emitted value once", h); }
}
void c11_reentrant() { // handlers that emit and register
    event_dispatcher d; { mc::Quiet q; d.start(1); }
    d.add_handler<int>("x", [&](int k) { got(1, k); if (k < 3) { MC_CHECK(d.emit("x", k + 1), "nested emit"); } if (k == 3) reg(d, "y", 0, 2); if (k == 3) MC_CHECK(emit(d, "y", 0, 0), "nested registration"); });
    MC_CHECK(d.emit("x", 1), "emit"); pass(1);
    auto c = calls(1); MC_CHECK(c.size() == 3 && c[0].v == 1 && c[1].v == 2 && c[2].v == 3 && calls(2).size() == 1, "nested events lost");
}
void c11_throwing() { // a throwing handler does not affect others
    event_dispatcher d; d.start(1 + mc::choose(2));
    d.add_handler("x", [] { got(1, 0); throw 5; }); reg(d, "x", 0, 2);
    for (int i = 0; i < 2; i++) { MC_CHECK(d.emit("x"), "emit"); pass(1); MC_CHECK((int)calls(1).size() == i + 1 && (int)calls(2).size() == i + 1, "handler lost after an exception"); }
}
// registration concurrent with emission: some sequential order
void c11_add_race() {
    event_dispatcher d; { mc::Quiet q; d.start(1); reg(d, "z", 1, 7); }
    bool r1, r2; { std::jthread o([&] { reg(d, "e", 1, 1); mc::log(ADDED, 1); }); mc::log(EMIT, 1); r1 = emit(d, "e", 1, 1); r2 = emit(d, "e", 1, 2); }
    pass(1); auto c = calls(1); MC_CHECK((int)c.size() == r1 + r2 && r1 <= r2 && calls(7).empty(), "%zu calls for emissions %d %d", c.size(), r1, r2);
    if (c.size()) MC_CHECK(c.back().v == expect(1, 2), "wrong event"); if (pos(ADDED, 1) < pos(EMIT, 1)) MC_CHECK(r1, "registered handler not called");
}
struct Reg { unsigned long id; std::string n; int t; int h; };
// histories of registrations, removals, restarts and emissions: each emission reaches exactly who is registered at that moment
void c11_history(int depth, int nn, int nt) {
    event_dispatcher d; d.start(1); std::vector<Reg> regs; auto N = names(nn); static const int types[] = {3, 4, 0}; int h = 0;
    auto check = [&](int n, int t, int k) {
        size_t before = calls().size(); bool r = emit(d, N[n], t, k); pass(1); auto c = calls(); c.erase(c.begin(), c.begin() + before);
        std::vector<int> want, is; for (auto& x : regs) if (x.n == N[n] && x.t == t) want.push_back(x.h); for (auto& x : c) { is.push_back(x.h); MC_CHECK(x.v == expect(t, k), "wrong values"); }
        MC_CHECK(want == is, "event (name %d, arguments %d): %zu handlers invoked, %zu registered (or in another order)", n, t, is.size(), want.size()); MC_CHECK(r == !want.empty(), "emit returned %d with %zu handlers", r, want.size());
    };
    for (int s = 0; s < depth; s++) {
        int op = mc::choose(5);
        if (op == 0) { int n = mc::choose(nn), t = types[mc::choose(nt)]; auto id = reg(d, N[n], t, h); regs.push_back({id, N[n], t, h++}); }
        else if (op == 1) { if (regs.empty()) break; size_t j = mc::choose(regs.size()); MC_CHECK(d.remove_handler(regs[j].id), "removal of a registered handler fails"); regs.erase(regs.begin() + j); }
        else if (op == 2) { int n = mc::choose(nn); bool want = std::erase_if(regs, [&](auto& x) { return x.n == N[n]; }) > 0; MC_CHECK(d.remove_event(N[n]) == want, "remove_event"); }
        else if (op == 3) { int n = mc::choose(nn), t = types[mc::choose(nt)]; check(n, t, s); }
        else { d.stop(); d.start(1); regs.clear(); }
    }
    for (int n = 0; n < nn; n++) for (int t = 0; t < nt; t++) check(n, types[t], 20 + n);
}
// ---- C12
void c12_sequence(int depth, int nn, int ndisp, int ops) {
    std::unique_ptr<event_dispatcher> d[2]; std::vector<Reg> regs[2]; std::set<unsigned long> ids[2]; auto N = std::vector<std::string>{"a", "ab", "", "a" + std::to_string(typeid(int).hash_code())}; N.resize(nn);
    for (int i = 0; i < ndisp; i++) { d[i] = std::make_unique<event_dispatcher>(); d[i]->start(1); }
    int h = 0, k = 0; static const int types[] = {0, 1, 3, 4};
    for (int s = 0; s < depth; s++) {
        int w = ndisp > 1 ? mc::choose(2) : 0, op = mc::choose(ops); auto& R = regs[w];
        if (op == 0) { int n = mc::choose(nn), t = types[mc::choose(ops > 5 ? 4 : 2)]; auto id = reg(*d[w], N[n], t, h); MC_CHECK(ids[w].insert(id).second, "handler id %lu handed out twice", id); R.push_back({id, N[n], t, h++}); }
        else if (op == 1) { if (ids[w].empty()) continue; size_t i = mc::choose(std::min<size_t>(ids[w].size(), 3)); auto id = *std::next(ids[w].begin(), i); bool want = false; for (size_t j = 0; j < R.size(); j++) if (R[j].id == id) { R.erase(R.begin() + j); want = true; break; } bool r = d[w]->remove_handler(id); MC_CHECK(r == want, "remove_handler(%lu) returned %d", id, r); }
        else if (op == 2) { int n = mc::choose(nn); bool want = std::erase_if(R, [&](auto& x) { return x.n == N[n]; }) > 0; bool r = d[w]->remove_event(N[n]); MC_CHECK(r == want, "remove_event(name %d) returned %d, expected %d (step %d)", n, r, want, s); }
        else if (op == 3) { if (ndisp < 2) { bool r = d[w]->stop(); MC_CHECK(r, "stop"); d[w]->start(1); R.clear(); } else { d[w] = std::make_unique<event_dispatcher>(); d[w]->start(1); R.clear(); ids[w].clear(); } }
        else if (op == 4) { bool r = d[w]->remove_handler(1000 + mc::choose(2)); MC_CHECK(!r, "removed an unknown handler"); }
        else if (op == 5) { continue; }
    }
    for (int w = 0; w < ndisp; w++) for (auto& n : N) for (int t : types) { // who is registered? emit everything
        size_t before = calls().size(); bool r = emit(*d[w], n, t, ++k); pass(1); auto c = calls(); c.erase(c.begin(), c.begin() + before);
        std::multiset<int> want, is; for (auto& x : regs[w]) if (x.n == n && x.t == t) want.insert(x.h); for (auto& x : c) { is.insert(x.h); MC_CHECK(x.v == expect(t, k), "wrong values"); }
        MC_CHECK(want == is, "dispatcher %d, arguments %d: %zu handlers invoked, %zu registered", w, t, is.size(), want.size()); MC_CHECK(r == !want.empty(), "emit returned %d", r);
    }
}
void c12_add_race(bool two) { // concurrent registrations get different ids; with another dispatcher being used at the same time
    event_dispatcher d; std::unique_ptr<event_dispatcher> other = std::make_unique<event_dispatcher>(); { mc::Quiet q; d.start(1); }
    unsigned long id[3] = {};
    { std::jthread o([&] { if (two) { reg(*other, "e", 0, 5); reg(*other, "e", 0, 6); other.reset(); } else id[1] = reg(d, "e", 0, 1); });
      id[0] = reg(d, "e", 0, 0); id[2] = reg(d, "e", 0, 2); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (id[i] && id[j]) MC_CHECK(id[i] != id[j], "id %lu handed out twice", id[i]);
    if (!two) { MC_CHECK(d.remove_handler(id[1]), "remove"); MC_CHECK(!d.remove_handler(id[1]), "removed twice"); }
    emit(d, "e", 0, 0); pass(1); MC_CHECK(calls(0).size() == 1 && calls(2).size() == 1 && calls(1).empty(), "wrong handlers");
}
void c12_remove_race(int what) { // concurrent removals: one wins; emission concurrent with removal
    event_dispatcher d; unsigned long id; { mc::Quiet q; d.start(1); id = reg(d, "e", 1, 1); reg(d, "ex", 1, 2); if (what == 2) reg(d, "e", 1, 3); }
    bool r[2] = {}, em = false, em2 = false;
    { std::jthread o([&] { r[1] = what == 1 ? d.remove_event("e") : d.remove_handler(id); mc::log(REMD, 1); }); if (what == 2) { mc::log(EMIT); em = emit(d, "e", 1, 1); } else { r[0] = d.remove_handler(id); } em2 = emit(d, "ex", 1, 2); }
    pass(1);
    MC_CHECK(em2 && calls(2).size() == 1, "handler of another event affected");
    if (what < 2) { MC_CHECK(r[0] + r[1] == 1, "%d removals of one handler succeeded", r[0] + r[1]); MC_CHECK(!emit(d, "e", 1, 1), "still registered"); }
    else { MC_CHECK(em && r[1] && calls(3).size() == 1 && calls(1).size() <= 1, "emission %d removal %d calls %zu %zu", em, r[1], calls(3).size(), calls(1).size()); if (pos(REMD, 1) < pos(EMIT, 0)) MC_CHECK(calls(1).empty(), "removed handler invoked"); }
}
// ---- C13
void c13_order(int H, int E) { // one worker: registration order within an event, emission order between events, no overlap
    event_dispatcher d; { mc::Quiet q; d.start(1); for (int h = 0; h < H; h++) reg(d, "e", 1, h); }
    for (int k = 0; k < E; k++) emit(d, "e", 1, k);
    pass(1); auto c = calls(); MC_CHECK((int)c.size() == H * E, "%zu calls", c.size());
    for (int i = 0; i < H * E; i++) { MC_CHECK(c[i].h == i % H && c[i].v == expect(1, i / H), "call %d: handler %d", i, c[i].h); MC_CHECK(mc::event(c[i].pos + 1).tag == CALLEND && mc::event(c[i].pos + 1).a == c[i].h, "handlers overlap"); }
}
void c13_order_history(int depth) { // registrations and removals in any order: the remaining handlers keep their order, per name and argument list
    event_dispatcher d; d.start(1); std::vector<std::pair<unsigned long, int>> m[3]; int h = 0, e = 0; static const char* N[] = {"e", "f", "e"}; static const int K[] = {1, 1, 3}; // two names; the third list is another argument list of the first name
    for (int i = 0; i < 2; i++) { auto id = reg(d, N[0], K[0], h); m[0].emplace_back(id, h++); }
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(7);
        if (op < 3) { auto id = reg(d, N[op], K[op], h); m[op].emplace_back(id, h++); }
        else if (op == 6) { MC_CHECK(d.remove_event("e") == !(m[0].empty() && m[2].empty()), "remove_event"); m[0].clear(); m[2].clear(); }
        else { auto& v = m[0]; if (v.empty()) return; size_t at = op == 3 ? 0 : op == 4 ? v.size() / 2 : v.size() - 1; MC_CHECK(d.remove_handler(v[at].first), "remove_handler"); v.erase(v.begin() + (long)at); }
        for (int k = 0; k < 3; k++) { size_t b = calls().size(); MC_CHECK(emit(d, N[k], K[k], ++e % 50) == !m[k].empty(), "emit"); pass(1); auto c = calls(); MC_CHECK(c.size() - b == m[k].size(), "%zu calls instead of %zu", c.size() - b, m[k].size()); for (size_t x = 0; x < m[k].size(); x++) MC_CHECK(c[b + x].h == m[k][x].second, "call %zu: handler %d instead of %d: not in registration order", x, c[b + x].h, m[k][x].second); }
    }
}
void c13_order_two_threads() { // events of one thread stay in order whatever another does
    event_dispatcher d; { mc::Quiet q; d.start(1); reg(d, "e", 1, 0); reg(d, "e", 1, 1); }
    { std::jthread o([&] { emit(d, "e", 1, 10); }); emit(d, "e", 1, 1); emit(d, "e", 1, 2); }
    pass(1); for (int h = 0; h < 2; h++) { auto c = calls(h); MC_CHECK(c.size() == 3, "%zu calls", c.size()); long p[3] = {-1, -1, -1}; for (auto& x : c) p[x.v == expect(1, 1) ? 0 : x.v == expect(1, 2) ? 1 : 2] = x.pos; MC_CHECK(p[0] >= 0 && p[0] < p[1] && p[2] >= 0, "emission order violated"); }
}
void c13_stop(int W, bool destroy, bool gate) {
    auto d = std::make_unique<event_dispatcher>(); { mc::Quiet q; d->start(W); }
    d->add_handler<int>("e", [gate](int k) { mc::log(CALL, 0, k); if (gate) mc::await(0); mc::log(CALLEND, k); });
    for (int k = 0; k < 3; k++) d->emit("e", k);
    std::jthread rel; if (gate) rel = std::jthread([] { mc::set(0); });
    mc::log(STOP); if (destroy) d.reset(); else MC_CHECK(d->stop(), "stop"); mc::log(STOPPED);
    if (gate) rel.join();
    MC_CHECK(mc::live_threads() == 1, "threads alive"); size_t n = calls().size();
    for (auto& c : calls()) { long e = pos(CALLEND, c.v); MC_CHECK(e > 0 && e < pos(STOPPED, 0), "stop returned while a handler was running"); }
    if (!destroy) { MC_CHECK(!d->stop(), "second stop"); MC_CHECK(!d->emit("e", 9), "registrations survive stop"); mc::Quiet q; MC_CHECK(d->start(W), "restart"); MC_CHECK(!d->emit("e", 9), "registrations survive restart"); reg(*d, "f", 1, 4); MC_CHECK(emit(*d, "f", 1, 1), "restarted dispatcher"); pass(1); MC_CHECK(calls(4).size() == 1 && calls(0).size() == n, "handlers after restart"); }
    else { pass(1); MC_CHECK(calls().size() == n, "handler after destruction"); }
}
void c13_emit_races_stop(int W) { // an emission concurrent with stop never runs its handler after stop, nor in the next session
    event_dispatcher d; { mc::Quiet q; d.start(W); reg(d, "e", 1, 0); }
    { std::jthread o([&] { emit(d, "e", 1, 1); emit(d, "e", 1, 2); }); MC_CHECK(d.stop(), "stop"); mc::log(STOPPED); }
    for (auto& c : calls()) MC_CHECK(c.pos < pos(STOPPED, 0), "handler called after stop returned");
    size_t n = calls().size(); { mc::Quiet q; MC_CHECK(d.start(W), "restart"); pass(1); MC_CHECK(calls().size() == n, "an event of the previous session is delivered after restart"); }
}
void c13_chaos(int what) { // all operations concurrently, also from inside handlers: no deadlock, no race
    event_dispatcher d; unsigned long id = 0; { mc::Quiet q; d.start(what == 0 ? 2 : 1); id = reg(d, "e", 1, 0); }
    if (what == 0) { std::jthread o([&] { emit(d, "e", 1, 1); d.remove_event("e"); }); d.add_handler<int>("e", [&](int) { d.remove_handler(id); reg(d, "g", 0, 3); }); emit(d, "e", 1, 2); }
    else if (what == 1) { d.add_handler<int>("e", [&](int) { d.remove_event("e"); emit(d, "e", 1, 7); }); std::jthread o([&] { d.stop(); }); emit(d, "e", 1, 2); reg(d, "k", 0, 5); }
    else { std::jthread o([&] { d.stop(); d.start(1); reg(d, "e", 1, 2); emit(d, "e", 1, 3); }), p([&] { emit(d, "e", 1, 1); }); d.remove_handler(id); }
    pass(1); for (auto& c : calls()) MC_CHECK(c.h == 0 || c.h == 2 || c.h == 3, "unknown handler");
}
void c13_lifecycle(int depth) {
    auto d = std::make_unique<event_dispatcher>(); bool running = false; int h = 0; std::vector<int> have; bool queued = false;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(5);
        if (op == 0) { bool r = d->start(1 + mc::choose(2)); MC_CHECK(r == !running, "start returned %d", r); if (r && queued) { pass(1); queued = false; } running = true; }
        else if (op == 1) { bool r = d->stop(); MC_CHECK(r == running, "stop returned %d", r); if (running) { MC_CHECK(mc::live_threads() == 1, "threads alive"); } running = false; have.clear(); }
        else if (op == 2) { reg(*d, "e", 1, h); have.push_back(h++); }
        else if (op == 3) { size_t b = calls().size(); bool r = emit(*d, "e", 1, i); MC_CHECK(r == !have.empty(), "emit returned %d", r); pass(1); auto c = calls(); if (running) { MC_CHECK(c.size() - b == have.size(), "%zu calls for %zu handlers", c.size() - b, have.size()); std::multiset<int> w(have.begin(), have.end()), s; for (size_t k = b; k < c.size(); k++) s.insert(c[k].h); MC_CHECK(w == s, "wrong handlers"); } else { MC_CHECK(c.size() == b, "handler ran on a stopped dispatcher"); queued |= r; } }
        else { d = std::make_unique<event_dispatcher>(); running = false; have.clear(); queued = false; MC_CHECK(mc::live_threads() == 1, "threads alive"); }
    }
}
// ---- many handlers, events, ids and sessions; long names; argument lists that are permutations of one another
const int MANY[] = {1, 2, 3, 8, 15, 17, 32, 33, 64, 65, 100, 128, 129, 255, 257, 300};
void c11_many() { // n handlers spread over m names; every name is emitted once
    event_dispatcher d; d.start(1 + mc::choose(2)); int n = MANY[mc::choose(16)], m = (int[]){1, 2, 7, 1000}[mc::choose(4)]; m = std::min(m, n);
    for (int h = 0; h < n; h++) reg(d, "event" + std::to_string(h % m), 1, h); reg(d, "event", 1, n); reg(d, "event0", 5, n + 1);
    std::vector<int> seen(n + 2); size_t at = 0; 
    for (int e = 0; e <= m; e++) { bool r = emit(d, "event" + std::to_string(e), 1, e); pass(1); MC_CHECK(r == (e < m), "emit of event %d of %d returned %d", e, m, r); for (; at < mc::nevents(); at++) if (mc::event(at).tag == CALL) { int h = (int)mc::event(at).a; MC_CHECK(h < n && h % m == e && mc::event(at).b == expect(1, e), "handler %d is invoked for event %d of %d", h, e, m); seen[h]++; } }
    for (int h = 0; h < n; h++) MC_CHECK(seen[h] == 1, "handler %d of %d is invoked %d times", h, n, seen[h]);
}
void c11_names() { // names of every length that differ in one character only, also in case, prefix or an embedded zero
    static const int len[] = {1, 2, 7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}; int n = len[mc::choose(25)], t = mc::choose(3), kind = mc::choose(7), at = (int[]){0, n / 2, n - 1}[mc::choose(3)];
    std::string a(n, 'k'), b = a; if (kind == 0) b[at] = 'l'; else if (kind == 1) b[at] = 'K'; else if (kind == 2) b[at] = 0; else if (kind == 3) b.pop_back(); else if (kind == 4) b += '\0'; else if (kind == 5) b[at] = (char)('k' ^ 0x80); else b[at] = ' ';
    event_dispatcher d; d.start(1); reg(d, a, t, 1); MC_CHECK(!emit(d, b, t, 4), "event reaches a handler of another name (length %d)", n); reg(d, b, t, 2); bool r = emit(d, a, t, 5); pass(1); auto c = calls(); MC_CHECK(r && c.size() == 1 && c[0].h == 1 && c[0].v == expect(t, 5), "name of length %d: wrong handlers", n); MC_CHECK(d.remove_event(b), "remove_event"); r = emit(d, a, t, 6); pass(1); MC_CHECK(r && calls(1).size() == 2 && calls(2).empty(), "removing one name removes another one of length %d", n); MC_CHECK(!emit(d, b, t, 7), "removed event");
}
template <class... A> struct L {}; // argument lists
template <class A> A val(int k) { if constexpr (std::is_same_v<A, std::string>) return std::string(k, 's'); else if constexpr (std::is_same_v<A, const char*>) return "text"; else if constexpr (std::is_same_v<A, Pt>) return Pt{k, 2}; else if constexpr (std::is_same_v<A, std::vector<int>>) return std::vector<int>(k, k); else return A(k % 2 + (sizeof(A) > 1 ? k : 0)); }
template <class A> int64_t num(const A& a) { if constexpr (std::is_same_v<A, std::string>) return 1000 + (int)a.size(); else if constexpr (std::is_same_v<A, const char*>) return strcmp(a, "text") ? -1 : 50; else if constexpr (std::is_same_v<A, Pt>) return a.x * 100 + a.y; else if constexpr (std::is_same_v<A, std::vector<int>>) return a.size() * 7; else return (int64_t)a; }
template <class... A> struct Sig {
    static int64_t fold(const A&... a) { int64_t r = (int64_t)sizeof...(A); ((r = r * 31 + num(a)), ...); return r; }
    static void reg(event_dispatcher& d, int h) { d.add_handler<A...>("s", [h](A... a) { got(h, fold(a...)); }); }
    template <size_t... I> static bool emit_(event_dispatcher& d, std::index_sequence<I...>) { return d.emit("s", val<A>(3 + (int)I)...); }
    static bool emit(event_dispatcher& d) { return emit_(d, std::index_sequence_for<A...>{}); }
    template <size_t... I> static int64_t want_(std::index_sequence<I...>) { return fold(val<A>(3 + (int)I)...); }
    static int64_t want() { return want_(std::index_sequence_for<A...>{}); }
};
struct Ops { void (*reg)(event_dispatcher&, int); bool (*emit)(event_dispatcher&); int64_t (*want)(); };
template <class... A> Ops ops() { return {Sig<A...>::reg, Sig<A...>::emit, Sig<A...>::want}; }
void c11_lists() { // all argument lists at once, each emitted: exactly its own handlers are called
    using S = std::string; using V = std::vector<int>; using C = const char*;
    static const Ops o[] = {ops<>(), ops<int>(), ops<int, int>(), ops<int, int, int>(), ops<int, int, double>(), ops<int, double, int>(), ops<double, int, int>(), ops<double, double, int>(), ops<int, double>(), ops<double, int>(), ops<double>(), ops<float>(), ops<char>(), ops<signed char>(), ops<unsigned char>(), ops<bool>(), ops<short>(), ops<unsigned short>(), ops<unsigned>(), ops<long>(), ops<long long>(), ops<unsigned long>(), ops<unsigned long long>(), ops<S>(), ops<S, S>(), ops<S, S, S>(), ops<int, S, double>(), ops<S, int, double>(), ops<double, S, int>(), ops<V>(), ops<V, V>(), ops<C>(), ops<C, int>(), ops<Pt>(), ops<Pt, Pt>(), ops<int, int, int, int>(), ops<int, int, int, double>(), ops<double, int, int, int>(), ops<char, int, S, double, bool, long>(), ops<long, bool, double, S, int, char>()};
    constexpr int N = sizeof o / sizeof *o; static_assert(N == 40); event_dispatcher d; d.start(1); int skip = mc::choose(21) * 2 + mc::choose(2), e = mc::choose(20) * 2 + mc::choose(2), order = mc::choose(2);
    for (int i = 0; i < N; i++) { int k = order ? N - 1 - i : i; if (k != skip) o[k].reg(d, k); }
    bool r = o[e].emit(d); pass(1); auto c = calls(); MC_CHECK(r == (e != skip), "emission of argument list %d returned %d", e, r); MC_CHECK(c.size() == (e != skip), "%zu handlers are called for argument list %d", c.size(), e); if (e != skip) MC_CHECK(c[0].h == e && c[0].v == o[e].want(), "argument list %d reaches handler %d with value %ld", e, c[0].h, (long)c[0].v);
}
void fn(int k) { got(6, k); }
void c11_references() { // the types of an argument list do not depend on references and const: T, const T and const T& are the same
    event_dispatcher d; d.start(1); int k = mc::choose(3), n = 0; auto text = [](const std::string& v) { return v == "one, which does not fit into the object itself"; };
    const std::string s = "one, which does not fit into the object itself"; const int five = 5;
    for (int i = 0; i < 4; i++) switch ((i + k) % 4) { // registered in different orders
        case 0: d.add_handler<const std::string&>("x", [&](const std::string& v) { got(0, text(v)); }); break;
        case 1: d.add_handler<std::string>("x", [&](std::string v) { got(1, text(v)); v.clear(); }); break;
        case 2: d.add_handler<const int&, std::string>("x", [&](const int& a, std::string v) { got(2, a == 5 && text(v)); }); break;
        default: d.add_handler<int, const std::string&>("x", [&](int a, const std::string& v) { got(3, a == 5 && text(v)); }); break; }
    switch (mc::choose(5)) {
        case 0: MC_CHECK(d.emit("x", s), "emit"); break;
        case 1: MC_CHECK(d.emit<const std::string&>("x", s), "emit"); break;
        case 2: MC_CHECK(d.emit("x", five, s), "emit"); n = 2; break;
        case 3: MC_CHECK((d.emit<const int&, const std::string&>("x", five, s)), "emit"); n = 2; break;
        default: MC_CHECK((d.emit<int, const std::string&>("x", 5, s)), "emit"); n = 2; break; }
    pass(1); for (int h = 0; h < 4; h++) { auto c = calls(h); MC_CHECK((int)c.size() == (h / 2 * 2 == n) && (c.empty() || c[0].v == 1), "handler %d is not called as it should be", h); }
}
void c11_callables() { // function pointers, functors with state, std::function, move-only captures
    event_dispatcher d; d.start(1); struct Cnt { int n = 0; void operator()(int k) { n += k; got(1, n); } }; std::function<void(int)> f = [](int k) { got(2, k); };
    d.add_handler<int>("x", &fn); d.add_handler<int>("x", Cnt{}); d.add_handler<int>("x", std::move(f)); d.add_handler<int>("x", [](int k) mutable { k++; got(3, k); }); struct Big { int a[100]; } big{}; big.a[99] = 5; d.add_handler<int>("x", [big](int k) { got(4, big.a[99] + k); });
    auto sh = std::make_shared<int>(7); std::weak_ptr<int> w = sh; auto id = d.add_handler<int>("x", [sh](int k) { got(5, *sh + k); }); sh.reset();
    for (int i = 1; i <= 3; i++) { MC_CHECK(d.emit("x", 10), "emit"); pass(1); MC_CHECK(calls(6).back().v == 10 && (int)calls().size() == 6 * i && calls(1).back().v == 10 * i && calls(2).back().v == 10 && calls(3).back().v == 11 && calls(4).back().v == 15 && calls(5).back().v == 17, "values or state after emission %d", i); }
    MC_CHECK(d.remove_handler(id), "remove"); d.emit("x", 0); pass(1); MC_CHECK(w.expired(), "a removed handler lives on");
}
void c12_many() { // n registrations over several names: ids differ, and removing them one by one, in any order, is exact
    event_dispatcher d; d.start(1); int n = MANY[mc::choose(16)], m = (int[]){1, 3, 1000}[mc::choose(3)], stride = (int[]){1, 7, 11, -1}[mc::choose(4)]; m = std::min(m, n); if (stride < 0) stride = n - 1; if (stride < 1 || std::gcd(stride, n) != 1) stride = 1;
    std::vector<unsigned long> id(n); std::set<unsigned long> ids; for (int h = 0; h < n; h++) { id[h] = reg(d, "e" + std::to_string(h % m), 1, h); MC_CHECK(ids.insert(id[h]).second, "id %lu handed out twice", id[h]); }
    std::vector<int> left(m); for (int h = 0; h < n; h++) left[h % m]++;
    for (int i = 0; i < n; i++) { int h = (int)((int64_t)i * stride % n); MC_CHECK(d.remove_handler(id[h]), "handler %d of %d cannot be removed", h, n); MC_CHECK(!d.remove_handler(id[h]), "handler %d of %d is removed twice", h, n); left[h % m]--;
        if (i % 50 == 49 || i + 3 > n) { size_t b = ncalls(); bool r = emit(d, "e" + std::to_string(h % m), 1, 1); pass(1); MC_CHECK(r == (left[h % m] > 0) && ncalls() - b == (size_t)left[h % m], "%zu handlers of %d are called after a removal", ncalls() - b, left[h % m]); } }
    auto next = reg(d, "e", 1, 0); MC_CHECK(ids.insert(next).second, "id %lu handed out twice", next);
}
void c12_names() { // remove_event with n names of which some are prefixes of others
    event_dispatcher d; d.start(1); int n = (int[]){2, 9, 11, 40, 101}[mc::choose(5)], k = mc::choose(4); k = (int[]){0, 1, n / 2, n - 1}[k]; auto name = [](int i) { return i == 0 ? std::string() : std::to_string(i); };
    for (int i = 0; i < n; i++) { reg(d, name(i), 1, i); reg(d, name(i), 3, 1000 + i); } MC_CHECK(d.remove_event(name(k)) && !d.remove_event(name(k)), "remove_event");
    for (int i = 0; i < n; i++) for (int t : {1, 3}) { size_t b = ncalls(); bool r = emit(d, name(i), t, 2); pass(1); MC_CHECK(r == (i != k) && ncalls() - b == (size_t)r, "event %d after removing event %d", i, k); if (r) { size_t x = mc::nevents(); while (mc::event(--x).tag != CALL) {} MC_CHECK(mc::event(x).a == (t == 1 ? i : 1000 + i), "wrong handler"); } }
}
void c13_many() { // long sequences on one worker, also while the worker is busy
    event_dispatcher d; d.start(1); int H = (int[]){1, 3, 17, 130}[mc::choose(4)], E = (int[]){1, 5, 40, 260}[mc::choose(4)]; bool busy = mc::choose(2); if (H * E > 800) return;
    if (busy) { d.add_handler("busy", [] { mc::await(0); }); d.emit("busy"); } for (int h = 0; h < H; h++) d.add_handler<int>("e", [h](int k) { mc::note(CALL, h, k); });
    for (int k = 0; k < E; k++) MC_CHECK(d.emit("e", k), "emit"); mc::set(0); pass(1); int i = 0;
    for (size_t x = 0; x < mc::nevents(); x++) if (mc::event(x).tag == CALL) { MC_CHECK(mc::event(x).a == i % H && mc::event(x).b == i / H, "call %d: handler %ld, event %ld", i, (long)mc::event(x).a, (long)mc::event(x).b); i++; }
    MC_CHECK(i == H * E, "%d calls of %d", i, H * E); size_t b = mc::nevents();
    d.add_handler("busy2", [] { mc::await(1); }); d.emit("busy2"); for (int k = 0; k < E; k++) d.emit("e", k); std::jthread o([] { mc::set(1); }); MC_CHECK(d.stop(), "stop"); size_t calls_now = 0; for (size_t x = b; x < mc::nevents(); x++) calls_now += mc::event(x).tag == CALL; MC_CHECK(calls_now <= (size_t)(H * E), "too many"); o.join();
    b = mc::nevents(); MC_CHECK(!d.emit("e", 0) && d.start(1) && !d.emit("e", 0), "registrations survive"); pass(1); for (size_t x = b; x < mc::nevents(); x++) MC_CHECK(mc::event(x).tag != CALL, "a handler runs after stop");
}
struct Throwy { int h; bool armed; explicit Throwy(int i, bool a) : h(i), armed(a) {} Throwy(Throwy&& o) : h(o.h), armed(o.armed) { if (armed) throw 5; } Throwy(const Throwy& o) : h(o.h), armed(o.armed) { if (armed) throw 5; } void operator()(int k) const { got(h, k); } };
void c12_failing() { // a registration that fails (the handler cannot be copied or moved) registers nothing and disturbs nothing
    event_dispatcher d; d.start(1); std::set<unsigned long> ids; int n = 0; std::vector<std::pair<unsigned long, int>> m;
    for (int i = 0; i < (mc::thorough() ? 5 : 4); i++) {
        int op = mc::choose(5); if (op == 0 || op == 1) { bool threw = false; unsigned long id = 0; try { id = d.add_handler<int>("e", Throwy(n, op == 1)); } catch (int) { threw = true; } MC_CHECK(threw == (op == 1), "registration"); if (!threw) { MC_CHECK(ids.insert(id).second, "id %lu handed out twice", id); m.emplace_back(id, n++); } }
        else if (op == 2) { if (m.empty()) return; MC_CHECK(d.remove_handler(m[0].first), "remove_handler"); m.erase(m.begin()); }
        else if (op == 3) { MC_CHECK(d.remove_event("e") == !m.empty(), "remove_event says %d with %zu handlers", m.empty(), m.size()); m.clear(); }
        else { size_t b = ncalls(); bool r = d.emit("e", 1); pass(1); auto c = calls(); MC_CHECK(r == !m.empty(), "emission says %d with %zu handlers", r, m.size()); MC_CHECK(c.size() - b == m.size(), "%zu handlers run instead of %zu", c.size() - b, m.size()); for (size_t x = 0; x < m.size(); x++) MC_CHECK(c[b + x].h == m[x].second, "wrong handler"); }
    }
    MC_CHECK(d.emit("e", 1) == !m.empty(), "emission"); pass(1);
}
void c11_faults() { // the n-th copy of an emitted value fails: no handler sees a wrong value or an event twice, and later events arrive
    Fuse::left = -1; Fuse::copies = Fuse::live = 0; int H = 1 + mc::choose(3), fuse = 1 + mc::choose(24); { event_dispatcher d; d.start(1); 
    for (int h = 0; h < H; h++) { if (h & 1) d.add_handler<Fragile>("e", [h](const Fragile& x) { got(h, x.v); }); else d.add_handler<Fragile>("e", [h](Fragile x) { got(h, x.v); }); }
    Fuse::set(fuse); bool threw = false, r = false; try { r = d.emit("e", Fragile(5)); } catch (const Blown&) { threw = true; } pass(1); Fuse::set(-1); MC_CHECK(threw || r, "emission refused"); MC_CHECK(calls().size() >= (threw ? 0u : (size_t)H - 1), "one failing copy stops several handlers");
    for (int h = 0; h < H; h++) { auto c = calls(h); MC_CHECK(c.size() <= 1 && (c.empty() || c[0].v == 5), "handler %d called %zu times", h, c.size()); }
    size_t b = ncalls(); MC_CHECK(d.emit("e", Fragile(6)), "emission refused"); pass(1); auto c = calls(); MC_CHECK(c.size() - b == (size_t)H, "%zu handlers of %d after a failure", c.size() - b, H); for (int h = 0; h < H; h++) MC_CHECK(c[b + h].h == h && c[b + h].v == 6, "handler or value"); }
    MC_CHECK(Fuse::live == 0, "%d values leaked", Fuse::live);
}
// ---- exhaustion: memory runs out, or a thread cannot be created, while an operation executes
void c12_exhausted() { // a registration either is complete or has not happened
    event_dispatcher d; d.start(1); int pre = mc::choose(5), which = mc::choose(3), k = 1 + mc::choose(16), removed = mc::choose(2); std::string name(40, 'e'), name2(40, 'f'); std::set<unsigned long> ids; std::vector<std::pair<unsigned long, int>> m; ids.insert(d.add_handler<int>(name2, [](int v) { got(50, v); }));
    for (int i = 0; i < pre; i++) { auto id = d.add_handler<int>(name, [i](int v) { got(i, v); }); MC_CHECK(ids.insert(id).second, "id"); m.emplace_back(id, i); } if (removed && pre) { MC_CHECK(d.remove_handler(m[0].first), "remove"); m.erase(m.begin()); }
    bool threw = false; unsigned long id = 0; std::string big(100, 'x'); int64_t want = 7; mc::fault_alloc(k); try { if (which == 0) id = d.add_handler<int>(name, [](int v) { got(40, v); }); else if (which == 1) id = d.add_handler<int>(name, [big](int v) { got(40, v + int(big.size()) - 100); }); else { id = d.add_handler<double>(name, [](double) { got(41, 1); }); } } catch (const std::bad_alloc&) { threw = true; } mc::fault_alloc(0); (void)want;
    if (!threw) { MC_CHECK(ids.insert(id).second, "id %lu handed out twice", id); if (which < 2) m.emplace_back(id, 40); }
    size_t b = ncalls(); MC_CHECK(d.emit(name, 7) == !m.empty(), "emission says %d with %zu handlers after a registration that %s", m.empty(), m.size(), threw ? "failed" : "succeeded"); pass(1); auto c = calls(); MC_CHECK(c.size() - b == m.size(), "%zu handlers run instead of %zu", c.size() - b, m.size()); for (size_t x = 0; x < m.size(); x++) MC_CHECK(c[b + x].h == m[x].second && c[b + x].v == 7, "wrong handler");
    if (which == 2) MC_CHECK(d.emit(name, 1.5) == !threw, "emission of the other argument list"); MC_CHECK(d.emit(name2, 3), "another event"); auto again = d.add_handler<int>(name, [](int v) { got(42, v); }); MC_CHECK(ids.insert(again).second, "id %lu handed out twice", again); for (auto& x : m) MC_CHECK(d.remove_handler(x.first), "remove"); MC_CHECK(d.remove_handler(again), "remove"); MC_CHECK(!d.emit(name, 7), "no handler is left"); if (which == 2 && !threw) MC_CHECK(d.remove_handler(id), "remove"); MC_CHECK(!d.remove_event(name) && d.remove_event(name2), "remove_event");
}
void c11_exhausted() { // an emission that fails delivers to no handler twice and nothing wrong; the next one is complete
    event_dispatcher d; d.start(1); int H = 1 + mc::choose(3), k = 1 + mc::choose(40), kind = mc::choose(3); std::string big(100, 'x'); for (int h = 0; h < H; h++) { if (kind == 0) d.add_handler<int>("e", [h](int v) { got(h, v); }); else if (kind == 1) d.add_handler<std::string>("e", [h](const std::string& v) { got(h, (int64_t)v.size()); }); else d.add_handler<std::string>("e", [h, big](std::string v) { got(h, int64_t(v.size() + big.size()) - 100); }); }
    auto send = [&] { return kind == 0 ? d.emit("e", 100) : d.emit("e", big); }; bool threw = false, r = false; mc::fault_alloc(k); try { r = send(); } catch (const std::bad_alloc&) { threw = true; } mc::fault_alloc(0); pass(1); MC_CHECK(threw || r, "refused");
    for (int h = 0; h < H; h++) { auto c = calls(h); MC_CHECK(c.size() <= 1 && (c.empty() || c[0].v == 100), "handler %d called %zu times", h, c.size()); MC_CHECK(threw || c.size() == 1, "handler %d not called although the emission reports success", h); }
    size_t b = ncalls(); MC_CHECK(send(), "refused"); pass(1); auto c = calls(); MC_CHECK(c.size() - b == (size_t)H, "%zu handlers of %d after a failure", c.size() - b, H); for (int h = 0; h < H; h++) MC_CHECK(c[b + h].h == h && c[b + h].v == 100, "handler or value");
}
void c13_exhausted() { // start fails: not started, and it can be started again
    int W = 1 + mc::choose(3), n = 1 + mc::choose(12); bool threads = mc::choose(2); event_dispatcher d; reg(d, "e", 1, 0); bool failed = false; threads ? mc::fault_thread(n) : mc::fault_alloc(n); try { MC_CHECK(d.start(W), "start"); } catch (const std::system_error&) { failed = threads; } catch (const std::bad_alloc&) { failed = !threads; } mc::fault_thread(0); mc::fault_alloc(0);
    if (threads) MC_CHECK(failed == (n <= W), "start reports success although its thread %d could not be created", n); if (failed) { MC_CHECK(mc::live_threads() == 1, "threads left by a failed start"); bool em = emit(d, "e", 1, 1); MC_CHECK(em, "the handler is gone"); if (mc::choose(2)) return; MC_CHECK(d.start(W), "start after a failed one is refused"); }
    MC_CHECK(mc::live_threads() == W + 1 && !d.start(1), "threads"); MC_CHECK(emit(d, "e", 1, 2), "emission"); pass(1); auto c = calls(0); MC_CHECK(c.size() == (failed ? 2u : 1u) && c.back().v == expect(1, 2), "%zu deliveries", c.size()); MC_CHECK(d.stop() && mc::live_threads() == 1, "stop");
}
struct Opt { bool seq = false; bool delay = false; int qs = 0, ts = 1; };
// ---- two dispatchers: what is done to one leaves the other alone
void c13_two() { // one is stopped while both deliver
    event_dispatcher a, b; { mc::Quiet q; a.start(1); b.start(1); reg(a, "e", 1, 0); reg(b, "e", 1, 4); } for (int i = 1; i <= 2; i++) { MC_CHECK(emit(a, "e", 1, i) && emit(b, "e", 1, i), "emit"); } MC_CHECK(a.stop(), "stop"); mc::log(STOPPED); long stopped = pos(STOPPED, 0);
    MC_CHECK(!emit(a, "e", 1, 3) && emit(b, "e", 1, 3), "emission after one of two dispatchers is stopped"); pass(1); auto c = calls(4); MC_CHECK(c.size() == 3, "%zu of 3 deliveries of the other dispatcher", c.size()); for (int i = 0; i < 3; i++) MC_CHECK(c[i].v == expect(1, i + 1), "order"); for (auto& x : calls(0)) MC_CHECK(x.pos < stopped, "handler called after stop");
}
void c13_two_histories(int depth) {
    event_dispatcher d[2]; bool run[2] = {}; std::vector<int> have[2]; int queued[2] = {}, h = 0; std::vector<int> owner;
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(2), op = mc::choose(4); size_t b = calls().size(); int more = 0;
        if (op == 0) { MC_CHECK(d[k].start(1) == !run[k], "start"); run[k] = true; more = queued[k]; queued[k] = 0; pass(1); }
        else if (op == 1) { MC_CHECK(d[k].stop() == run[k], "stop"); have[k].clear(); if (run[k]) queued[k] = 0; run[k] = false; }
        else if (op == 2) { reg(d[k], "e", 1, h); have[k].push_back(h++); owner.push_back(k); }
        else { bool r = emit(d[k], "e", 1, i); MC_CHECK(r == !have[k].empty(), "emit returned %d", r); pass(1); if (run[k]) more = (int)have[k].size(); else queued[k] += (int)have[k].size(); }
        auto c = calls(); MC_CHECK(c.size() - b == (size_t)more, "%zu calls after operation %d on dispatcher %d, expected %d", c.size() - b, op, k, more); for (size_t x = b; x < c.size(); x++) MC_CHECK(owner.at(c[x].h) == k, "handler of the other dispatcher"); MC_CHECK(mc::live_threads() == 1 + run[0] + run[1], "workers");
    }
}
template <class F> void add(const char* name, F fn, int qb, int tb, Opt o = {}) { mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = 3; s.seq = o.seq; s.delay = o.delay; s.quick = {qb, 0, o.qs, 120}; s.thorough = {tb, 0, o.ts, 150}; mc::add(s); }
}
void register_scenarios() {
    add("C11/pairs", c11_pairs, 0, 0, {.seq = true});
    add("C11/two-handlers", c11_two_handlers, 0, 0, {.seq = true});
    add("C11/history", [] { c11_history(mc::thorough() ? 5 : 4, 2, 2); }, 0, 0, {.seq = true});
    add("C11/history-wide", [] { c11_history(mc::thorough() ? 4 : 3, 3, 3); }, 0, 0, {.seq = true});
    add("C11/emitters-w1-2", [] { c11_emitters(1, 2, 1); }, 3, 9);
    add("C11/emitters-w2-2", [] { c11_emitters(2, 2, 1); }, 2, 9);
    add("C11/emitters-w2-2x2", [] { c11_emitters(2, 2, 2); }, 2, 9, {.delay = true});
    add("C11/emitters-w1-3", [] { c11_emitters(1, 3, 1); }, 2, 9);
    add("C11/args", c11_args, 3, 9);
    add("C11/reentrant", c11_reentrant, 4, 9);
    add("C11/throwing", c11_throwing, 2, 9);
    add("C11/add-races-emit", c11_add_race, 3, 9);
    add("C12/sequences", [] { c12_sequence(mc::thorough() ? 4 : 3, 4, 1, 6); }, 0, 0, {.seq = true});
    add("C12/sequences-deep", [] { c12_sequence(mc::thorough() ? 6 : 5, 2, 1, 4); }, 0, 0, {.seq = true});
    add("C12/two-dispatchers", [] { c12_sequence(mc::thorough() ? 5 : 4, 2, 2, 4); }, 0, 0, {.seq = true});
    add("C12/add-add", [] { c12_add_race(false); }, 4, 9);
    add("C12/add-other-dispatcher", [] { c12_add_race(true); }, 4, 9);
    add("C12/remove-remove", [] { c12_remove_race(0); }, 4, 9);
    add("C12/remove-removeevent", [] { c12_remove_race(1); }, 4, 9);
    add("C12/emit-remove", [] { c12_remove_race(2); }, 3, 9);
    add("C13/order-2x2", [] { c13_order(2, 2); }, 4, 9);
    add("C13/order-3x1", [] { c13_order(3, 1); }, 4, 9);
    add("C13/order-history", [] { c13_order_history(mc::thorough() ? 6 : 5); }, 0, 0, {.seq = true});
    add("C13/order-two-emitters", c13_order_two_threads, 3, 9);
    add("C13/stop-w1", [] { c13_stop(1, false, false); }, 4, 9);
    add("C13/stop-w1-gated", [] { c13_stop(1, false, true); }, 3, 9);
    add("C13/stop-w2-gated", [] { c13_stop(2, false, true); }, 3, 9);
    add("C13/destroy-w2", [] { c13_stop(2, true, false); }, 3, 9);
    add("C13/emit-races-stop-w1", [] { c13_emit_races_stop(1); }, 4, 9);
    add("C13/emit-races-stop-w2", [] { c13_emit_races_stop(2); }, 3, 9);
    add("C13/chaos-handlers", [] { c13_chaos(0); }, 2, 9);
    add("C13/chaos-stop", [] { c13_chaos(1); }, 4, 9);
    add("C13/chaos-restart", [] { c13_chaos(2); }, 3, 9);
    add("C13/lifecycle", [] { c13_lifecycle(mc::thorough() ? 7 : 5); }, 0, 0, {.seq = true});
    add("C11/many", c11_many, 0, 0, {.seq = true});
    add("C11/names", c11_names, 0, 0, {.seq = true});
    add("C11/lists", c11_lists, 0, 0, {.seq = true});
    add("C11/callables", c11_callables, 1, 9);
    add("C11/references", c11_references, 1, 9);
    add("C11/no-memory", c11_exhausted, 0, 0, {.seq = true});
    add("C12/no-memory", c12_exhausted, 0, 0, {.seq = true});
    add("C13/no-threads", c13_exhausted, 0, 0, {.seq = true});
    add("C11/faults", c11_faults, 0, 0, {.seq = true});
    add("C12/failing-registration", c12_failing, 0, 0, {.seq = true});
    add("C12/many", c12_many, 0, 0, {.seq = true});
    add("C12/names", c12_names, 0, 0, {.seq = true});
    add("C13/many", c13_many, 0, 0, {.seq = true});
    add("C13/two-dispatchers", c13_two, 2, 9);
    add("C13/two-histories", [] { c13_two_histories(mc::thorough() ? 7 : 6); }, 0, 0, {.seq = true});
}
