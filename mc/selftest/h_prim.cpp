// Self-test of the runtime: every synchronisation primitive the code under test might be rewritten with. P/x* must report a violation, all the others must pass.
#include <atomic>
#include <memory>
#include <barrier>
#include <condition_variable>
#include <future>
#include <latch>
#include <mutex>
#include <semaphore>
#include <shared_mutex>
#include <stop_token>
#include <thread>
#include <semaphore.h>
#include <pthread.h>
#include <poll.h>
#include <unistd.h>
#include <vector>
#include "mc.h"
using namespace std::chrono_literals;
static int X __attribute__((unused));
struct Cnt { int v = 0; __attribute__((noinline)) void inc() { v++; } };
template <class L> void lockt() { L l; Cnt c; auto f = [&] { for (int i = 0; i < 2; i++) { std::lock_guard<L> g(l); c.inc(); } }; std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(c.v == 4, "count %d", c.v); }
struct Spin { std::atomic_flag f; void lock() { while (f.test_and_set(std::memory_order_acquire)) ; } void unlock() { f.clear(std::memory_order_release); } };
struct SpinY { std::atomic_flag f; void lock() { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); } void unlock() { f.clear(std::memory_order_release); } };
struct SpinW { std::atomic<bool> f{false}; void lock() { bool e = false; while (!f.compare_exchange_weak(e, true)) { f.wait(true); e = false; } } void unlock() { f = false; f.notify_one(); } };
struct Sem { sem_t s; Sem() { sem_init(&s, 0, 1); } ~Sem() { sem_destroy(&s); } void lock() { while (sem_wait(&s)) ; } void unlock() { sem_post(&s); } };
struct BSem { std::binary_semaphore s{1}; void lock() { s.acquire(); } void unlock() { s.release(); } };
struct PSpin { pthread_spinlock_t s; PSpin() { pthread_spin_init(&s, 0); } void lock() { pthread_spin_lock(&s); } void unlock() { pthread_spin_unlock(&s); } };
struct TryLoop { std::mutex m; void lock() { while (!m.try_lock()) std::this_thread::yield(); } void unlock() { m.unlock(); } };
struct TryFor { std::timed_mutex m; void lock() { while (!m.try_lock_for(1ms)) ; } void unlock() { m.unlock(); } };
struct STM { std::shared_timed_mutex m; void lock() { while (!m.try_lock_for(1ms)) ; } void unlock() { m.unlock(); } };
void flagspin() { std::atomic<bool> go{false}; std::thread a([&] { while (!go) ; }); go = true; a.join(); }
void flagsleep() { std::atomic<bool> go{false}; std::thread a([&] { while (!go) std::this_thread::sleep_for(1ms); }); std::this_thread::sleep_for(3ms); go = true; a.join(); }
void pipet() { int p[2]; MC_CHECK(pipe(p) == 0, "pipe"); char c = 0; std::thread a([&] { char d; MC_CHECK(read(p[0], &d, 1) == 1, "read"); c = d; }); char k = 7; MC_CHECK(write(p[1], &k, 1) == 1, "write"); a.join(); MC_CHECK(c == 7, "c"); close(p[0]); close(p[1]); }
void pollt() { auto t = std::chrono::steady_clock::now(); poll(nullptr, 0, 5); MC_CHECK(std::chrono::steady_clock::now() - t >= 5ms, "poll"); }
void asynct() { auto f = std::async(std::launch::async, [] { return 3; }); MC_CHECK(f.get() == 3, "x"); }
void barriert() { Cnt c; std::barrier b(2, [&]() noexcept { c.inc(); }); std::thread a([&] { b.arrive_and_wait(); b.arrive_and_wait(); }); b.arrive_and_wait(); b.arrive_and_wait(); a.join(); MC_CHECK(c.v == 2, "c"); }
void pbarrier() { pthread_barrier_t b; pthread_barrier_init(&b, nullptr, 2); std::thread a([&] { pthread_barrier_wait(&b); }); pthread_barrier_wait(&b); a.join(); pthread_barrier_destroy(&b); }
void oncet() { std::once_flag f; Cnt c; auto g = [&] { std::call_once(f, [&] { c.inc(); }); }; std::thread a(g), b(g); a.join(); b.join(); MC_CHECK(c.v == 1, "c"); }
void stopt() { Cnt c; { std::jthread a([&](std::stop_token s) { std::mutex m; std::condition_variable_any cv; std::unique_lock l(m); cv.wait(l, s, [] { return false; }); c.inc(); }); } MC_CHECK(c.v == 1, "c"); }
void stopcb() { std::stop_source s; Cnt c; std::thread a([&] { std::stop_callback cb(s.get_token(), [&] { c.inc(); }); }); s.request_stop(); a.join(); }
void shared() { std::shared_mutex m; Cnt c; auto r = [&] { std::shared_lock l(m); }; std::thread a(r), b([&] { std::unique_lock l(m); c.inc(); }); r(); a.join(); b.join(); }
void semtimed() { std::counting_semaphore<4> s(0); MC_CHECK(!s.try_acquire_for(5ms), "acq"); std::thread a([&] { s.release(2); }); s.acquire(); s.acquire(); a.join(); }
void semt_timed() { sem_t s; sem_init(&s, 0, 0); struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 5000000; MC_CHECK(sem_timedwait(&s, &ts) == -1, "acq"); int v; sem_getvalue(&s, &v); MC_CHECK(v == 0, "v"); MC_CHECK(sem_trywait(&s) == -1, "try"); }
void recur() { std::recursive_mutex m; Cnt c; auto f = [&] { m.lock(); m.lock(); c.inc(); m.unlock(); m.unlock(); }; std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(c.v == 2, "c"); }
void recurt() { std::recursive_timed_mutex m; Cnt c; auto f = [&] { m.lock(); MC_CHECK(m.try_lock_for(1ms), "t"); c.inc(); m.unlock(); m.unlock(); }; std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(c.v == 2, "c"); }
void scoped2() { std::mutex x, y; Cnt c; std::thread a([&] { std::scoped_lock l(x, y); c.inc(); }), b([&] { std::scoped_lock l(y, x); c.inc(); }); a.join(); b.join(); MC_CHECK(c.v == 2, "c"); }
void tls() { static thread_local int v = 0; Cnt c; auto f = [&] { v++; if (v == 1) { static std::mutex m; std::lock_guard g(m); c.inc(); } }; std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(c.v == 2, "c"); }
struct D { ~D() { X++; } };
void tlsdtor() { std::thread a([] { static thread_local D d; (void)&d; }); a.join(); }
void atomwait() { std::atomic<int> v{0}; std::thread a([&] { v.wait(0); v = 2; v.notify_all(); }); v = 1; v.notify_one(); v.wait(1); a.join(); MC_CHECK(v == 2, "v"); }
void atomsp() { std::atomic<std::shared_ptr<int>> p{std::make_shared<int>(1)}; std::thread a([&] { p.store(std::make_shared<int>(2)); }), b([&] { auto x = p.load(); MC_CHECK(*x == 1 || *x == 2, "x"); }); a.join(); b.join(); }
void ptask() { std::packaged_task<int()> t([] { return 5; }); auto f = t.get_future().share(); std::thread a(std::move(t)); MC_CHECK(f.get() == 5, "f"); a.join(); }
void sysclk() { std::mutex m; std::condition_variable cv; std::unique_lock l(m); auto t = std::chrono::system_clock::now(); cv.wait_until(l, t + 5ms, [] { return false; }); MC_CHECK(std::chrono::system_clock::now() >= t + 5ms, "t"); }
template <class F> void add(const char* name, F fn, int qb, int tb) { mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = 2; s.quick = {qb, 0, 0, 20}; s.thorough = {tb, 0, 0, 20}; mc::add(s); }
void yieldsleep() { std::atomic<bool> go{false}; std::thread a([&] { while (!go) std::this_thread::yield(); }); std::this_thread::sleep_for(3ms); go = true; a.join(); }
void spinsleep() { std::atomic<bool> go{false}; std::thread a([&] { while (!go) ; }); std::this_thread::sleep_for(30ms); go = true; a.join(); }
void spin2() { std::atomic<bool> go{false}, b{false}; std::thread a([&] { while (!go && !b) ; }); std::this_thread::sleep_for(30ms); b = true; a.join(); }
void caslp() { std::atomic<int> v{0}; auto f = [&](int me) { for (int i = 0; i < 2; i++) { int e = me; while (!v.compare_exchange_strong(e, 1 - me)) e = me; } }; std::thread a(f, 0), b(f, 1); a.join(); b.join(); MC_CHECK(v == 0, "v"); }
void holdsleep() { Spin s; Cnt c; auto f = [&] { std::lock_guard l(s); std::this_thread::sleep_for(20ms); c.inc(); }; std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(c.v == 2, "c"); }
struct TTAS { std::atomic<bool> f{false}; void lock() { while (f.exchange(true, std::memory_order_acquire)) while (f.load(std::memory_order_relaxed)) ; } void unlock() { f.store(false, std::memory_order_release); } };
struct Ticket { std::atomic<int> n{0}, s{0}; void lock() { int m = n++; while (s != m) ; } void unlock() { s++; } };
void livelock() { std::atomic<bool> go{false}; while (!go) ; }
void spinrace() { std::atomic<bool> go{false}; Cnt c; std::thread a([&] { while (!go.load(std::memory_order_relaxed)) ; c.inc(); }); c.inc(); go.store(true, std::memory_order_relaxed); a.join(); }
struct TrySpin { std::mutex m; void lock() { while (!m.try_lock()) ; } void unlock() { m.unlock(); } };
struct TryCv { std::mutex m; void lock() { std::unique_lock<std::mutex> l(m, std::defer_lock); while (!l.try_lock()) std::this_thread::sleep_for(1us); l.release(); } void unlock() { m.unlock(); } };
void stmr() { std::shared_timed_mutex m; m.lock_shared(); std::thread a([&] { MC_CHECK(!m.try_lock_for(1ms), "w"); MC_CHECK(m.try_lock_shared_for(1ms), "r"); m.unlock_shared(); }); a.join(); m.unlock_shared(); m.lock(); std::thread b([&] { MC_CHECK(!m.try_lock_shared_for(1ms), "r2"); }); b.join(); m.unlock(); }
void recurcv() { std::recursive_mutex m; std::condition_variable_any cv; bool go = false; std::thread a([&] { std::unique_lock l(m); cv.wait(l, [&] { return go; }); }); { std::lock_guard l(m); std::lock_guard l2(m); go = true; } cv.notify_one(); a.join(); }
void rendezvous() { std::atomic<int> n{4}; auto f = [&] { n--; while (n) std::this_thread::yield(); }; std::thread a(f), b(f), c(f); f(); a.join(); b.join(); c.join(); }
void rendezvous2() { std::atomic<int> n{4}; auto f = [&] { n--; while (n) ; }; std::thread a(f), b(f), c(f); f(); a.join(); b.join(); c.join(); }
void register_scenarios()
{
    add("P/yieldsleep", yieldsleep, 2, 9); add("P/spinsleep", spinsleep, 2, 9); add("P/spin2", spin2, 2, 9); add("P/caslp", caslp, 2, 9); add("P/holdsleep", holdsleep, 2, 9); add("P/ttas", lockt<TTAS>, 2, 9); add("P/ticket", lockt<Ticket>, 2, 9); add("P/xlivelock", livelock, 2, 9); add("P/xspinrace", spinrace, 2, 9);


    add("P/tryspin", lockt<TrySpin>, 2, 9); add("P/trycv", lockt<TryCv>, 2, 9); add("P/stmr", stmr, 2, 9); add("P/recurcv", recurcv, 2, 9); add("P/rendezvous", rendezvous, 1, 2); add("P/rendezvous2", rendezvous2, 1, 2); add("P/mutex", lockt<std::mutex>, 2, 9); add("P/spin", lockt<Spin>, 2, 9); add("P/spiny", lockt<SpinY>, 2, 9); add("P/spinw", lockt<SpinW>, 2, 9);
    add("P/sem_t", lockt<Sem>, 2, 9); add("P/bsem", lockt<BSem>, 2, 9); add("P/pspin", lockt<PSpin>, 2, 9); add("P/tryloop", lockt<TryLoop>, 2, 9); add("P/tryfor", lockt<TryFor>, 2, 9); add("P/stm", lockt<STM>, 2, 9);
    add("P/flagspin", flagspin, 2, 9); add("P/flagsleep", flagsleep, 2, 9); add("P/poll", pollt, 2, 9); add("P/async", asynct, 2, 9); add("P/barrier", barriert, 2, 9); add("P/pbarrier", pbarrier, 2, 9); add("P/once", oncet, 2, 9); add("P/stop", stopt, 2, 9); add("P/stopcb", stopcb, 2, 9); add("P/shared", shared, 2, 9); add("P/semtimed", semtimed, 2, 9); add("P/semt_timed", semt_timed, 2, 9); add("P/recur", recur, 2, 9); add("P/recurt", recurt, 2, 9); add("P/scoped2", scoped2, 2, 9); add("P/tls", tls, 2, 9); add("P/tlsdtor", tlsdtor, 2, 9); add("P/atomwait", atomwait, 2, 9); add("P/atomsp", atomsp, 2, 9); add("P/ptask", ptask, 2, 9); add("P/sysclk", sysclk, 2, 9);
}
