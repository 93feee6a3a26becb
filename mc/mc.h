// Harness-side API of the model-checking runtime (see DESIGN.md, "The mc runtime").
// A harness scenario is an ordinary function; the runtime executes it once per explored schedule,
// on controlled fibers, with virtual time, and enumerates all schedules within the configured bounds.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Bounds {
    int preempt = 2;      // preemptive context switches per execution
    int tdev = 0;         // timing deviations: timer fires while others run, late wake-up, clock tick
    int sdev = 0;         // spurious wake-ups of condition waits
    double seconds = 60;  // wall-clock cap of the scenario (reported if hit; never a verdict)
};

struct Scenario {
    std::string name;
    std::function<void()> fn;
    Bounds quick, thorough;
    int nprocs = 2;                    // what the "machine" reports as hardware concurrency
    std::vector<int64_t> late{1000000};// possible wake-up overshoots in ns (each costs one tdev)
    int64_t tick = 0;                  // if >0 every clock read advances the clock by this much
    std::vector<int64_t> jumps{};      // before every clock read time may pass by one of these (ns; costs one tdev each)
    int64_t step_limit = 40000;        // synchronisation steps before an execution is called non-terminating
    bool seq = false;                  // sequential scenario: only mc::choose is explored, the schedule is the default one
    bool idle_time = false;            // timing deviations only delay the end of a sleep, time never passes while a thread can run
    bool delay = false;                // delay bounding: every departure from the round-robin schedule costs one unit
};

// Registration: called from static initialisers or from the harness' register_scenarios().
void add(Scenario s);

// ---- inside an execution -------------------------------------------------------------------------
struct Event { int tid; int tag; int64_t t; int64_t a, b, c; };

constexpr int LATE = -1;                                // tag of the runtime's own events: time passed from a to b and what became due in between could not run
bool late_jump(int64_t from, int64_t to);              // is `to` where such events, one after another, take something that was due at `from`?
int choose(int n, const char* what = "");              // explored exhaustively, free of cost
void log(int tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);   // totally ordered event (scheduling point)
void note(int tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);  // same record, but not a scheduling point
size_t nevents();
const Event& event(size_t i);
int64_t now();                                         // virtual nanoseconds since the execution began
int tid();
void set(int flag);                                    // external flag (releases awaiting threads)
bool is_set(int flag);
void await(int flag);                                  // block until the flag is set
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(uint64_t v);                              // mixes v into the outcome signature of this execution
void step_comment(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int thread_count();                                    // threads created so far (incl. main)
int live_threads();                                    // threads not yet terminated (incl. main)
int fault_alloc(int n);                                // the n-th operator new this thread calls from now on throws std::bad_alloc (0: none); yields what was left of the last request
int fault_thread(int n);                               // the n-th thread this thread creates from now on cannot be created (EAGAIN; 0: none); yields what was left of the last request
void deliver_signal(int sig);                          // run the installed handler on this thread
void arm_signal(int sig);                               // from now on this signal may interrupt the calling thread, once, at any scheduling point or in any blocking call (at the latest when the thread ends)
void deliver_armed();                                   // what has not come yet comes now
bool signal_installed(int sig);
void expect_deadlock();                                // the oracle accepts that this execution ends blocked ...
void at_end(void (*f)(void*), void* a);                // ... and judges the events at its end, whichever way it ended
void set_random(uint32_t (*gen)());                    // source behind std::random_device
bool thorough();
void quiet(bool on);                                   // set-up phases: while on, the default schedule is followed
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

} // namespace mc
void register_scenarios();
