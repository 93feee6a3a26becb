#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run `python3 tools/props.py` to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
I='sdk/include/teiacare/sdk/'; S='sdk/src/'

# ---------------------------------------------------------------- thread pool
prop('C01','Thread pool: every accepted task runs exactly once and delivers its outcome',
 'While a thread pool keeps running, every callable submitted to it, from any number of threads, is invoked exactly once on a worker thread with copies of the supplied arguments, and the future returned for it yields exactly that invocation\'s return value or exception. No interleaving of submitters and workers loses, duplicates, cross-wires or stalls a task, and the submission itself is free of data races. A submission that fails (copying the callable or an argument throws, or memory runs out) submits nothing and leaves every other task unaffected.',
 ['schedules','inputs'],'all interleavings (up to the stated preemption bound) of 1-3 submitting threads with 1-2 tasks each and 1-3 workers; tasks returning values, returning void or throwing',
 'The tests submit from one thread and see whichever interleaving the OS picks; a lost wake-up or a doubly executed task needs one particular switch between enqueue, notify and wait.',
 [I+'thread_pool.hpp',S+'thread_pool.cpp',I+'task.hpp'],
 [('run/enqueue_task: queue under mutex, then notify','thread_pool.cpp enqueue_task'),('worker loop: predicate wait, pop one, run unlocked','thread_pool.cpp worker')],
 ['futures returned by run()','side effects of tasks'])
prop('C02','Thread pool stop: waits for running tasks, discards the rest, never hangs',
 'Stopping or destroying a running thread pool returns only after every task that has begun executing has finished, always terminates once those tasks do, and no task executes between its return and a later start. Every task that was submitted before the stop and had not begun is discarded: it never executes, and its future becomes ready reporting a broken promise instead of leaving its waiter blocked.',
 ['schedules','histories'],'all interleavings of stop/destruction with workers, running tasks and concurrent submitters, 1-2 workers and up to 3 tasks',
 'Whether a worker is between its predicate check and its wait when stop is called is decided by the scheduler; the tests exercise one timing per run.',
 [S+'thread_pool.cpp',I+'thread_pool.hpp'],
 [('stop: clear flag, drop queue under mutex, notify all, join','thread_pool.cpp stop')],
 ['return of stop()','futures','task side effects'])
prop('C03','Thread pool start/stop: one winner, honest state, restartable, clamped size',
 'When several threads call start on a stopped pool exactly one call returns true, when several call stop on a running pool exactly one returns true, and calls that find the pool already in the requested state return false and change nothing. After a start returns true the pool reports running and has exactly the requested number of workers clamped to between one and the hardware concurrency; after a stop it reports not running and zero workers, and it can be started again and behaves as a new pool. A start that fails because a thread cannot be created or memory runs out throws and leaves the pool stopped and as it was: what was submitted runs once a later start succeeds.',
 ['schedules','histories','configurations'],'all start/stop histories up to depth 5 from one thread, all interleavings of two or three threads calling start/stop, all requested sizes 0..5 under hardware concurrency 1..3',
 'Tests call start/stop from a single thread in a fixed order and on one machine size.',
 [S+'thread_pool.cpp',I+'thread_pool.hpp'],
 [('running mutex serialises start and stop','thread_pool.cpp start/stop'),('clamp of the thread count','thread_pool.cpp start')])
prop('C04','Thread pool ordering and parallelism',
 'Tasks begin in the order in which they were submitted: with one worker they execute strictly one after another in submission order, and a task submitted by a thread after another submission has returned never begins before it. A pool with N workers executes up to N tasks simultaneously, so N tasks that wait for one another always complete, and tasks submitted before the pool is started run once it is.',
 ['schedules','histories'],'all interleavings of 1-2 submitters of up to 3 tasks onto 1-3 workers, including mutually dependent tasks and submissions before start',
 'An order inversion or a worker that sleeps while work is queued needs a specific interleaving of notify and wait; tests check totals only.',
 [S+'thread_pool.cpp',I+'thread_pool.hpp'],
 [('FIFO queue, one notification per task','thread_pool.cpp enqueue_task/worker')])
# ---------------------------------------------------------------- blocking queue
prop('C05','Blocking queue is a linearizable bounded FIFO',
 'Under any concurrent use of its blocking and non-blocking operations the queue behaves as some sequential bounded FIFO consistent with real-time order: items come out exactly once, unmodified, in insertion order, the size never exceeds the capacity, which is the requested one (zero counts as one), a try-push fails exactly when the queue is full and a try-pop fails exactly when it is empty. An operation in which copying an item throws or memory runs out leaves the queue as it was, and its lock free.',
 ['schedules','histories','inputs'],'all interleavings of 2-3 threads with 1-3 operations each over capacities 0..3, and all sequential operation sequences up to a fixed depth',
 'Tests run whole-throughput scenarios on one OS-chosen schedule and compare totals; linearizability quantifies over all histories.',
 [I+'blocking_queue.hpp'],[('all operations under one mutex','blocking_queue.hpp'),('capacity test before insertion','blocking_queue.hpp push/try_push')])
prop('C06','Blocking queue never loses a wake-up',
 'A blocked push returns once there is room for its item and a blocked pop returns once there is an item for it: in every interleaving of producers and consumers in which the total numbers of pushes and pops can be matched within the capacity, all operations complete. In particular no thread stays blocked while the queue offers what it waits for, with any number of producers and consumers waiting at once and mixing blocking and non-blocking calls.',
 ['schedules'],'all interleavings of 2-4 threads mixing push, pop, try_push and try_pop over capacities 1-3, including spurious wake-ups',
 'A lost wake-up needs waiters on both sides and one particular order of unlock and notify; the tests have never more than an accidental overlap.',
 [I+'blocking_queue.hpp'],[('notify_all on the empty-to-nonempty and full-to-nonfull edges','blocking_queue.hpp push_impl/pop_impl')])
# ---------------------------------------------------------------- scheduler
prop('C07','Task scheduler: one-shot tasks run once, on time, with their outcome delivered',
 'A task accepted for a point in time (or after a delay) while the scheduler keeps running is executed exactly once, never before its due time, and - when a worker is free - as soon as that time is reached, even if it is due earlier than everything already scheduled or is already overdue when added; tasks due at different times begin in due-time order on a single worker. Its future yields the callable\'s result for the supplied arguments, or its exception. An addition that fails because copying the callable or an argument throws or memory runs out adds nothing.',
 ['schedules','histories','inputs'],'all sequences of up to 3 additions with due times from {past, now, 1, 2, 3 units} at varying moments, under all interleavings up to the preemption bound, with exact and late timer wake-ups',
 'Tests use real sleeps with tolerances and one fixed sequence; an early-due task overtaking a pending wait, or a wake-up landing exactly on the due instant, is luck there.',
 [I+'task_scheduler.hpp',S+'task_scheduler.cpp'],
 [('ordered map of due times, timed wait on the earliest','task_scheduler.cpp start'),('hand over due tasks to the pool','task_scheduler.cpp update_tasks')])
prop('C08','Task scheduler: periodic tasks keep a fixed grid',
 'A periodic task runs once at each instant of the grid that starts at its first due time (the time of the call, plus the initial delay if given) and advances by its interval, without drift and never twice for one instant, for as long as it stays scheduled and the scheduler is not late by more than an interval; instants the scheduler is late for are skipped, never run in a burst. While disabled a task is not executed but keeps its grid; a removed task is not started again; changing the interval makes the grid continue from its latest past instant with the new interval, and never makes a task run twice for one instant or before its first due time.',
 ['histories','schedules','inputs'],'all histories up to depth 4 of every/set_enabled/update_interval/remove interleaved with virtual time steps, exact and late wake-ups, interval and delay values from a small grid',
 'Tests count executions over real sleeps with wide tolerances, so drift, double execution on the exact boundary or a shifted grid after re-enabling is invisible.',
 [I+'task_scheduler.hpp',S+'task_scheduler.cpp'],
 [('next due time computed from previous due time','task_scheduler.cpp update_tasks'),('re-keying on interval change','task_scheduler.cpp update_interval')])
prop('C09','Task scheduler: the registry answers exactly for the tasks scheduled',
 'At every moment the scheduler\'s answers - number of tasks, whether an id is scheduled or enabled, an id\'s interval - describe exactly the set of tasks accepted and not yet handed to execution (one-shot), removed or dropped by a stop; an id can be scheduled at most once at a time and becomes free again afterwards. Operations on an unknown id, an interval query or change on a one-shot task, a non-positive interval, and any addition while the scheduler is not running are refused and change nothing, and so does an addition in which copying the callable or an argument throws or memory runs out.',
 ['histories','inputs'],'all operation sequences up to depth 4 (quick) over the full public API, two ids and anonymous tasks, interleaved with time steps, against a reference model',
 'The tests check each call after one hand-picked prefix; the registry contract is about every sequence of calls.',
 [I+'task_scheduler.hpp',S+'task_scheduler.cpp'],
 [('id lookup and duplicate check under the lock','task_scheduler.cpp get_task_iterator/already_exists/add_task')])
prop('C10','Task scheduler lifecycle: stop is prompt and final, restart is clean',
 'Stopping or destroying a running scheduler always returns as soon as the tasks already executing have finished - it never deadlocks and never waits for a future due time - and afterwards no task starts, nothing remains scheduled, and every future of a task that was accepted but not executed becomes ready with a broken promise. A task handed in concurrently with a stop is either refused or dropped in this same way, and nothing from before a stop ever executes after a later start; start and stop report success exactly when they changed the state. A start that fails because a thread cannot be created or memory runs out throws and leaves the scheduler stopped, with nothing scheduled, and able to start again.',
 ['schedules','histories'],'all interleavings of stop, destruction, restart and concurrent additions/starts with the scheduler and worker threads, empty or with near and far due times, up to the preemption bound',
 'The windows are a few instructions wide (a notify between predicate check and wait, an addition between the running check and the lock); tests hit them only by chance and would hang when they do.',
 [S+'task_scheduler.cpp',I+'task_scheduler.hpp'],
 [('stop protocol: flag, notify, clear, join','task_scheduler.cpp stop'),('start handshake','task_scheduler.cpp start')])
# ---------------------------------------------------------------- dispatcher
prop('C11','Event dispatcher delivers each event to exactly the matching handlers',
 'Emitting an event on a running dispatcher invokes every handler that is registered at that moment for exactly that event name and exactly that ordered list of argument types, once each and with the emitted values, and no other handler; the emission reports true exactly when there was at least one such handler. Different names never alias, whatever characters they contain, and argument lists that differ in any type (references and const aside), order or number never match each other.',
 ['inputs','histories','schedules'],'all pairs of (name, argument type list) from an alphabet of colliding names and permuted type lists, all emit/registration sequences up to depth 4, and all interleavings of concurrent emits with the worker threads',
 'Tests use a few distinct names and type lists that differ in the set of types; permuted lists, prefixed or hash-suffixed names never occur.',
 [I+'event_dispatcher.hpp',S+'event_dispatcher.cpp'],
 [('handler key from name and argument types','event_dispatcher.hpp get_event_handler_id'),('snapshot of handlers, one pool task per handler','event_dispatcher.hpp emit')])
prop('C12','Event dispatcher: handler ids and removal are exact',
 'Every registration on a dispatcher returns an id different from all other ids that dispatcher has handed out, whatever other dispatchers exist, are used concurrently or are destroyed. A registration that fails (copying the handler throws or memory runs out) registers nothing, so removing or emitting its event reports what it did before. Removing an id removes that one handler and reports true, or reports false and changes nothing if it is not registered; removing an event removes all handlers of exactly that name, for every argument list, and no handler of any other name, and reports whether there were any.',
 ['histories','schedules','inputs'],'all operation sequences up to depth 4-5 over add/remove_handler/remove_event/emit with names that are prefixes of one another and two dispatcher instances, and interleavings of concurrent add/remove/emit',
 'Tests use a single dispatcher and names that are not prefixes of one another.',
 [I+'event_dispatcher.hpp',S+'event_dispatcher.cpp'],
 [('id counter','event_dispatcher.hpp add_handler'),('erase by id / by event name','event_dispatcher.cpp remove_handler/remove_event')])
prop('C13','Event dispatcher: delivery order and lifecycle',
 'With one worker the handlers of an event run in registration order and events run in emission order, one at a time. Stopping returns after running handlers have finished, no handler runs afterwards, all registrations are dropped so that later emissions report false, and the dispatcher can be started and used again; registration, emission, removal and stop may be called concurrently from any threads (and from inside handlers) without deadlock or data race. A start that fails because a thread cannot be created throws and leaves the dispatcher stopped, with its registrations, and able to start again.',
 ['schedules','histories'],'all interleavings of 2-3 threads registering, emitting, removing and stopping, 1-2 workers, and all lifecycle histories up to depth 5',
 'Concurrent registration/emission/stop is not exercised by the tests at all.',
 [I+'event_dispatcher.hpp',S+'event_dispatcher.cpp'],
 [('handlers copied under lock and run on the pool','event_dispatcher.hpp emit'),('stop drops handlers then stops the pool','event_dispatcher.cpp stop')])
# ---------------------------------------------------------------- timer
prop('C14','High precision timer: fixed grid and truthful counters',
 'After a start with interval d the callback runs, one invocation at a time, only at or after grid instants start+d, start+2d, ..., at most once per instant and on time whenever the previous invocation has ended; an invocation that overruns makes the timer skip the instants it passed and resume on the same grid. Whenever no invocation is in progress the invoked count equals the completed invocations and the missed count equals the grid instants that passed without an invocation, for every pattern of callback durations and wake-up delays.',
 ['inputs','schedules','histories'],'all sequences of callback durations {0, d/2, d, 3d/2, 2d, 5d/2, 3d} over the first 4-5 invocations and all placements of late wake-ups, in virtual time',
 'Tests use real sleeps with one duration per test and tolerant counts; an invocation ending exactly on a grid instant does not occur.',
 [I+'high_precision_timer.hpp',S+'high_precision_timer.cpp'],
 [('next instant advanced by whole intervals','high_precision_timer.cpp update_next_start_time')])
prop('C15','High precision timer lifecycle',
 'Starting without a callback or with an interval that is not positive returns false and runs nothing; starting a timer that is already running first ends the earlier run, so at most one run is ever active, and resets both counters. Stop returns after an invocation in progress has finished and without waiting for the next instant, no invocation happens after it, it may be repeated, a callback replaced while the timer runs is used from the next instant on, and no interleaving of start, stop, replacement and destruction with the timer thread deadlocks, races or leaves the timer unstoppable. A start that fails because a thread cannot be created or memory runs out throws and leaves the timer stopped and able to start again.',
 ['schedules','histories'],'all histories up to depth 5 of set_callback/start/stop/sleep and all interleavings of them with the timer thread up to the preemption bound',
 'The windows between thread start, flag update and wait are a few instructions wide; tests always sleep in between.',
 [S+'high_precision_timer.cpp',I+'high_precision_timer.hpp'],
 [('start handshake and running flag under the mutex','high_precision_timer.cpp start/stop/worker')])
# ---------------------------------------------------------------- observable etc
prop('C16','Observable: callbacks report exactly the value changes, in order',
 'Assigning a value that differs from the current one stores it and, if the callback is enabled at that moment, invokes the callback exactly once with the stored value before the assignment returns; assigning an equal value does neither. Under concurrent assignments, reads and enabling or disabling, all operations take effect in some single order consistent with real time, callbacks never overlap and appear in that order, and an assignment takes effect together with its callback, so that no callback begins after disabling it has returned. An exception thrown by the callback, or by copying a value, reaches the assigner or reader and leaves the observable usable with the old or the assigned value.',
 ['schedules','histories','inputs'],'all interleavings of 2-3 threads with 1-2 operations each over 3 values, and all sequential histories up to depth 6',
 'Tests compare only the number of callbacks and the final value of one OS-chosen interleaving.',
 [I+'observable.hpp'],[('compare, store and notify under one lock','observable.hpp set')])
prop('C17','Rate limiter paces a loop on a fixed grid',
 'For a limiter with rate r created at time t0, the k-th sync call returns no earlier than t0 + k/r, and returns immediately if that instant has already passed, so that a loop that was late catches up and no drift accumulates. This holds for every sequence of delays between calls and every wake-up delay.',
 ['histories','inputs'],'all sequences of up to 6 inter-call delays from {0, 1/2, 1, 3/2, 3 periods} with exact and late wake-ups, for several rates, in virtual time',
 'The tests count ticks over one second of real time for four fixed delays.',
 [I+'rate_limiter.hpp',S+'rate_limiter.cpp'],[('absolute target time advanced by one period per call','rate_limiter.cpp sync')])
prop('C18','Stopwatch measures exactly the time since construction or last reset',
 'A stopwatch\'s start time is the clock\'s time at construction or at the latest reset, and its elapsed time at any moment is exactly the clock\'s advance since then, converted to the requested unit by truncation; reading it changes nothing.',
 ['histories','inputs'],'all histories up to depth 6 of reset/elapsed/start_time and clock steps of 0 ns to hours, in all duration units, in virtual time',
 'Real-time tests can only bound the value with tolerances.',
 [I+'stopwatch.hpp'],[('stored start time and steady clock','stopwatch.hpp')])
prop('C19','Signal handling: the callback names the signal and waiting is released',
 'After the handlers are installed, each SIGINT, SIGABRT or SIGTERM delivered to the process, and each programmatic quit, invokes the installed callback once with the matching name and number and then releases one waiter; a quit that comes before the wait is not lost, and a wait never returns without a quit. This holds for every interleaving of the quitting and the waiting threads, wherever a signal interrupts a thread (also one that is waiting or quitting itself), with no callback installed, and after installing another callback.',
 ['schedules','histories','inputs'],'all interleavings of up to 2 quits/signals with up to 2 waiters, and all histories up to depth 5 of install/raise/quit/wait',
 'Tests synchronise one quit with one wait per test with a barrier; the order quit-before-wait and two waiters are left to chance.',
 [S+'signal_handler.cpp',I+'signal_handler.hpp'],[('callback then semaphore release','signal_handler.cpp quit'),('signal-to-name mapping','signal_handler.cpp signal_handler')])
prop('C20','Service locator returns exactly what was registered',
 'For every sequence of registrations, removals and queries, the locator yields for an interface the one object currently registered for it - the same object every time, with its full identity whatever its inheritance layout - or nothing if there is none; a second registration for an interface is refused and leaves the first in place, distinct interfaces (also of the same name in different translation units) do not affect one another. A service created by or handed to the locator is constructed once from the given arguments and lives until it is removed and no client holds it, then is destroyed exactly once.',
 ['histories','inputs'],'all operation sequences up to depth 5-6 over interfaces with single, multiple and virtual-base implementations, with clients holding references across removals',
 'Tests register singly inherited services in short fixed sequences.',
 [I+'service_locator.hpp',S+'service_locator.cpp'],[('type-keyed map of shared pointers','service_locator.hpp')])
prop('C21','Type-erased task owns and invokes its callable faithfully',
 'A task built from any callable - lambda, functor, move-only object, function, bound member - invokes exactly that callable, as many times as the task is invoked, preserving the callable\'s state between invocations and letting its exceptions reach the caller; moving a task transfers the callable without invoking or copying it. The wrapped callable is destroyed exactly once, when the last task owning it is.',
 ['histories','inputs'],'all sequences up to depth 6 of create/invoke/move/destroy over all callable kinds, checked with instance-counting callables',
 'Tests call each kind once and do not track the lifetime of the callable.',
 [I+'task.hpp'],[('type erasure through an owning pointer','task.hpp task_impl')])
# ---------------------------------------------------------------- argparse
prop('C22','Command line grammar: every argument list is classified correctly',
 'For every argument list given to the first parse of a parser, parsing succeeds exactly when each element is a declared flag, a declared option with a value (attached with = or taken verbatim from the next element), or the next positional in order, and every required option or positional is given on the command line or through its environment variable. Names are written with one or two dashes, in their short or long form; help or version met before the first error reports that the program should quit; everything else reports an error, without throwing, terminating or reading outside the list; TC_PARSE_CLI goes on, returns EXIT_SUCCESS or returns EXIT_FAILURE accordingly. On success every bound variable holds the value given last for it (the command line wins over the environment), a flag tells whether it was given, and what was not given holds its default; the help text names every declared argument.',
 ['inputs','configurations'],'all argument lists up to length 3-4 over an alphabet of well-formed, malformed, repeated, dash-only and numeric tokens, for several parser configurations with and without environment variables',
 'Tests cover some thirty hand-written command lines.',
 [S+'argparse/argument_parser.cpp',I+'argparse/argument_parser.hpp',I+'argparse/argument_base.hpp'],
 [('token classification and dispatch','argument_parser.cpp parse'),('required-argument check','argument_parser.cpp check_parsed_arguments')])
prop('C23','Argument values convert faithfully or are rejected leaving the variable alone',
 'Converting a textual value yields exactly the value it denotes for the bound type - numbers, a single character, booleans, strings verbatim, lists element by element - or reports an error; on error, or when the validator refuses the value, the bound variable keeps its previous value and the argument does not count as given. Numbers outside the range of the type, and negative numbers for unsigned types, are rejected, never wrapped or truncated; int, float and double take the number the text starts with, the other types need all of it.',
 ['inputs'],'all strings up to length 3-5 over {0,1,9,-,+,.,e,comma,space,a} plus range boundaries, for the supported scalar types, strings and vectors, with and without validator',
 'Tests cover a handful of literals per type.',
 [I+'argparse/argument_base.hpp',I+'argparse/optional_argument.hpp',I+'argparse/positional_argument.hpp',I+'argparse/flag_argument.hpp'],
 [('convert specialisations','argument_base.hpp convert'),('convert, validate, then assign','optional_argument.hpp parse')])
# ---------------------------------------------------------------- datetime
prop('C24','Dates follow the proleptic Gregorian calendar',
 'Every date reports the year, month, day and weekday (and from year 0 on the textual form) that the proleptic Gregorian calendar assigns to its day, is valid exactly if that day exists, and (from year 0 on) its text, in the default format or another one of strftime, reads back as the same date while text of days or weeks that do not exist, or whose fields contradict each other, is refused. Adding or subtracting a timedelta moves by exactly its whole days (rounded down) across month, leap-year and century boundaries; comparisons, and differences of dates up to 292 years apart, agree with the day count. A date made from an instant, and today, is the day that instant lies in, also before 1970.',
 ['inputs'],'every day of 1690..2310 and the first and last days of all months of -400..4000 (thorough: 1000..3000 and -9000..9700) with day and part-day offsets, all (year, month, day) triples of 26 years including invalid ones, clock readings',
 'Tests check a few dozen dates; century and leap boundaries are sampled.',
 [I+'datetime/date.hpp',S+'datetime/date.cpp'],[('civil-from-days conversion','date.hpp / date.h')])
prop('C25','Times of day compute exactly modulo a day',
 'A time of day built from durations or text is their sum\'s signed remainder within a day; it reports exactly the hour, minute, second and fraction of that remainder\'s magnitude and prints it in fixed-width form rounded down to the requested unit, and its text reads back as the same time, in the default format as in the other formats of strftime, while text whose fields contradict each other or hours that a clock of 12 hours does not have are refused. Adding or subtracting a timedelta, the sum and difference of two times and all comparisons agree with integer arithmetic on nanoseconds. The current time is that of the clock, also before 1970.',
 ['inputs'],'every second of the day with boundary fractions, all pairs over a grid of 756 times in both signs, 28 deltas including multiples of a day, all two-digit texts, clock readings',
 'Tests check a few values per operation.',
 [I+'datetime/time.hpp',S+'datetime/time.cpp'],[('duration decomposition','time.hpp/time.cpp')])
prop('C26','Time deltas form an exact signed duration arithmetic',
 'Every timedelta reports components (rounded down, so that for negative values only the hours are negative) that recombine to exactly the duration it was built from, and addition, subtraction, multiplication, division, equality, the totals per unit (rounded towards zero) and the printed form (sign, hours, minutes, seconds and a fraction of fixed width) agree with exact integer arithmetic on nanoseconds; division by zero is refused with an exception.',
 ['inputs'],'all pairs over a grid of boundary values around zero and multiples of every unit from the nanosecond to the year in both signs, the same values and zero as factors and divisors',
 'Tests check a few positive values.',
 [I+'datetime/timedelta.hpp',S+'datetime/timedelta.cpp'],[('chrono duration arithmetic','timedelta.hpp/timedelta.cpp')])
prop('C27','Datetimes decompose, print and shift consistently',
 'For every instant a datetime can represent (1678 to 2261), before or after 1970, its date, its time of day and its printed form (rounded down to the requested unit) denote that same instant, and the text (in the default format or another one of strftime, with an offset from UTC if it has one), the fields, or the date and time give back an equal datetime, while text of a day or a time of day that does not exist is refused. Shifting by a timedelta and subtracting datetimes are exact inverses, and comparison agrees with chronological order. The current datetime is that of the clock.',
 ['inputs'],'first and last days of the months of every 3rd year (thorough: every year) of 1678..2261 and the days around 1970-01-01, with 16 sub-second, second and hour offsets and 28 shifts, clock readings',
 'Tests check a few instants after 1970.',
 [I+'datetime/datetime.hpp',S+'datetime/datetime.cpp'],[('floor to days and remainder','datetime.hpp/datetime.cpp')])
# ---------------------------------------------------------------- geometry
prop('C28','Points and sizes obey vector arithmetic',
 'For all operands, point arithmetic, scaling (computed in the common type, then converted to the coordinate type), distances (rounded towards zero for integral coordinates), comparison, null tests and printed forms of points and sizes agree with component-wise arithmetic as long as the results are representable; compound operators and the delta functions equal their binary forms, return the object they changed, leave their operands alone, and any sequence of mutations leaves exactly the computed coordinates.',
 ['inputs','histories'],'all pairs of points over grids of boundary coordinates for int, unsigned, long, long long, float and double, 14 scalars, all mutation sequences up to depth 6 (thorough: 8)',
 'Tests check single values.',
 [I+'geometry/point.hpp',I+'geometry/size.hpp'],[('component-wise operators','point.hpp/size.hpp')])
prop('C29','Line intersection is exact, symmetric and within both segments',
 'For any two segments that are not parallel, an intersection is reported exactly when they share a point (end points included), it is that point up to rounding, and it does not depend on the order of the segments or of their end points; parallel and disjoint segments, and segments of zero length, report none. Equality ignores the direction, and the end points, the vertical, horizontal and null tests and the printed form are those of the segment.',
 ['inputs'],'all pairs of segments with end points on 5x5 to 8x8 grids with spacings from 2^-60 to 2^60, for six coordinate types, compared with exact rational arithmetic',
 'Tests check a handful of pairs.',
 [I+'geometry/line.hpp'],[('parametric intersection','line.hpp')])
prop('C30','Ranges keep their bounds ordered and agree with intervals of values',
 'A range built from ordered bounds stays ordered under every sequence of setters (a bound set beyond the other one takes it along, and otherwise leaves it alone). It contains exactly the values from its lower bound up to but not including its upper one, contains another range exactly if that one\'s bounds lie within its own, intersects another one exactly if each begins before the other ends, and intersection (the empty range if there is none), union (the smallest range covering both), clamp, linear mapping and length are those of the intervals.',
 ['inputs','histories'],'all pairs of ordered ranges over grids of 10 (thorough: 14) bounds in units from 2^-60 to 2^60 for six value types, all values in and around them, all setter sequences up to depth 4 (thorough: 5)',
 'Tests check single examples.',
 [I+'geometry/range.hpp'],[('bound ordering in setters','range.hpp'),('interval predicates','range.hpp')])
prop('C31','Rectangle edges, containment, union and intersection agree',
 'For all rectangles of positive size, with integral (signed or unsigned) or floating coordinates, the corners, centre, size and area describe the same rectangle; a point or rectangle is contained exactly if it lies strictly within the edges; two rectangles intersect, and have the intersection they report, exactly as their point sets do (a disjoint or merely touching pair has an empty one); the union is the smallest rectangle covering both and ignores null rectangles; a segment intersects exactly if an end point lies strictly inside or it meets an edge it is not parallel to. Every sequence of moves and resizes changes only what it names.',
 ['inputs','histories'],'all pairs of rectangles on grids in units from 2^-40 to 2^60 for five coordinate types, with null rectangles, all rectangle and segment pairs of an 8x8 grid, all sequences of changes up to depth 6 (thorough: 8)',
 'Tests check single examples.',
 [I+'geometry/rectangle.hpp'],[('edge computation from top-left and size','rectangle.hpp')])
# ---------------------------------------------------------------- misc
prop('C32','Singletons: concurrent first use yields one instance',
 'However many threads ask for a singleton (or the service locator or uuid generator) for the first time concurrently, it is constructed exactly once, every caller gets that same fully constructed object, and if construction throws the next caller constructs it afresh.',
 ['schedules','fault_sequences'],'all interleavings of 2-3 threads performing first access, with and without a throwing first construction',
 'Tests access the instance from one thread after it exists.',
 [I+'singleton.hpp',S+'service_locator.cpp',S+'uuid_generator.cpp'],[('function-local static','singleton.hpp instance')])
prop('C33','UUID text form round-trips and validity is decided consistently',
 'Printing a uuid gives the canonical 36-character lowercase form of its bytes, reading that form (with any letter case, with or without dashes, or in braces) gives back an equal uuid, and the validity test says yes to exactly the strings that reading accepts; reading anything else throws and touches no memory outside the string. Equality and ordering are those of the byte sequence.',
 ['inputs'],'all single-byte values in every position, all one- and two-character edits of canonical strings over an alphabet including braces, dashes, hex and non-hex characters, and all strings up to length 4',
 'Tests read a dozen strings.',
 [S+'uuid.cpp',S+'uuid_generator.cpp',I+'uuid.hpp'],[('nibble parser','uuid_generator.cpp from_string/is_valid'),('formatter','uuid.cpp to_string')])
prop('C34','Created UUIDs are version 4, consume fresh randomness and are thread safe',
 'Every created uuid carries version 4 and the RFC variant, and all its other 122 bits come from the random source, so that distinct random draws give distinct uuids; copies of the generator draw from the same source. Concurrent creation from any number of threads is free of data races and gives every caller its own uuid.',
 ['schedules','inputs'],'all interleavings of 2 threads creating uuids, and every bit position over an exhaustive set of random-source outputs',
 'Tests create uuids from one thread and compare 1000 of them.',
 [S+'uuid_generator.cpp',I+'uuid_generator.hpp'],[('bit masks and generator','uuid_generator.cpp create')])
prop('C35','Minimum and maximum pick the extreme argument',
 'For all arguments, in every order and with any of them equal, the minimum and maximum of two, three or four values are the smallest and the largest of them.',
 ['inputs'],'all tuples of two to four values from grids of 8-16 values including the extremes of the type and neighbouring floating values, for seven types',
 'Tests check a few orders of a few values.',
 [I+'math.hpp'],[('nested comparisons','math.hpp')])
prop('C36','Command line help, version and error messages are complete and exact',
 'A parse that meets the help argument prints, to standard output and nothing else, the program name and version, the description, a usage line that names every declared positional in order and every option and flag, and for every declared argument exactly one line with its spellings, description and environment variable (if their names fit the column); a parse that meets the version argument prints exactly the program name and version. A parse that fails prints to standard error a message that names the argument or token at fault - all missing positionals, or if there are none all missing required options - followed by the help on standard output. A successful parse prints nothing, and parsing changes nothing in what the help says.',
 ['inputs','configurations'],'all declaration sequences of up to 3-4 arguments from an alphabet of flags, options and positionals with and without short names, descriptions, environment variables and requiredness, each with all argument lists up to length 2-3 that meet help, version, errors or success',
 'Tests redirect nothing and only look at the returned status.',
 [S+'argparse/argument_parser.cpp',I+'argparse/argument_parser.hpp'],
 [('help assembled from the declared arguments','argument_parser.cpp print_help'),('missing arguments collected after the tokens','argument_parser.cpp check_parsed_arguments')])
prop('C37','Calendar fields print the same number wherever they are inserted',
 'Inserting a year, a month, a day or a year_month_day (the fields a date reports) into an output stream with default formatting writes its decimal number - the year with its sign and at least four digits, the month as it is, the day with two digits, the whole date as the plain year, two digits of month and two digits of day joined by dashes - followed by a remark that it is not valid exactly if it is none, whatever was inserted into that stream before.',
 ['inputs','histories'],'every year, month and day value, valid or not; a grid of dates; all sequences of 4-5 insertions of fields, dates, numbers and text into one stream',
 'Tests print one valid value of each kind, or none.',
 [I+'datetime/timedelta.hpp'],
 [('year, month, day and year_month_day insertion operators','timedelta.hpp operator<<')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=True)+'\n')
print(len(P),'properties')
