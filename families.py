# Harness families (what is built from which sources) and which of them decide which property.
FAMILIES = {
    'queue': dict(kind='mc', src=['h_queue.cpp'], repo=[]),
    'pool': dict(kind='mc', src=['h_pool.cpp'], repo=['thread_pool.cpp']),
    'disp': dict(kind='mc', src=['h_disp.cpp'], repo=['event_dispatcher.cpp', 'thread_pool.cpp']),
    'timer': dict(kind='mc', src=['h_timer.cpp'], repo=['high_precision_timer.cpp']),
    'misc': dict(kind='mc', src=['h_misc.cpp', 'h_misc2.cpp'], repo=['rate_limiter.cpp', 'signal_handler.cpp', 'service_locator.cpp', 'uuid.cpp', 'uuid_generator.cpp']),
    'sched': dict(kind='mc', src=['h_sched.cpp'], repo=['task_scheduler.cpp', 'thread_pool.cpp']),
}
_MCB = 'all schedules of each listed scenario with at most `bound_done` preemptions (delays in scenarios marked as such), every choice of thread at a blocking point, every waiter a notify can pick, `sdev` spurious wake-ups, `tdev` timing deviations'
PROPS = {
    'C01': dict(run=[('pool', 'C01/')], bounds=_MCB),
    'C02': dict(run=[('pool', 'C02/')], bounds=_MCB),
    'C03': dict(run=[('pool', 'C03/')], bounds=_MCB),
    'C04': dict(run=[('pool', 'C04/')], bounds=_MCB),
    'C05': dict(run=[('queue', 'C05/')], bounds=_MCB),
    'C06': dict(run=[('queue', 'C06/')], bounds=_MCB),
    'C07': dict(run=[('sched', 'C07/')], bounds=_MCB),
    'C08': dict(run=[('sched', 'C08/')], bounds=_MCB),
    'C09': dict(run=[('sched', 'C09/')], bounds=_MCB),
    'C10': dict(run=[('sched', 'C10/')], bounds=_MCB),
    'C11': dict(run=[('disp', 'C11/')], bounds=_MCB),
    'C12': dict(run=[('disp', 'C12/')], bounds=_MCB),
    'C13': dict(run=[('disp', 'C13/')], bounds=_MCB),
    'C14': dict(run=[('timer', 'C14/')], bounds=_MCB),
    'C15': dict(run=[('timer', 'C15/')], bounds=_MCB),
    'C16': dict(run=[('misc', 'C16/')], bounds=_MCB),
    'C17': dict(run=[('misc', 'C17/')], bounds=_MCB),
    'C18': dict(run=[('misc', 'C18/')], bounds=_MCB),
    'C19': dict(run=[('misc', 'C19/')], bounds=_MCB),
    'C20': dict(run=[('misc', 'C20/')], bounds=_MCB),
    'C21': dict(run=[('misc', 'C21/')], bounds=_MCB),
    'C32': dict(run=[('misc', 'C32/')], bounds=_MCB),
    'C34': dict(run=[('misc', 'C34/')], bounds=_MCB),
}
ASSUME = {
    'mc': ['sequentially consistent execution of atomics (weaker orderings are covered only by the happens-before race check)',
           'scheduling points at synchronisation operations; unsynchronised accesses are reported as data races instead of being interleaved',
           'glibc/libstdc++ primitives behave as specified (they are modelled by the runtime)', 'virtual time: code runs in zero time except for the explored timing deviations'],
    'seq': ['values outside the enumerated alphabets behave like those inside'],
}
FAMILIES.update({
    'uuid': dict(kind='seq', src=['h_uuid.cpp'], repo=['uuid.cpp', 'uuid_generator.cpp']),
})
_SEQ = 'every input, operation sequence and configuration of the bounded spaces named in each scenario\'s note, enumerated exhaustively on the real code against a reference model'
PROPS.update({
    'C33': dict(run=[('uuid', 'C33/')], bounds=_SEQ, assume='seq'),
})
FAMILIES.update({
    'argparse': dict(kind='seq', src=['h_argparse.cpp'], repo=['argparse/argument_parser.cpp']),
})
PROPS.update({
    'C22': dict(run=[('argparse', 'C22/')], bounds=_SEQ, assume='seq'),
    'C23': dict(run=[('argparse', 'C23/')], bounds=_SEQ, assume='seq'),
    'C36': dict(run=[('argparse', 'C36/')], bounds=_SEQ, assume='seq'),
})
FAMILIES.update({
    'datetime': dict(kind='seq', src=['h_datetime.cpp'], repo=['datetime/date.cpp', 'datetime/time.cpp', 'datetime/timedelta.cpp', 'datetime/datetime.cpp']),
})
PROPS.update({p: dict(run=[('datetime', p + '/')], bounds=_SEQ, assume='seq') for p in ('C24', 'C25', 'C26', 'C27', 'C37')})
FAMILIES.update({
    'geometry': dict(kind='seq', src=['h_geometry.cpp'], repo=[]),
})
PROPS.update({p: dict(run=[('geometry', p + '/')], bounds=_SEQ, assume='seq') for p in ('C28', 'C29', 'C30', 'C31', 'C35')})
