"""Properties of the concurrent parts; decided by mc."""
MC_TECH = ('stateless model checking of the real code: every interleaving of '
           'the harness threads under a controlled scheduler, iterative '
           'preemption bounding, modelled time, race and deadlock detection')
MC_NOTE = ('Exhaustive for the stated harnesses (2 to 4 threads, 1 to 3 '
           'operations each) up to the preemption bound reported in the '
           'evidence, or for all the interleavings where no bound was reached. '
           'Sequentially consistent memory; data races are reported by a '
           'happens-before detector built into the scheduler.  absl and std '
           'synchronization are replaced by models with the documented '
           'semantics; time is a model where any deadline may expire early or '
           'late relative to computations.')


def C(id, title, statement, forall, why, files, mechanism, spec, note='',
      **kwargs):
    for part in spec if isinstance(spec, list) else [spec]:
        part.setdefault('kind', 'mc')
    P(id, title, statement, ['schedules', 'histories'], forall, why, files,
      mechanism, spec, MC_TECH, MC_NOTE + ' ' + note, **kwargs)


C('C01', 'A thread pool runs every submitted task exactly once',
  '''Every task added to a thread pool is started in submission order, run
  exactly once on one of the pool's threads, and its future delivers its result
  (or its error) to the submitter.  At most as many tasks run at any time as the
  pool has threads, no thread stays idle while a task is queued, and
  independent tasks can make progress in parallel.  Destroying a pool waits for
  the tasks that are running, and never runs a task afterwards.''',
  '''All interleavings of submitters, pool threads and the destruction of the
  pool.''',
  '''The test runs one scenario on the schedules that the machine happens to
  produce; lost wake-ups, double execution and shutdown races need particular
  interleavings.''',
  ['base/thread_pool.hpp', 'base/thread_pool_body.hpp'],
  [('the queue of calls, protected by a mutex and signalled by conditions',
    'base/thread_pool_body.hpp: Add, DequeueCallAndExecute, ~ThreadPool')],
  dict(harness=['C01_thread_pool.cc'], flags=['-DADD']))

C('C02', 'A thread pool only accepts optional work it can start at once',
  '''Optional work offered to a thread pool is accepted only if some thread of
  the pool can start it without it waiting behind other tasks, and accepted
  work is run exactly once.  Refused work is never run, and an offer never
  blocks.  Waiting for the pool to become idle succeeds only if all the tasks
  accepted before have completed, and fails only if the timeout has elapsed.''',
  '''All interleavings of offers, tasks of varied durations, waiters with
  timeouts, and the pool's threads.''',
  '''Whether an offer is accepted depends on the instant at which each thread
  becomes idle; tests cannot pin these instants.''',
  ['base/thread_pool.hpp', 'base/thread_pool_body.hpp'],
  [('the count of busy threads against the queue length',
    'base/thread_pool_body.hpp: TryAdd, WaitUntilIdleFor')],
  dict(harness=['C01_thread_pool.cc']))

C('C03', 'Joining a bundle waits for all its tasks and reports the first error',
  '''Joining a bundle of tasks returns success only when all the tasks that were
  added have completed successfully, and otherwise the status of the first task
  that failed.  A join with a deadline or timeout reports that the deadline was
  exceeded only if it has elapsed, and every join waits for the tasks to
  terminate so that none outlives the bundle.''',
  '''All interleavings of up to 3 tasks, their outcomes, the joining thread, and
  the expiry of the deadline.''',
  '''The races between the completion of the last task, the first error and the
  deadline are not under the control of a test.''',
  ['base/bundle.hpp', 'base/bundle.cpp'],
  [('the count of active workers and the notification of their completion',
    'base/bundle.cpp: Toil, Join, JoinWithin, JoinBefore, JoinAll')],
  dict(harness=['C03_bundle.cc'], repo=['base/bundle.cpp']))

C('C04', 'A recurring thread treats each input once and returns each output once',
  '''A recurring action is run for each input at most once, in the order in
  which the inputs were given, never concurrently with itself, at no more than
  the configured rate, and for the latest input unless the thread is stopped.
  Each output is returned to the reader at most once, unless a newer one replaces
  it, and an action that fails produces no output.  Stopping the thread is
  synchronous: once it returns no action runs until a restart.''',
  '''All interleavings of producers, readers, the recurring thread, and stops
  and restarts.''',
  '''The interleavings of a periodic thread with its clients, in particular at
  stop and restart, are not reachable on demand by a test.''',
  ['base/recurring_thread.hpp', 'base/recurring_thread_body.hpp'],
  [('the input and output slots protected by a mutex; joining in Stop',
    'base/recurring_thread_body.hpp: Start, Stop, Put, Get, '
    'RepeatedlyRunAction')],
  dict(harness=['C04_recurring_thread.cc']))

C('C05', 'Stopping a stoppable thread stops that thread, and only that one',
  '''A thread that is made stoppable observes the request to stop it, at the
  latest when it next checks for it, and then terminates with a cancellation.
  Threads that were not asked to stop never observe a cancellation, and
  destroying the thread requests the stop and waits for its termination.''',
  '''All interleavings of up to 3 stoppable threads and of the requests to stop
  them.''',
  '''A test samples one schedule of the stop request relative to the checks.''',
  ['base/jthread.hpp', 'base/jthread_body.hpp', 'base/stoppable_thread.hpp'],
  [('the thread-local stop token', 'base/jthread_body.hpp: MakeStoppableThread, '
    'this_stoppable_thread; RETURN_IF_STOPPED')],
  dict(harness=['C05_stoppable_thread.cc']))

C('C06', 'A pushed callback becomes a pull interface without losing values',
  '''When a computation that pushes values through a callback is run by an
  executor, the client pulls exactly the values that were pushed, in order, and
  each value that the client returns is the result of the corresponding call of
  the callback.  The end of the computation is reported to the client exactly
  once and its result is delivered, and shutting down midway terminates
  cleanly.''',
  '''All interleavings of the client thread and of the computing thread, for
  0 to 3 values.''',
  '''The handshake between two threads must be right on every schedule; the test
  runs one of them.''',
  ['base/push_pull_callback.hpp', 'base/push_pull_callback_body.hpp'],
  [('the handshake on arguments and result under a mutex',
    'base/push_pull_callback_body.hpp: Pull, Push, Shutdown')],
  dict(harness=['C06_push_pull.cc']))

C('C07', 'Chunked serialization yields exactly the serialized message',
  '''Pulling chunks from a serializer until an empty one yields, concatenated,
  exactly the (possibly compressed) serialized form of the message that was
  given to it, in chunks of at most the configured size.  A chunk stays intact
  for as long as the documented number of chunks in flight promises, and the
  serializer never deadlocks, whatever the relative speed of the reader.''',
  '''All interleavings of the serializing thread with a reader, for messages of
  several sizes relative to the chunk size, 1 to 3 chunks, compressed or
  not.''',
  '''The ring of buffers is shared between two threads; the tests use random
  delays, not an enumeration of schedules.''',
  ['base/pull_serializer.hpp', 'base/pull_serializer_body.hpp'],
  [('the queue of chunks and the free list, with condition variables',
    'base/pull_serializer_body.hpp: DelegatingArrayOutputStream, Push, Pull')],
  dict(harness=['C07_serializer.cc'], flags=['-DSERIALIZER'],
       libs=['-lprotobuf'],
       assumptions=['The empty message is not explored: the installed protobuf '
                    '3.21 calls BackUp(0) before Next for it, which the '
                    'version of protobuf used by the project does not.',
                    'The compressor is a stand-in (identity with a header); '
                    'gipfeli is not installed.']))

C('C08', 'Chunked deserialization rebuilds the message that was pushed',
  '''Pushing the chunks of a serialized message to a deserializer, however it is
  cut into chunks, followed by an empty one, rebuilds exactly that message.  The
  buffer of each chunk is released exactly once, in order, after it has been
  consumed, and the deserializer terminates when the end of the message is
  signalled, without deadlock.''',
  '''All interleavings of the pushing thread with the deserializing thread, for
  all the ways to cut small messages into chunks.''',
  '''The tests use one way of cutting the message and random delays.''',
  ['base/push_deserializer.hpp', 'base/push_deserializer_body.hpp'],
  [('the queue of chunks with the callbacks that release them',
    'base/push_deserializer_body.hpp: DelegatingArrayInputStream, Push')],
  dict(harness=['C07_serializer.cc'], libs=['-lprotobuf']))

C('C09', 'Checkpoints are complete, and safe to use from several threads',
  '''A checkpoint is only ever visible to readers, to serialization and to
  queries once it has been completely written.  Creating, querying, reading and
  serializing checkpoints from several threads yields the same answers as some
  sequential order of these operations, without data races or deadlocks:
  the checkpoints at, before, after and between given times are exactly those
  that were created there, with the contents that they were created with, also
  after serialization and deserialization.''',
  '''All interleavings of two threads that create, query, read or serialize
  checkpoints; sequentially, all the sequences of up to 3 operations (4 in the
  thorough tier) at 6 different times, with all the possible queries after each
  one.''',
  '''The tests of checkpoints are single-threaded; the reanimation of an old
  ephemeris happens in its own thread.''',
  ['physics/checkpointer.hpp', 'physics/checkpointer_body.hpp'],
  [('the map of checkpoints, protected by a lock',
    'physics/checkpointer_body.hpp: WriteToCheckpoint, ReadFromCheckpointAt, '
    'all_checkpoints_between')],
  [dict(harness=['C09_checkpointer.cc'], repo=['base/flags.cpp'],
        protos=['testing_utilities'], math=True),
   dict(kind='seq', harness=['C09_checkpointer_seq.cc'],
        repo=['base/flags.cpp'], protos=['testing_utilities'], math=True,
        rule='Histories of operations on a checkpointer, compared with a map '
             'after each operation.')])

C('C10', 'Protected history is not erased while a client needs it',
  '''While a client protects the history from some instant on, no change to the
  history that reaches beyond that instant is run.  A change that conflicts with
  a protection is deferred, and runs exactly once, in time order, as soon as the
  last conflicting protection is released; a change that conflicts with no
  protection runs at once.''',
  '''All interleavings of protecting, unprotecting and forgetting threads.''',
  '''Protections come from reanimator threads; the unit test is
  single-threaded.''',
  ['physics/protector.hpp', 'physics/protector.cpp'],
  [('the ordered set of protected times and of the callbacks, under a lock',
    'physics/protector.cpp: RunWhenUnprotected, Protect, Unprotect')],
  dict(harness=['C10_protector.cc'], repo=['physics/protector.cpp'],
       protos=['geometry'], math=True))

C('C11', 'Clients of a shared computation are kept consistent across threads',
  '''The set of clients that wait for a shared computation contains exactly the
  clients that joined and have not left, whatever the interleaving of the
  threads that join, leave and query it, and the smallest key of the remaining
  clients, or else the default key, is always reported.  A query is consistent with some order of the joins and
  leaves, and has no data race with them.''',
  '''All interleavings of two threads joining, leaving and querying.''',
  '''The unit test is single-threaded.''',
  ['physics/clientele.hpp', 'physics/clientele_body.hpp'],
  [('a locked multiset', 'physics/clientele_body.hpp: Join, Leave, first')],
  dict(harness=['C11_clientele.cc']))
