#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list of properties below (claimed: those with an entry in props.py)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, QUICK_S
VERIF = os.path.dirname(HERE)
TECH = "deterministic simulation with fault injection (seeded schedules, faults and crashes over the real code)"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, na=na)


L = [
P("P01", "Asynchronous messages are delivered exactly once",
  "Every message accepted by an asynchronous logger that passes its level gates reaches each of its sinks exactly once, for each kind of thread pool, any queue size, any number of producers and workers, and also while the pool is being given up. "
  "A message that is not delivered because the pool is already gone or memory is short is reported as an error, and nothing is delivered that was not logged or that the levels exclude. A sink that throws loses neither the message for the other sinks nor later messages.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of logging, flushing, worker and teardown threads; queue sizes from 1, all three pools, 1-4 workers; sinks that throw; failing allocations",
  "the tests log from a few threads with an unloaded queue and look at the count at the end of one schedule; loss or duplication needs a particular interleaving with a full queue, a terminating worker or a throwing sink",
  ["include/async_logger.h", "base/thread_pool.cpp", "base/lock_thread_pool.h", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/block_queue.h", "base/concurrentqueue/concurrentqueue.h"],
  [("hand-over of a copied message to the pool", "include/async_logger.h sink_log_"), ("worker loop and handling of one message", "base/thread_pool.cpp worker_loop_, process_async_msg_, handle_async_msg_"),
   ("draining on destruction", "destructors of the three pools"), ("producer tokens per thread", "base/lockfree_concurrent_thread_pool.h")],
  [("message queue", "accepted and not yet delivered messages", "msg_q_ of the pools")], ["a recording sink", "stderr (refused messages)"],
  "real loggers, pools and queues under seeded schedules, with throwing sinks and teardown races; a record of every send and every delivery is compared"),
P("P02", "Messages of one thread keep their order",
  "Messages one thread logs through loggers of one pool reach every sink in the order they were logged, with a single worker thread for the locking and the lock-free pool and with any number of workers for the concurrent lock-free pool. "
  "The order holds across several loggers of the pool, with full queues, and across flushes and throwing sinks.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of 1-4 producers and 1-4 workers, queue sizes from 1, throwing sinks",
  "tests compare the order of one execution; reordering appears only when workers take messages of one producer concurrently or when a full queue makes a producer switch queues",
  ["base/lockfree_concurrent_thread_pool.h", "base/block_queue.h", "base/lockfree_thread_pool.h", "base/concurrentqueue/concurrentqueue.h", "base/thread_pool.cpp"],
  [("producer tokens locked while a worker handles the producer's message", "base/lockfree_concurrent_thread_pool.h dequeue and process"), ("FIFO of the blocking queue", "base/block_queue.h")], (), ["a recording sink"],
  "the delivery sequence per sink is compared with the send sequence per thread"),
P("P03", "A returned flush is a barrier, and the flush level flushes",
  "When flush() of a logger returns, every message the calling thread logged before through loggers of the same pool has been given to its sinks and the logger's sinks have been flushed after it (with one worker thread, or with the concurrent lock-free pool; with the locking pool also the messages other threads finished logging earlier). "
  "Every delivered message at or above the flush level is followed by a flush of each sink of its logger before its worker handles another message, in synchronous and asynchronous mode. Messages of level off never trigger a flush.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of producers flushing and logging at random with workers; throwing sinks; all flush levels",
  "the tests flush once from one thread after the load; a barrier that lets messages of the same thread overtake fails only in rare interleavings",
  ["include/async_logger.h", "base/thread_pool.cpp", "src/logger.cpp", "base/async_msg.h"],
  [("flush message with a promise", "base/thread_pool.cpp enqueue_flush, handle_async_msg_"), ("flush level", "should_flush_ in include/logger.h, sink_log_ in src/logger.cpp, do_sink_log_ in include/async_logger.h")], (), ["a recording sink"],
  "at every returned flush the record of deliveries and sink flushes is checked"),
P("P04", "Logging and flushing always make progress",
  "No call to log, flush or shut down a pool blocks for ever or spins without end: while sinks return and the pool exists, every producer blocked on a full queue, every flush waiting for its turn and every idle worker proceeds. "
  "This holds for every queue size and number of threads (more producers than the queue has room for included), when sinks throw and when an allocation fails; a logger whose flush level is reached in a worker does not wait for itself.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings and queue sizes from 1, 1-4 producers and workers, spurious wake-ups, stalled threads, throwing sinks, failing allocations",
  "a test that passes shows one schedule that did not hang; lost wake-ups and producers that spin for ever need a full queue and an unlucky switch",
  ["base/block_queue.h", "base/thread_pool.cpp", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/concurrentqueue/blockingconcurrentqueue.h", "base/concurrentqueue/lightweightsemaphore.h", "include/async_logger.h"],
  [("condition variables of the blocking queue", "base/block_queue.h"), ("semaphore of the lock-free queue", "base/concurrentqueue/lightweightsemaphore.h"), ("enqueue loops", "enqueue_async_msg_ of the pools")], (), ["termination of the run"],
  "deadlock (no thread can run) and lack of progress within a bound under a fair schedule are violations"),
P("P05", "A thread pool starts and stops cleanly",
  "A pool refuses thread counts of 0 or above 1024, runs exactly the requested number of workers, calls the start and the stop callback once on each worker, and when it is destroyed (by its owner, by closing the library, by replacing it, or at process exit without closing) first delivers what was accepted and then ends all of its workers, also if an allocation fails meanwhile. If one of its threads cannot be started, the exception reaches who asked for the pool and no thread is left. "
  "A logger that outlives its pool keeps working as an object: each log or flush reports one error and no sink is touched.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of construction, logging, last release, library close and process exit; three pools; 1-4 workers; failing allocations and thread creations",
  "tests destroy pools after all work is done; the interesting cases are teardown with queued messages, workers that have not started, and exit-time order",
  ["base/thread_pool.cpp", "base/lock_thread_pool.h", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/registry.cpp", "include/async_logger.h"],
  [("terminate messages and join", "destructors of the three pools"), ("weak reference to the pool", "include/async_logger.h")], (), ["worker threads, callbacks, sinks, stderr"],
  "worker threads, callbacks and deliveries are counted for each way of giving the pool up"),
P("P06", "A message keeps its content on the way through the queue",
  "What a sink of an asynchronous logger receives equals what was logged: text of any length and any bytes, level, logger name, calling thread, source location, and the time of the log call (or the time the caller gave). "
  "The caller's buffers, strings and even the logger itself may be gone before the message is handled.",
  ["schedules", "inputs", "histories"], "all interleavings; texts from empty to beyond the inline buffer size, all overloads, several loggers with different names, wall-clock jumps",
  "tests log literals that live for ever; a dangling view only shows when the worker runs after the caller's buffer was reused",
  ["base/async_msg.h", "base/log_msg_buf.h", "base/log_msg.h", "include/logger.h"],
  [("copy of text and name into the message", "base/log_msg_buf.h"), ("moves of messages through queues", "base/async_msg.h")], (), ["a recording sink"],
  "a sink compares every field; memory is poisoned when freed, so a dangling view changes the text or is reported"),
P("P07", "The blocking queue is a bounded FIFO with exact accounting",
  "The blocking queue behaves, under any concurrent use, like a first-in-first-out queue of its capacity: a blocking put waits for room, an overriding put drops the oldest element when full, a discarding put drops its own, a blocking get waits and a timed get gives up only when its timeout has passed with the queue empty, and then at once, however the wall clock is set meanwhile. "
  "Every element is handed out at most once, and the counts of overridden and discarded elements are exact.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all interleavings of 2-4 threads of puts, overriding puts, discarding puts, gets, timed gets and counter operations; capacities from 1; spurious wake-ups, time leaps and wall-clock jumps",
  "the tests run one producer and one consumer; linearizability is a statement over all overlapping histories",
  ["base/block_queue.h", "base/circular_queue.h"], [("mutex and two condition variables", "base/block_queue.h"), ("ring with one spare slot", "base/circular_queue.h")],
  [("override and discard counters", "how many elements were dropped", "base/block_queue.h, base/circular_queue.h")], ["results of the queue's operations"],
  "each recorded history is checked for linearizability against a sequential bounded queue"),
P("P08", "The lock-free queues lose, duplicate and reorder nothing",
  "The bundled lock-free queue and its blocking form hand out every element exactly once, keep the order of each producer for any one consumer, honour bulk operations and capacity limits, report an exact size when idle, use memory of elements taken out again, and free everything on destruction, with and without tokens. "
  "A blocking get returns once an element is there and a timed one not before its time unless it has one; the semaphore never loses or invents a signal, and what was written before a signal is seen after the wait it ends.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all interleavings of 2-4 threads of single and bulk operations, explicit and implicit producers, threads that exit, failing allocations, throwing copies, spurious wake-ups",
  "the tests push and pop a few elements; races between block reuse, token recycling and thread exit need exact interleavings",
  ["base/concurrentqueue/concurrentqueue.h", "base/concurrentqueue/blockingconcurrentqueue.h", "base/concurrentqueue/lightweightsemaphore.h"],
  [("per-producer sub-queues, free list, block index", "base/concurrentqueue/concurrentqueue.h"), ("light-weight semaphore", "base/concurrentqueue/lightweightsemaphore.h")], (), ["results of the queue's operations", "construction and destruction of elements"],
  "elements are tracked from construction to destruction; data races are judged by the C++11 memory orders the code uses"),
P("P09", "Lines on shared streams stay whole, complete and in order",
  "Any number of sinks and loggers may write to standard output, standard error or a caller's stream at the same time, in any mix of plain and coloured sinks: every line reaches the stream exactly once and is never torn or mixed with another; lines of one thread keep their order. "
  "A plain console sink has passed a line on to the system when log() returns, a coloured one when flush() returns, an ostream sink when log() returns if it was asked to flush each message and else when flush() does. If the stream fails, be it a standard or the caller's one, the loss is reported as an error and never silent; the report names the cause the system gave.",
  ["schedules", "configurations", "fault_sequences", "histories"], "all interleavings of 1-4 threads over 1-4 sinks of all console kinds sharing streams, formatters switched while logging, synchronous and asynchronous loggers; failing and short writes to standard output, failing and throwing caller's streams",
  "tests print from few threads and compare by eye or at the end of one schedule; torn lines need two sinks of different classes on one stream and a switch between two writes, lost ones a failing stream",
  ["sinks/std_sinks.h", "sinks/std_color_sinks.h", "sinks/ansicolor_sink.h", "sinks/ostream_sink.h", "base/static_mutex.h"],
  [("one mutex for all console sinks", "base/static_mutex.h"), ("one formatted buffer per message", "log() of the console sinks"), ("flush per message", "sinks/std_sinks.h log")], (), ["content of the simulated standard output, standard error and caller's streams; error reports"],
  "the streams are cut into lines, each of which must be the rendering of one message under a pattern in force; what must be visible at the return of a call is looked up then"),
P("P10", "Flushed log lines survive a crash, and a restart appends",
  "Once a message is flushed (by a returned flush or the flush level), it is in the file after the process dies at any later point; what is found after a crash is a prefix of what was logged, whole lines in order with at most one torn line at the end, and nothing written before is changed. "
  "Reopening appends unless overwriting was asked for, and data synchronised to the disk survives a loss of power.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "process crash at any step, up to three incarnations; power loss with arbitrary loss of unsynchronised data; short and interrupted writes; buffer sizes; synchronous and asynchronous loggers, several threads",
  "tests read the file after an orderly close; no test kills the process or loses the page cache",
  ["base/file_base.h", "base/os.h", "sinks/basic_file_sink.h", "src/logger.cpp"],
  [("append mode, reopened after truncation", "base/file_base.h open"), ("flush and sync", "base/file_base.h flush, sync; base/os.h fsync")], (), ["content of the simulated disk after the crash"],
  "crash points are drawn over all steps of the run; the next incarnation reads the simulated disk and checks it against the record"),
P("P11", "A rolling file sink respects sizes and numbers and overwrites nothing early",
  "The rolling sink starts at the lowest number (within the maximum) whose file does not exist, writes whole messages, starts the next file exactly when the next message would make the current one exceed the limit, and never lets a file exceed the limit unless a single message does. "
  "It uses at most the given number of files, keeps messages in order over ascending numbers, and overwrites existing files only when all numbers are taken (then the last one, again and again); this also holds after restarts and crashes. A size limit of 0 or a maximum above 10000 is refused.",
  ["histories", "schedules", "crash_points", "configurations", "inputs"], "any sequence of message sizes, limits and file counts, pre-existing files with gaps, restarts, crashes, several threads",
  "tests roll a few fixed files; the statement is over all size sequences, pre-existing numbers, restarts and threads",
  ["sinks/rolling_file_sink.h", "base/file_base.h"], [("size account and roll", "sinks/rolling_file_sink.h output_, roll_file_"), ("choice of the number", "sinks/rolling_file_sink.h constructor, roll_file_")],
  [("cur_file_size_, file_index_", "bytes in the current file and its number", "sinks/rolling_file_sink.h")], ["names and contents of the files"],
  "a reference model predicts the files from the order of the messages; the disk is compared with it"),
P("P12", "I/O errors are contained, reported and survived",
  "When writing, flushing, opening, closing or creating a file fails, or memory runs out meanwhile, neither log() nor flush() nor the destruction of a sink throws at the caller or ends the process; messages lost to the error are never lost silently (at least one error is reported, and its text ends with the reason a failed call gave), and other sinks of the logger still get them. "
  "Once the disk works again, messages logged from then on reach the files complete and once, and no file descriptor or stream is leaked.",
  ["fault_sequences", "schedules", "histories"], "random sequences of failing open, write, fsync, close, stat and mkdir calls, short writes, full and read-only disks, over both file sinks, synchronous and asynchronous",
  "the tests run on a disk that never fails",
  ["base/file_base.h", "sinks/rolling_file_sink.h", "sinks/basic_file_sink.h", "src/logger.cpp", "include/async_logger.h", "base/exception.h"],
  [("exceptions caught around each sink", "src/logger.cpp sink_log_, flush_sink_; include/async_logger.h"), ("recovery of the rolling sink", "sinks/rolling_file_sink.h output_")], (), ["files, stderr, open descriptors"],
  "three phases (good, failing, good again) with injected faults; files, reports and descriptors are compared with the record"),
P("P13", "Opening a file retries, and makes its directories",
  "Opening a log file creates its missing parent directories, for relative, absolute and nested paths, also while other threads create the same ones; it tries the given number of times (5 by default) with the given pause between attempts (10 ms by default) and succeeds if any attempt does. "
  "It gives up with an error naming the file and the system's reason only after the last attempt, keeps existing content unless overwriting was asked for, and leaks no descriptor.",
  ["fault_sequences", "schedules", "inputs"], "any number and order of failing attempts, all path shapes, 2-4 threads creating overlapping directories, time leaps",
  "tests open files on a disk where the first attempt succeeds",
  ["base/file_base.h", "base/os.h"], [("retry loop", "base/file_base.h open"), ("directory creation", "base/os.h create_dir, get_dir")], (), ["result, simulated time, file tree"],
  "faults make chosen attempts fail on the simulated disk; result, elapsed simulated time and file tree are checked"),
P("P14", "A backtrace holds exactly the last messages",
  "With a backtrace of n enabled, a logger keeps the last n messages it was given since then, whatever their level and whether or not they were output; printing it hands these, oldest first, with their original level, text and time, to the logger's sinks between the two marker lines and empties it. "
  "This holds for threads that log, print, switch the backtrace on and off and clone the logger at the same time; a clone goes on with a copy of its own, a moved or swapped logger takes its backtrace along, and direct output is not affected.",
  ["schedules", "histories", "configurations"], "all interleavings of 1-4 threads of logging, printing, enabling with sizes from 0, disabling and cloning, synchronous and asynchronous loggers",
  "tests fill one ring from one thread; which messages a print may show while others log is a statement over overlapping histories",
  ["base/backtracer.h", "base/circular_queue.h", "src/logger.cpp", "include/logger.h"],
  [("ring of copied messages under a mutex", "base/backtracer.h"), ("print and switch", "src/logger.cpp backtrace functions")], [("ring of messages", "the last n messages", "base/backtracer.h, base/circular_queue.h")], ["a recording sink"],
  "each recorded history of logs, prints and switches is checked for linearizability against a bounded list"),
P("P15", "The registry is one consistent table",
  "Registering, initialising, finding and removing loggers, setting the default logger, the pool and the global levels, patterns and formatter, and visiting all loggers behave, under any concurrent use, as if one happened after the other: a name is held once, a second registration of it fails, global settings reach every registered logger and every one initialised later, replacing the pool removes the loggers that use the old one, and removing a logger that is the default removes the default. "
  "The free logging functions go to the logger that is the default at that time, and do nothing if there is none; closing empties the registry.",
  ["schedules", "histories", "configurations"], "all interleavings of 1-4 threads of all registry operations over few names, loggers that are shared between names, synchronous and asynchronous ones",
  "tests call these functions one after the other from one thread",
  ["base/registry.cpp", "base/registry.h", "include/learnlog.h", "src/learnlog.cpp"],
  [("one mutex over the map and the global settings", "base/registry.cpp"), ("free functions", "src/learnlog.cpp")],
  [("loggers_, default_logger_, global settings", "what is registered and what new loggers get", "base/registry.h")], ["results of the calls, levels and formatters of the loggers"],
  "each recorded history is checked for linearizability against a sequential table; so is where the messages of the free functions went, with defaults that come and go"),
P("P16", "Levels and patterns may change while logging",
  "Log levels, flush levels, sink levels and patterns may be changed at any time by any thread, directly, by name or globally, while others log: each message is judged, as a whole, by the levels in force at some moment of its log call (the sink's level and the pattern: of its delivery). "
  "A change that has returned holds for every message logged afterwards; what was read back is what was set, and in the end all sinks of a logger have the pattern it tells if only it set one. Copied, moved and swapped loggers keep their settings.",
  ["schedules", "histories", "configurations"], "all interleavings of 1-4 threads that log at all levels and change levels and patterns, 1-3 sinks, synchronous and asynchronous loggers, changes through the logger, the sink and the registry",
  "tests set levels before they log; data races and stale levels exist only in overlapping histories",
  ["include/logger.h", "src/logger.cpp", "sinks/sink.h", "sinks/basic_sink.h", "base/registry.cpp"],
  [("atomic levels", "include/logger.h, sinks/sink.h"), ("formatter changed under the sink's mutex", "sinks/basic_sink.h")], [("log_level_, flush_level_ of a logger, level_ of a sink", "the gates a message passes", "include/logger.h, sinks/sink.h")], ["a recording sink"],
  "for each message the values every setting may have had in its window are computed from the recorded changes; delivery, flush and text must fit one of them"),
P("P17", "Periodic work keeps its interval and stops when told",
  "A periodic function is called first one interval after it was made and then each time one interval after the last call ended: never earlier, never twice at the same time, not later than scheduling explains, whatever the wall clock does; its destructor waits for a running call, but for nothing else, and no call starts after it. An interval that is not positive means no calls and no thread. "
  "flush_every() flushes each registered logger in this way, those registered later included whatever their levels, and even if some flushes fail; a second call replaces the first, an interval of zero or closing the library ends it.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all interleavings of 1-3 threads that make, wait for and destroy periodic functions (10 ms to 24 h, durations up to three intervals), register, remove and log; loggers and sinks of all levels; wall-clock jumps of days, coarse wall clocks, spurious wake-ups, time leaps, failing flushes; three pools",
  "the test sleeps a few seconds and counts files; early or lost wake-ups, jumps and teardown races need a clock and a scheduler under control",
  ["base/periodic_function.h", "base/registry.h", "base/registry.cpp", "include/learnlog.h"],
  [("timed wait for the end of the object", "base/periodic_function.h"), ("one flusher under a mutex", "base/registry.h flush_every, base/registry.cpp close_registry")], [("active_", "the function goes on being called", "base/periodic_function.h")], ["calls of the function and flushes of the sinks in simulated time"],
  "call and flush times on the simulated steady clock are compared with the intervals in force"),
P("P18", "Formatted lines say when, where and by whom",
  "A formatted message is exactly what its pattern describes: each flag is replaced by its part of the message (time in the local zone at the time of the message down to nanoseconds, time since the message this formatter handled before and never negative, level, logger, process and logging thread, source location, text, custom flags), padded, aligned and cut as asked; unknown flags and other text stay as they are, a flag cut off by the end of the pattern is dropped, the line ends with the chosen end of line. "
  "This holds for any time the caller gives since 1970, for wall clocks that step in either direction, across changes of the zone's offset, for each of several sinks that got copies of one formatter, in any thread. Messages carry the time of their log call, and error reports that of the report. A message that cannot be formatted because no memory is left is missing at that sink, which is reported, and nothing else changes.",
  ["inputs", "schedules", "configurations", "histories"], "random patterns over all flags, paddings and custom flags; boundary times to 2200, eight zones and changes of offset; wall-clock jumps and coarse clocks; 1-3 threads, loggers and sinks, synchronous and asynchronous",
  "tests compare a few patterns with the time of the run; caches, deltas and zones fail only for certain sequences of times, copies and threads",
  ["sinks/formatters/pattern_formatter.cpp", "sinks/formatters/pattern_formatter.h", "sinks/formatters/flag_formatter.h", "sinks/formatters/filler.h", "base/fmt_base.h", "base/os.h", "base/log_msg.h", "src/logger.cpp"],
  [("list of flag formatters per pattern", "sinks/formatters/pattern_formatter.cpp"), ("date of a second kept for the next message", "sinks/formatters/flag_formatter.h full_formatter"), ("time of the last message", "sinks/formatters/flag_formatter.h duration_formatter"), ("copies for several sinks", "src/logger.cpp set_formatter, clone() of the formatters")],
  [("datetime_buf_, last_call_secs_, last_msg_time_", "what a formatter remembers of the message before", "sinks/formatters/flag_formatter.h")], ["text produced by the sinks' formatters, error reports"],
  "every line is compared with a reference formatter that knows the message and the one before it"),
P("P19", "Factories make, configure and register loggers, also concurrently",
  "A factory returns a logger of the asked name and kind with one sink made from its arguments, which has the global levels and formatter and is registered under its name (if that is free) before the factory returns; an asynchronous factory uses the registered pool of its kind or makes one, with the default size if none is registered and else with the size and the threads of the one it replaces, and registers it. "
  "Factories running at the same time never lose, replace or mix up each other's loggers or pools of the same kind; if the sink cannot be made the exception reaches the caller and nothing is registered. Every message logged through a returned logger arrives, or its loss is reported.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of 1-4 threads creating loggers of all four kinds with equal and different names, dropping, removing and flushing them; sinks whose construction fails",
  "tests create one logger after the other; two factories that make a pool at the same time need overlapping calls",
  ["include/sync_factory.h", "include/async_factory.h", "include/learnlog.h", "base/registry.cpp"],
  [("pool looked up or made under a lock", "async factories"), ("initialisation and registration", "base/registry.cpp initialize_logger")], (), ["returned loggers, content of the registry, sinks"],
  "every logger returned is used and looked up; what is registered, delivered and refused is compared with the calls"),
P("P20", "Every error is reported exactly once, numbered without gaps",
  "Each exception a sink, a formatter or the file layer raises inside the library produces exactly one report line on the error stream with its text; the reports are numbered 1, 2, 3 and so on without gaps or repetitions, whatever threads report at the same time, however the wall clock jumps, and also when no memory is left. "
  "A report is never torn or mixed with another.",
  ["schedules", "fault_sequences"], "all interleavings of workers and callers that report at the same time; wall-clock jumps and coarse clocks; failing allocations",
  "the test reports from two threads and looks at the result of one schedule",
  ["base/exception.h", "src/logger.cpp", "include/async_logger.h"], [("atomic counter and one print call", "base/exception.h handle_excpt")], (), ["stderr"],
  "the simulated error stream is parsed and compared with the list of exceptions thrown"),
P("P21", "Colours go to terminals only, and only around the marked text",
  "A coloured console sink uses colour exactly if its stream is a terminal and the environment says that the terminal has colours (COLORTERM is set, to whatever, or TERM contains the name of a known kind; asked once in the life of the process, by the first sink whose stream is a terminal). "
  "Then it puts the level's colour before and the reset after the text between the pattern's two colour marks, and nothing else is changed; a level colour changed while others log holds for each line as a whole. Without colour the line is exactly the formatted text.",
  ["configurations", "schedules", "inputs"], "all terminal types and stream kinds, patterns with no, one, crossed and nested marks, level colours changed while 1-4 threads log through sinks that share a stream",
  "the test prints colours for a human to look at; the decision depends on the environment and the stream, and a torn colour sequence on the schedule",
  ["sinks/ansicolor_sink.h", "sinks/std_color_sinks.h", "base/os.h", "sinks/formatters/pattern_formatter.cpp"],
  [("terminal detection", "base/os.h in_terminal, is_color_terminal"), ("colour range set by the formatter", "base/log_msg.h color_index_start/end, sinks/formatters/pattern_formatter.cpp"), ("escape sequences around the range", "sinks/ansicolor_sink.h log")], (), ["content of the simulated streams"],
  "every line is compared with its rendering under a pattern and colour in force; terminals and environment are simulated"),
P("P22", "What is taken is given back, and what is held is bounded",
  "Once loggers, sinks, formatters, pools, clones and periodic functions are destroyed and the library is closed, all memory, threads, files and descriptors they took are given back: making, using and destroying the same things again leaves nothing more behind, also when sinks or flushes throw, files cannot be opened or written, threads do not start or memory runs out while something is made; then the exception reaches the caller and nothing half made remains. "
  "A pool with the blocking queue never has more messages waiting than its queue size and one per worker, one with the lock-free queue no more than its size rounded to blocks of 32 per producer: callers wait instead. The memory of an idle pool does not grow with the number of messages it has handled, whatever its kind, nor with the number of threads that have logged and ended (but for the concurrent pool's entry that tells which worker serves a thread); it keeps no logger alive.",
  ["schedules", "fault_sequences", "histories", "configurations"], "random programs over the public interface in 1-3 threads, repeated 3-4 times in one process; three pools with queues of 1-70, 1-3 producers, bursts of up to 330 messages; failing allocations, sinks, files and threads",
  "a leak needs a certain interleaving of teardown or a failure half-way through a constructor, and unbounded queues need workers slower than the callers; tests look at the output only",
  ["base/registry.cpp", "base/thread_pool.cpp", "base/lock_thread_pool.h", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/block_queue.h", "base/concurrentqueue/concurrentqueue.h", "base/file_base.h", "sinks/basic_file_sink.h", "sinks/rolling_file_sink.h", "src/logger.cpp", "include/async_logger.h"],
  [("shared and unique ownership", "include/logger.h, base/registry.cpp"), ("clean-up of a constructor that fails", "base/thread_pool.h start_guard"), ("bounded queue", "base/block_queue.h enqueue, base/lockfree_thread_pool.h enqueue_async_msg_"), ("blocks used again", "base/concurrentqueue/concurrentqueue.h free list")],
  [("atomic_tokens_", "sub-queues of the concurrent pool", "base/lockfree_concurrent_thread_pool.h")], ["simulated heap, threads, descriptors and streams; messages waiting"],
  "blocks held on the simulated heap are compared between rounds and between bursts; accepted minus delivered messages are compared with the bound at each step"),
]


def design(tag, rows):
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- %s -->\n" % tag, "<!-- /%s -->" % tag
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])


def main():
    out = []
    for p in L:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        out.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in L:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            assert p["id"] in PROPS, p["id"]
            checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"], technique=TECH, level="exploration",
                               level_note="Sampled, exactly repeatable executions: " + p["note"] + ". Trusts the simulator (scheduler, clocks, disk, allocator) and the oracle; values at atomics are sequentially consistent, weaker orders are judged by a happens-before race detector."))
    rows = ["| id | property | scenarios (quick: %d s on 8 cores) | how it is decided, against which oracle | explored |" % QUICK_S, "|---|---|---|---|---|"]
    for p in L:
        rows.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], ", ".join(PROPS[p["id"]]["mix"]) if p["id"] in PROPS else "-", p["na"] or p["note"], p["text"]))
    design("props", rows)
    rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    sd = os.path.join(VERIF, "seeded")
    caught = {}
    cf = os.path.join(HERE, "seeded_results.json")
    if os.path.exists(cf):
        caught = json.load(open(cf))
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "?")))
    design("seeded", rows)
    assert set(PROPS) <= {p["id"] for p in L}, set(PROPS) - {p["id"] for p in L}
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: its sources are compiled with -fsanitize=thread instrumentation against the simulator's own runtime (sim/). Repairs of defects are the fix: commits listed in known-findings.txt.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
