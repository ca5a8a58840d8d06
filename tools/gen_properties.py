#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

S = ["big/scheduler.py", "big/heap.py"]
p("C01", "Scheduler never delivers early and always in time/priority/FIFO order",
  "A scheduler never hands out an event before the clock it was given reads at least that event's due time, however often or early its sleeps return. Whenever an event is handed out, it is the first of everything then scheduled, ordered by due time, then priority (lower first), then the order of scheduling. This holds for every time type whose arithmetic and comparison are consistent, and for relative and absolute scheduling alike. Between two readings of the clock it never asks to sleep for longer than, by the first of them, was left until the first event then scheduled.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all sequences of schedule/cancel/next operations, all clock behaviours (stalls, jumps, coarse ticks), all early or spurious wake-ups, all conforming time types",
  "The tests use one mock clock with exact sleeps and a few hand-picked event lists; early wake-ups, clock jumps, ties on all keys and non-float times are not sampled.",
  S, [("Event ordering", "big/scheduler.py Event.__lt__"), ("wake/re-check loop", "big/scheduler.py Scheduler._next"), ("relative time", "big/scheduler.py Scheduler.schedule")],
  ["next(scheduler)", "scheduler.queue"])
p("C02", "Concurrent scheduler operations are linearizable, delivery exactly once",
  "With a thread-safe regulator, every concurrent history of schedule, cancel, next, non-blocking next, truth test and queue listing is equivalent to some sequential order of those operations that respects real-time order and the clock. Each scheduled event is therefore either delivered exactly once or cancelled exactly once, never both, and a cancel of an event no longer scheduled raises ValueError and has no effect. Schedulers sharing one regulator do not affect each other's contents.",
  ["schedules", "histories"],
  "all interleavings (down to individual bytecode steps) of several threads using one or two schedulers",
  "The one threaded test runs a handful of real-time schedules with sleeps; races need a specific interleaving between two lines.",
  S, [("regulator lock around every queue access", "big/scheduler.py Scheduler.schedule/cancel/__bool__/queue/_next")],
  ["return values and exceptions of all public operations"])
p("C03", "No missed wake-ups: blocked consumers react to due or cancelled events",
  "With the library's thread-safe regulator, a thread blocked waiting for the next event is never left asleep while an event is already due or nothing is scheduled any more. Scheduling an earlier event or cancelling events from another thread takes effect on every waiting thread without the clock having to advance, and nobody waits for ever.",
  ["schedules", "histories"],
  "all interleavings of producers, cancellers and several blocked consumers, at every point between deciding to sleep and being asleep",
  "A lost wake-up needs the scheduling thread to run in the few instructions between releasing the lock and waiting; tests with real sleeps practically never hit it and cannot tell a late delivery from a slow machine.",
  S, [("wake after every queue change", "big/scheduler.py Scheduler.schedule/cancel"), ("interruptible sleep", "big/scheduler.py ThreadSafeRegulator.sleep/wake")],
  ["simulated time at which next(scheduler) returns"])
p("C04", "Scheduler survives failing clocks, sleeps, wakes and interrupts",
  "If the regulator's clock, sleep or wake raises, or a wait is interrupted by an exception, the exception reaches the caller, the lock is released, and no scheduled event is lost, duplicated or reordered. A relative schedule whose clock reading failed schedules nothing. Afterwards the scheduler keeps working normally for every thread.",
  ["fault_sequences", "histories", "schedules"],
  "all placements of exceptions in the regulator callbacks over all operation sequences",
  "No test injects a failure into a regulator.",
  S, [("context-managed lock", "big/scheduler.py Scheduler.schedule/cancel/_next"), ("reading the clock before touching the queue", "big/scheduler.py Scheduler.schedule")],
  ["exceptions, later deliveries"])
p("C05", "Scheduler keeps its locking contract with any regulator",
  "A scheduler reads its regulator's clock and wakes its sleepers only while holding that regulator's lock, sleeps only while not holding it, and never enters the lock recursively. It never asks to sleep for a negative interval, and it works with any regulator providing just the documented clock, sleep, wake and lock.",
  ["schedules", "configurations", "histories"],
  "all operation histories and interleavings, all conforming regulators (non-reentrant locks, locks that are only context managers, minimal regulators)",
  "Tests use the library's own regulators and a mock whose lock checks nothing.",
  S, [("lock discipline", "big/scheduler.py Scheduler")], ["calls observed by a regulator"])
p("C06", "Non-blocking iteration never sleeps and yields exactly the due events",
  "Iterating without blocking never sleeps, whatever the state of the queue or the behaviour of the clock and other threads. It stops exactly when no event is due at the clock it reads, having yielded all due events in order, and leaves every event that is not due scheduled.",
  ["schedules", "histories", "fault_sequences"],
  "all queues, clock steps between calls, and interleavings with other threads",
  "The tests drain two fixed queues with a mock clock that only moves on sleep.",
  S, [("blocking flag", "big/scheduler.py Scheduler._next"), ("iterator", "big/scheduler.py Scheduler.NonBlockingSchedulerIterator")],
  ["values of the non-blocking iterator, calls to the regulator"])
H = ["big/heap.py"]
p("C07", "Heap always behaves as a sorted sequence of its contents, even after failures",
  "After any history of operations, a heap's length, truth, membership, indexing, slicing, sorted listing and pops agree with a sorted list given the same operations. An operation that raises (empty heap, missing value, bad index, a source that fails part way through an extend, a value that cannot be compared to those in the heap) leaves the heap's contents unchanged. Copies are independent, and equality compares contents.",
  ["histories", "fault_sequences"],
  "all histories of several interleaved clients of one or more heaps, with failing and re-entrant sources",
  "Tests run a few fixed sequences; every index and slice against every history, and failures half way through extend, are not sampled.",
  H, [("heap operations", "big/heap.py Heap"), ("fast paths", "big/heap.py Heap.__getitem__")], ["all public results"])
p("C08", "Heap iteration sees one consistent sorted snapshot or raises",
  "Iterating over a heap yields its contents in sorted order as of the moment the iteration started, and consumes nothing from the heap. If the heap's contents change while an iteration is in progress, the next step of that iteration raises RuntimeError instead of yielding a stale value; if they do not change, it never raises. Iterations in progress never disturb each other.",
  ["histories", "schedules"],
  "all interleavings of several iterators with every mutating operation",
  "Tests modify the heap in one place in one loop.",
  H, [("version check", "big/heap.py Heap.HeapIterator")], ["iterator steps"])
G = ["big/graph.py"]
p("C09", "Topological sorter never hands out a node early or twice",
  "A view of a graph hands out a node only once all the nodes it then depends on have been reported done in that view, and hands out each node at most once until the view is reset or the node is removed and added again. This holds for every order in which workers finish and every addition or removal made while work is in progress.",
  ["schedules", "histories"],
  "all interleavings of worker completions, graph edits and views",
  "Tests check static graphs and a few edits at fixed points.",
  G, [("predecessor counts", "big/graph.py View._add_successor/_mark_node_done/_remove_node")], ["ready()", "done()"])
p("C10", "Topological sorter always makes progress on coherent acyclic graphs",
  "If a graph has no cycle and a view is coherent, then repeatedly taking ready nodes and reporting them done hands out every remaining node, after which the view is false. While work remains and no handed-out node is outstanding, at least one node is ready. Adding or removing nodes and dependencies mid-way never strands a node.",
  ["schedules", "histories"],
  "all histories of edits, completions, view copies and resets",
  "Tests never add a dependency on a finished node to a waiting one; stranding needs such a history.",
  G, [("ready bookkeeping", "big/graph.py View"), ("truth test", "big/graph.py View.__bool__")], ["ready()", "bool(view)"])
p("C11", "A view reports incoherence exactly when graph edits contradict it",
  "Using a view raises RuntimeError if and only if some node already handed out or done in that view now depends on a node that is not done in it. Removing the offending nodes or resetting the view makes it usable again. The exception names the nodes involved in such contradictions and no others. Other views are not affected.",
  ["histories"],
  "all histories of edits, completions, copies, resets over several views",
  "Tests try each conflict kind once; combinations of several conflicts and their resolution are not sampled.",
  G, [("conflict tables", "big/graph.py View._conflicts/_reverse_conflicts")], ["RuntimeError from ready/done/bool"])
p("C12", "Cycle detection is exact at every point of a graph's history",
  "At any moment the cycle query returns nothing if and only if the graph as edited so far is acyclic, and otherwise returns nodes that really form a cycle in it. Taking ready nodes raises the cycle error exactly when the graph then has a cycle, in every view and in copies. It answers in a number of steps bounded by the size of the graph.",
  ["histories"],
  "all histories of edits (including ones that create and later break cycles), queries and copies",
  "Tests check cycles on freshly built graphs.",
  G, [("dirty flag", "big/graph.py TopologicalSorter.add/cycle/copy")], ["cycle()", "ready()"])
p("C13", "Graph copies, views, resets and closes are faithful and independent",
  "A new view starts with no work handed out, a copied view or graph starts in exactly its source's state, and a reset view is as new. After that, using, editing, resetting or closing one never changes what another graph, copy or view of it reports, except that edits to a graph reach all of that graph's own views. Every operation on a closed view raises ValueError.",
  ["histories"],
  "all histories over several graphs, copies and views",
  "Tests copy once and compare at once; interference shows up only when both sides are used afterwards.",
  G, [("copying", "big/graph.py TopologicalSorter.copy, View.copy"), ("notification list", "big/graph.py TopologicalSorter.views")], ["all results of all views"])
p("C14", "Failed graph operations change nothing; duplicate completions count once",
  "An attempt to report unknown or not handed-out nodes as done, to remove an unknown node, or to add something unusable as a node raises and leaves the graph and all its views exactly as they were, even if some of the arguments were valid. Reporting the same node several times in one call is the same as reporting it once, and reporting it again later raises ValueError.",
  ["histories", "fault_sequences"],
  "all argument lists mixing valid, invalid, duplicate and failing nodes at every point of a history",
  "Tests check that bad calls raise, not what they leave behind.",
  G, [("argument checks", "big/graph.py View.done, TopologicalSorter.add/remove")], ["results after the failed call"])
p("C15", "Pushback iterator loses nothing, invents nothing and hides no failure",
  "A pushback iterator yields pushed values last-in first-out before values of its source, which it yields in order, each exactly once, whatever mix of steps, default-valued steps, truth tests and pushes is used. A failure of the source reaches the caller as that failure and never looks like the end of the data, and a source that recovers loses nothing. Once the source has said that it ended it is not asked again, and only pushed values follow. It reads at most one value ahead, and only when asked whether it is empty.",
  ["histories", "fault_sequences", "inputs"],
  "all operation histories over sources that stall, fail transiently or permanently, end, or are themselves falsy objects",
  "Tests use lists that never fail.",
  ["big/itertools.py"], [("pushback stack and source", "big/itertools.py PushbackIterator")], ["__next__, next, bool"])
p("C16", "State transitions follow the documented protocol in every history",
  "Each legal transition calls the old state's exit hook and then every observer registered when the observers' turn comes, with the state still the old one and the next state visible, then switches state, and only then calls the new state's entry hook, which may start another transition. Starting a transition while one is in progress, to the current state, to None or to a value of the wrong class raises the documented exception and changes nothing. Changing the list of observers from an observer affects only later transitions.",
  ["histories", "programs"],
  "all histories of transitions, hook behaviours (nested transitions, illegal attempts, observer edits) and configurations of hook names and state classes",
  "Tests run a few fixed machines.",
  ["big/state.py"], [("transition", "big/state.py StateManager.state"), ("observer snapshot", "big/state.py StateManager.observers")], ["callback order, state, next"])
p("C17", "A failing state callback never wedges or corrupts the state machine",
  "If an exit hook or an observer raises, the exception reaches whoever asked for the transition, the machine stays in its old state, is no longer transitioning, and accepts further transitions. If an entry hook raises, the exception propagates and the transition stands. Later transitions then follow the normal protocol.",
  ["fault_sequences", "histories"],
  "all placements of exceptions in hooks and observers over all histories, including nested transitions",
  "No test makes an observer or exit hook fail.",
  ["big/state.py"], [("transition in progress marker", "big/state.py StateManager.state")], ["state, next, later transitions"])
p("C18", "Accessors and dispatched events always reach the current state",
  "At every point of every history, including inside hooks and observers and while other threads transition the machine, an accessor reads and writes the manager's state as the manager itself would. A dispatched call invokes, with the same arguments and result or exception, the method of a state that was current during the call.",
  ["histories", "schedules"],
  "all points of histories (before, during, after transitions) and interleavings with other threads",
  "Tests dispatch only between transitions of one thread.",
  ["big/state.py"], [("accessor property", "big/state.py accessor"), ("dispatch wrapper", "big/state.py dispatch")], ["results of accessors and dispatched calls"])
T = ["big/text.py"]
p("C19", "Line pipelines stream: a failing or stalled source loses and invents nothing",
  "A pipeline of line iterators over a live source delivers each line as soon as the source has supplied what determines it, with that line's own number, column and original text, exactly as it would over the complete input. If the source fails, everything it determined before has already been delivered unchanged and the source's own exception reaches the consumer. A plain line iterator whose source fails transiently can be resumed and loses or duplicates nothing. An illegal dedent or an unterminated quote raises SyntaxError at the point where the pipeline reaches it, naming the line number and column it is at. A line a match filter lets through carries what the last such filter matched in it.",
  ["fault_sequences", "inputs", "schedules"],
  "all pipelines of the library's line modifiers, all inputs, all points where the source stalls or fails",
  "Tests feed complete strings and compare the whole result.",
  T, [("line source", "big/text.py lines"), ("line modifiers", "big/text.py lines_*")], ["items and exceptions seen by the consumer, number of lines pulled from the source"])
p("C20", "Delimiter splitting can be stopped and resumed from its carried state",
  "Splitting a text at delimiters can be suspended at any line or token boundary and resumed, in another call, from only the delimiters still open; the pieces then equal those of one uninterrupted run. The pieces always join back to the input, and failures (mismatched or unterminated delimiters) are reported in the same place, about the same delimiters, with either way of running.",
  ["crash_points", "inputs", "histories"],
  "all texts, delimiter sets (including multi-character and escaping ones) and all stop points",
  "Tests pass a state in a couple of fixed calls.",
  T, [("state argument", "big/text.py split_delimiters"), ("tokenizer", "big/text.py split_delimiters internals")], ["yielded tuples"])
p("C21", "Quote splitting can be stopped and resumed from its carried state",
  "Splitting a text at quoted strings can be suspended anywhere between its tokens, inside quoted strings too, and resumed, in another call, from only the opening quote in force; the pieces then equal those of one uninterrupted run apart from the cut. The pieces always join back to the input, and unterminated quotes are reported the same way.",
  ["crash_points", "inputs", "histories"],
  "all texts, quote sets and all stop points that do not split a quote, an escape or a line end",
  "Tests pass a state in a couple of fixed calls.",
  T, [("state argument", "big/text.py split_quoted_strings")], ["yielded tuples"])
p("C22", "Lazy text iterators never interfere with one another",
  "Any number of text iterators and calls, advanced in any interleaving, abandoned half way, or used from different threads, each give exactly what they give when used alone. Caches shared between them never change a result.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of several text iterators and calls, with cold and warm caches",
  "Tests run one iterator at a time to its end.",
  T, [("memoised separator and delimiter tables", "big/text.py __separators_to_re, _delimiters_to_state_and_tokens"), ("generators", "big/text.py")], ["results per iterator"])
F = ["big/file.py"]
p("C23", "Touch creates or refreshes a file and never destroys data",
  "When touch returns, the path existed at some moment during the call with its modification time set to the time of the call, and the call never changed the contents of an existing file, even one created or written by somebody else during the call. If the file system refuses, touch raises and leaves contents alone.",
  ["schedules", "fault_sequences"],
  "all interleavings of its file-system calls with other processes creating, writing and removing the path, and all failing calls",
  "Tests touch files nobody else uses.",
  F, [("existence check, then create or update", "big/file.py touch")], ["file contents and times"])
p("C24", "Making a directory safely succeeds whenever it can, whoever else is active",
  "If making a directory safely returns, the path was a directory at some moment during the call, with missing parents created and any file formerly at the path removed. Concurrent calls for the same or overlapping paths all succeed, and the call never removes anything but a file at the very path given. If it cannot succeed it raises, and it does not hide a file-system error.",
  ["schedules", "fault_sequences", "crash_points"],
  "all interleavings of the calls' file-system steps with each other and with others, all failing steps, retries after a crash",
  "Tests call it alone.",
  F, [("unlink then make directories", "big/file.py safe_mkdir")], ["file tree, exceptions"])
p("C25", "Unlinking safely removes a file or does nothing, also when raced",
  "Unlinking a path safely removes it if it is a file and does nothing if nothing or a directory is there, including when another process removes or replaces the path during the call. It removes nothing else, and an error of the file system in removing the file, other than the file being gone, is reported, not hidden.",
  ["schedules", "fault_sequences"],
  "all interleavings with other processes removing, creating and replacing the path, and all failing calls",
  "Tests call it alone.",
  F, [("check then unlink", "big/file.py safe_unlink")], ["file tree, exceptions"])
p("C26", "Temporary directory changes are always undone",
  "Leaving the block of a temporary directory change returns to the directory current before it, whether the block ends normally, raises, is abandoned, or changed directory itself, and however such blocks are nested. If entering fails the current directory is unchanged, and exceptions of the block are never swallowed.",
  ["fault_sequences", "histories", "crash_points"],
  "all nestings of blocks, exceptions at every point, and failing directory changes",
  "Tests use one or two nested blocks that end normally.",
  F, [("context manager", "big/file.py pushd")], ["current directory"])
p("C27", "Searching files is exact and closes the file under every I/O behaviour",
  "Searching a file's lines returns exactly the matching lines (with right numbers if asked) of the content it read, however the operating system splits the reads, and never reports a partial search as complete: a failing read raises. The file is closed on every path out.",
  ["fault_sequences", "inputs"],
  "all contents, patterns and modes, all splits of reads, and errors at every read",
  "Tests read small files in one piece without errors.",
  F, [("whole-file read in a with block", "big/file.py grep, fgrep")], ["results, open files"])
L = ["big/log.py"]
p("C28", "Log timeline matches the clock it was given",
  "A log reports each event exactly once, in order, starting with its own start event at time zero, at the time its clock showed when the event was logged relative to the last reset, with the elapsed time to the next event and the right nesting depth. Resetting forgets everything before it, and iterating while logging goes on sees a consistent prefix. An event the log refuses, or whose time it cannot read, leaves no trace in it.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of logging, entering, leaving, resetting and iterating, with clocks that jump, stall, fail or have any origin",
  "Tests use the real clock, so they cannot check times.",
  L, [("event list", "big/log.py Log")], ["iteration tuples"])
p("C29", "Printed logs show the same times and events as the log itself",
  "Printing a log writes one row per event, in order, whose start and elapsed columns denote the same times as iterating over the log does, truncated to the requested number of digits, with the event's text and nesting. This holds for times of any size and every formatting option, and a failing output loses no logged event.",
  ["histories", "fault_sequences"],
  "all histories, clock values from nanoseconds to years, all formatting options, output failing at any row",
  "Tests ignore the printed times.",
  L, [("time formatting", "big/log.py Log.print")], ["printed rows"])
p("C30", "Current-time timestamps are never torn and sort in time order",
  "A timestamp of the current time denotes one instant, no earlier than the call's start and no later than its end, in the documented format. Successive timestamps of one kind therefore sort in the order they were taken as long as the clock does not go back, also across second, day, month and year boundaries and when the clock moves during the call.",
  ["schedules", "fault_sequences", "histories"],
  "all clock positions, advances between any two clock reads, pauses of the thread between any two steps",
  "Tests check only the shape of current timestamps.",
  ["big/time.py"], [("single clock reading", "big/time.py timestamp_human, timestamp_3339Z")], ["returned strings"])
p("C31", "Bound inner classes are stable and correct under concurrent first access",
  "Every access to a bound inner class through one outer object gives the same class, which, while that object lives, passes it to new instances; different outer objects give different classes. Bound classes keep the subclass relations of the classes they were made from within the same outer object. A class decorated twice, as bound under one name and as unbound under another, is bound under the one and not under the other. This holds even if several threads access them for the first time at once.",
  ["schedules", "programs", "histories"],
  "all interleavings of first accesses by several threads over all inner class hierarchies",
  "Tests are single threaded; the double creation needs two threads inside the first access.",
  ["big/boundinnerclass.py"], [("caching in the outer object", "big/boundinnerclass.py _Worker.__get__")], ["identity, issubclass, outer argument"])
p("C32", "File size and modification time are those of one moment of the call",
  "The size or the modification time reported for a path is the one that what is there (following links) had at one moment of the call, whatever others do to it meanwhile. If the file system cannot tell, the error reaches the caller instead of a made-up value, and nothing is ever changed.",
  ["schedules", "fault_sequences"],
  "all interleavings with other processes changing the file, all sizes and times, and all failing calls",
  "Tests look at one file at rest.",
  F, [("stat", "big/file.py file_size, file_mtime, file_mtime_ns")], ["returned values, exceptions, file tree"])

p("C33", "Versions, stamps of given times and small helpers remember nothing",
  "Any number of versions, timestamps of given times, number conversions, encodings, file name translations, abstract methods and deprecated splitters, used in any interleaving, abandoned or interrupted part way, from different threads, or while the process's time zone changes, each give exactly what they give when used alone in a new process. They never change their arguments, and a version looks and compares the same for ever.",
  ["schedules", "histories", "crash_points"],
  "all interleavings and histories of such calls, interrupts at any line, and time zone changes between calls",
  "Tests make each call once, alone, in one time zone.",
  ["big/version.py", "big/builtin.py", "big/time.py", "big/file.py", "big/text.py", "big/deprecated.py"],
  [("immutable values", "big/version.py Version"), ("local time looked up per call", "big/time.py timestamp_human"), ("generators", "big/deprecated.py")], ["results per call, arguments afterwards"])
p("C34", "Modules load in any order, again after a failure, optional packages or not",
  "Every module of the library can be imported first, last, in any order and form, and again after an import that was interrupted or could not read a file. The optional packages (regex, python-dateutil) may be installed, missing or unable to load. The outcome is always the same: every public name is there once, big.all offers the identical objects, and they behave alike; only the timestamp parser is absent where python-dateutil is.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "all import orders and forms, all interrupts and read errors during imports, all combinations of optional packages",
  "Tests import everything once, in one order, in one environment.",
  ["big/all.py", "big/text.py", "big/time.py", "big/deprecated.py", "big/metadata.py"],
  [("re-export", "big/all.py"), ("optional imports", "big/text.py, big/time.py"), ("imports between modules", "big/*.py")], ["import outcome, public names, results of sample uses"])

p("C35", "Nothing delivered, removed or abandoned is kept alive",
  "Once a value has been delivered, removed, cancelled, replaced or cleared and callers have dropped it, the library does not keep it alive: scheduled events, heap values, nodes of a graph, states and observers, pushed-back and peeked values, logged events before a reset, arguments of text functions, outer objects of bound inner classes. Orders of a graph that have ended or been abandoned leave nothing behind in it, an exhausted source is let go, line pipelines over a source hold at most a bounded number of the lines they have yielded, and a splitter that has ended or been abandoned holds nothing. This holds after any history of use, also one in which callbacks fail.",
  ["histories", "fault_sequences"],
  "all histories of use of each part, with failures of sources, hooks, clocks, comparisons and outputs, and all moments of garbage collection",
  "Tests never look at what stays alive.",
  ["big/scheduler.py", "big/heap.py", "big/graph.py", "big/itertools.py", "big/state.py", "big/log.py", "big/text.py", "big/boundinnerclass.py"],
  [("containers and their removals", "big/heap.py, big/graph.py, big/scheduler.py"), ("streams", "big/text.py multisplit, lines; big/itertools.py"), ("weak references", "big/boundinnerclass.py")], ["weak references to the values"])

def n(id, title, statement, files, mech, why="Tests sample a few inputs."):
    p(id, title, statement, ["inputs"], "all inputs", why, files, mech)
n("N01", "Splitting and stripping by many separators is lossless and greedy",
  "Splitting by several separators while keeping them loses no text: the pieces join back to the input, longest separators win, and the options (strip, separate, limit, reverse) act as documented for strings and bytes alike.", T, [("multisplit family", "big/text.py multisplit, multistrip, multipartition")])
n("N02", "Regex partition and reverse search agree with forward matching rules",
  "Partitioning by a pattern loses no text, and searching backwards finds the non-overlapping matches a right-to-left scan would find, in descending order of position.", T, [("reverse finder", "big/text.py reversed_re_finditer, re_partition")])
n("N03", "Version objects order, normalise and hash as the packaging rules say",
  "Version comparison is a total order equal to the packaging specification's, equal versions hash equally, and a version's text form parses back to an equal version.", ["big/version.py"], [("comparison", "big/version.py Version")])
n("N04", "Word wrapping and column merging respect margins and lose no words",
  "Wrapping never exceeds the margin unless a single word does, keeps every word in order, and merged columns keep each column's text inside its width.", T, [("wrapping", "big/text.py wrap_words, split_text_with_code, merge_columns")])
n("N05", "Integers in words denote the integer",
  "The words produced for an integer, cardinal or ordinal, denote exactly that integer.", T, [("words", "big/text.py int_to_words")])
n("N06", "Translated file names are legal and never empty",
  "A translated file name contains only characters legal on the target file system and only illegal characters are changed.", F, [("translation tables", "big/file.py translate_filename_to_exfat, translate_filename_to_unix")])
n("N07", "Number conversion helpers follow their documented defaults",
  "The tolerant number conversions return the converted value if conversion is possible and otherwise the documented default, and never raise.", ["big/builtin.py"], [("conversions", "big/builtin.py")])
n("N08", "Text case and whitespace normalisers are idempotent and lossless as documented",
  "Normalising white space or title case twice equals doing it once, and the splitters for title-cased text join back to their input.", T, [("normalisers", "big/text.py normalize_whitespace, gently_title, split_title_case, combine_splits, encode_strings")])
n("N09", "Converting given times to timestamps and parsing them back is exact",
  "A timestamp made from a given time denotes that time in UTC, and parsing a timestamp and formatting it again gives the same instant.", ["big/time.py"], [("conversion", "big/time.py timestamp_3339Z, timestamp_human, parse_timestamp_3339Z")])
n("N10", "Deprecated interfaces keep behaving as they did",
  "The deprecated interfaces give the results they documented, in terms of the current ones.", ["big/deprecated.py"], [("compatibility layer", "big/deprecated.py")])
with open(OUT, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
