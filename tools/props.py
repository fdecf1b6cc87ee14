"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=""):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.!?](?:\s|$)", statement)) <= 3, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(
                      files=["aioreactive/" + f for f in files],
                      mechanism=[dict(name=a, where=b) for a, b in mech],
                      observe_at=observe or ["the events an observer receives"], hook_needed=None)))
    NOTES[id] = note


NOTES = {}

prop("C01", "Rx grammar: values, then at most one error or completion, then nothing",
     "For every pipeline of the library's operators over its subjects and creation functions, whatever sequence of "
     "awaited send, error and close calls the producers make (also after termination) and whichever user callbacks "
     "raise, an observer receives zero or more values, then at most one error or completion, and nothing after that.",
     ["histories", "inputs", "programs"],
     "every operator, alone and composed in pairs, every sequence of producer calls up to the bound, every value, every raising callback",
     "the tests drive each operator with one or two hand-written, well-behaved call sequences and never call a producer again after it terminated",
     ["observers.py", "subject.py", "combine.py", "filtering.py", "transform.py", "create.py"],
     [("safe observer mailbox stops after the first terminal event", "aioreactive/observers.py safe_observer"),
      ("stopped flag of the subjects", "aioreactive/subject.py AsyncSingleSubject, AsyncMultiSubject"),
      ("stopped flag of scan", "aioreactive/transform.py _scan")])

prop("C02", "Observer calls are serialized for operators with concurrent sources",
     "When several producers feed an operator that combines or serializes sources (merge, concat, flat_map, "
     "switch_latest, combine_latest, with_latest_from, take_until, take, skip, take_last, skip_last, "
     "distinct_until_changed, debounce, zip with a sequence), no call to the observer starts before the previous one "
     "has returned, however the producers' events overlap and however long the observer takes. The grammar of values "
     "followed by at most one terminal event also holds then, and no value that was sent before every terminal event is lost.",
     ["schedules", "inputs"],
     "every interleaving of two producers' events up to the bound, every duration of each observer call",
     "the tests use observers that return immediately and producers that take turns",
     ["observers.py", "combine.py", "filtering.py", "transform.py", "timeshift.py"],
     [("one mailbox per safe observer", "aioreactive/observers.py safe_observer"),
      ("operator mailboxes", "aioreactive/combine.py merge_inner, combine_latest, with_latest_from")],
     ["start and end of each observer call"])

prop("C03", "A disposed subscription is silent and releases its sources",
     "Once disposing a subscription has returned, its observer receives no event that was produced afterwards or is "
     "still queued or scheduled in the pipeline, at whatever moment the disposal happens, and every subscription the "
     "pipeline holds on its sources is released once pending work has settled. Disposing twice is harmless.",
     ["schedules", "crash_points", "histories"],
     "every operator and every creation function except single and empty (whose events are already under way when subscribing returns); every moment of disposal, by position in the event sequence, by loop turn and by time",
     "the tests dispose at one fixed time in a handful of operators and do not count source subscriptions",
     ["observers.py", "create.py", "timeshift.py", "combine.py", "transform.py", "filtering.py", "subject.py"],
     [("silenced observer of a disposed subscription", "aioreactive/observers.py disposable_observer, auto_detach_observer"),
      ("cancellation of workers", "aioreactive/create.py canceller; aioreactive/timeshift.py delay"),
      ("inner subscriptions disposed on cancel", "aioreactive/combine.py merge_inner; aioreactive/transform.py switch_latest")],
     ["observer events after dispose", "number of live subscriptions on a source"])

prop("C04", "When the output terminates, every source subscription is released",
     "When the observer of an operator has received a completion or an error, whichever source, inner source, count, "
     "accumulator or callback caused it, every subscription that the operator holds on any source that has not itself terminated is disposed "
     "once pending work has settled, so that no source keeps producing into a finished pipeline.",
     ["histories", "schedules", "fault_sequences"],
     "every operator that can terminate before its sources do; every order of events from its sources up to the bound",
     "the tests check delivered values only; a leaked source subscription is invisible to them",
     ["observers.py", "combine.py", "filtering.py", "transform.py", "timeshift.py"],
     [("auto-detaching observer", "aioreactive/observers.py auto_detach_observer"),
      ("inner subscriptions owned by the outer one", "aioreactive/combine.py merge_inner; aioreactive/transform.py switch_latest"),
      ("scan disposes on accumulator failure", "aioreactive/transform.py _scan")],
     ["number of live subscriptions on a source"])

prop("C05", "Subscriptions to the same observable are independent",
     "Two subscriptions to one observable, or one operator value applied to two sources, behave each exactly as if it "
     "were alone: counters, buffers, indexes, latest values, timers and termination are never shared, whatever the "
     "interleaving of the two, and whenever one of them is disposed or fails.",
     ["histories", "schedules", "configurations"],
     "every operator with per-subscription state; every interleaving of events and of the second subscription and first disposal up to the bound",
     "hardly any test subscribes twice to the same observable",
     ["filtering.py", "combine.py", "transform.py", "timeshift.py", "create.py", "observers.py"],
     [("state created inside the subscribe function", "aioreactive/filtering.py, aioreactive/combine.py, aioreactive/transform.py, aioreactive/timeshift.py subscribe_async closures")])

prop("C06", "A source error arrives once, as the same exception, after earlier values",
     "If a source fails, every operator other than catch and retry delivers that same exception object to its observer "
     "exactly once, after every value it owed for earlier elements (an outer error may overtake inner streams of the flat_map family that are still under way), and never a completion.",
     ["inputs", "fault_sequences"],
     "every operator, each of its sources, every failure position up to the bound, every exception type",
     "the tests throw one kind of exception at one position for a few operators",
     ["observers.py", "combine.py", "filtering.py", "transform.py", "timeshift.py", "subject.py"],
     [("error forwarding", "aioreactive/observers.py safe_observer; aioreactive/transform.py transform"),
      ("terminal message handling", "aioreactive/combine.py, aioreactive/filtering.py, aioreactive/timeshift.py")])

prop("C07", "Exceptions of user callbacks surface and never corrupt the stream",
     "An exception raised by a user callback (mapper, predicate, chooser, accumulator, inner-observable factory, "
     "handler) for some element is never swallowed: it reaches the observer as an error, or is raised to the producer "
     "awaiting the send. The element it was raised for yields no value, and the elements before it are unaffected, except inner streams of the flat_map family that are still under way when an error ends the output. "
     "The same goes for an exception raised while an inner source of merge_inner, flat_map, concat or switch_latest "
     "is being subscribed to: it reaches the observer as an error and does not stall the stream.",
     ["inputs", "fault_sequences"],
     "every operator that takes a callback, every position at which the callback raises, over a subject and over a queueing source",
     "the tests raise from a callback in four operators at a fixed element",
     ["transform.py", "filtering.py", "combine.py", "observers.py", "create.py"],
     [("callback runs inside the producer's await", "aioreactive/transform.py transform"),
      ("safe observer turns exceptions into errors", "aioreactive/observers.py safe_observer"),
      ("accumulator failure", "aioreactive/transform.py _scan")],
     ["observer events", "exceptions raised by the producer's await"])

prop("C08", "Back-pressure: a send returns only after downstream has processed the value",
     "Through subjects and the element-wise operators (map, filter, choose, starmap, starfilter, scan and their async "
     "variants, and any composition of them), awaiting a send, error or close call on the producer returns only after every observer "
     "reached by that event has finished processing it, however long the observer or an async callback takes.",
     ["schedules", "inputs"],
     "every such operator and pair of operators, every number of loop turns and duration the observer and callbacks take",
     "the tests' observers return at once, so early return of a send is invisible",
     ["subject.py", "transform.py", "filtering.py", "observers.py"],
     [("awaited call chain", "aioreactive/transform.py transform; aioreactive/subject.py asend")],
     ["completion time of the producer's await against the end of the observer's call"])

prop("C09", "map, map_async, starmap: each element is transformed once, in order",
     "map, map_async, starmap and starmap_async deliver, for each source element, the callback's result for that "
     "element, in source order, calling the callback exactly once per element; termination passes through unchanged.",
     ["inputs", "programs"],
     "every sequence up to the bound, every value (also None and falsy ones), every callback (an uninterpreted function)",
     "the tests map three-element sequences with fixed functions",
     ["transform.py", "__init__.py"],
     [("handlers over transform", "aioreactive/transform.py map, map_async, starmap, starmap_async")])

prop("C10", "filter, filter_async, starfilter, choose: exactly the accepted elements",
     "filter, filter_async and starfilter deliver exactly the elements for which the predicate is true, unchanged; "
     "choose and choose_async deliver exactly the contents of the Some results, whatever the content. Order is "
     "preserved, the callback is called exactly once per element, and termination passes through unchanged.",
     ["inputs", "programs"],
     "every sequence up to the bound, every value (also None and falsy ones), every predicate (uninterpreted)",
     "the tests filter fixed sequences with fixed predicates",
     ["filtering.py", "__init__.py"],
     [("handlers over transform", "aioreactive/filtering.py filter, filter_async, starfilter, choose, choose_async")])

prop("C11", "take, skip, take_last and skip_last keep exactly the documented elements",
     "For every sequence and count, take(n) delivers the first n elements and completes with the n-th (n > 0), skip(n) all but the "
     "first n, take_last(n) the last n (only on completion), skip_last(n) all but the last n, each element at most "
     "once, unchanged and in order; take rejects a negative count.",
     ["inputs", "configurations"],
     "every sequence length and count up to the bound, every value, sources that complete, fail or stay open",
     "the tests try one count per operator",
     ["filtering.py", "__init__.py"],
     [("counters and buffers", "aioreactive/filtering.py take, skip, take_last, skip_last")])

prop("C12", "Slicing a stream equals slicing the list of its elements",
     "For every start, stop and positive step for which stop is absent or negative or start is not negative, slicing a completed stream "
     "with slice or with [start:stop:step] gives the elements of the Python list slice, and [i] with i >= 0 gives the "
     "i-th element if there is one; a negative step is rejected.",
     ["inputs", "configurations"],
     "every combination of start, stop, step and length up to the bound",
     "the tests try a handful of slices of one eight-element sequence",
     ["filtering.py", "__init__.py"],
     [("composition of skip, take, take_last, skip_last, filteri", "aioreactive/filtering.py slice; aioreactive/__init__.py AsyncRx.__getitem__")])

prop("C13", "distinct_until_changed removes exactly the repetitions",
     "distinct_until_changed delivers the first element and then exactly those elements that are not equal to the "
     "element immediately before them in the source, in order, whatever the values. If comparing two elements raises, "
     "the observer gets that exception and nothing more.",
     ["inputs"],
     "every sequence up to the bound, every equality pattern of its values (also None and falsy ones)",
     "the tests use two fixed sequences",
     ["filtering.py", "notification.py"],
     [("comparison with the previous notification", "aioreactive/filtering.py distinct_until_changed; aioreactive/notification.py OnNext.__eq__")])

prop("C14", "scan and reduce compute the left fold",
     "scan and scan_async deliver, after each element, the left fold of the accumulator over the elements so far from "
     "the initial value; reduce and reduce_async deliver, on completion, the final fold (nothing for an empty source). "
     "If the accumulator raises, the observer gets that exception at that element and nothing more.",
     ["inputs", "fault_sequences"],
     "every sequence up to the bound, every accumulator (uninterpreted), every position at which it raises",
     "the tests fold fixed integer sequences with addition",
     ["transform.py", "filtering.py", "__init__.py"],
     [("fold state", "aioreactive/transform.py _scan, reduce_async")])

prop("C15", "Indexed and zipped operators pair the i-th element with the i-th item",
     "mapi, mapi_async, filteri, flat_mapi and zip with a sequence give the i-th element since subscription the index "
     "i (or the i-th item of the sequence), counting from zero without gaps or repeats; zipping completes when an "
     "element arrives after the sequence is exhausted.",
     ["inputs", "programs"],
     "every sequence and zip length up to the bound, every value and callback",
     "the tests use one three-element mapi",
     ["combine.py", "transform.py", "filtering.py"],
     [("zip with an index sequence", "aioreactive/combine.py zip_seq; aioreactive/transform.py mapi, mapi_async, flat_mapi; aioreactive/filtering.py filteri")])

prop("C16", "merge and flat_map deliver every inner value once and complete last",
     "merge, merge_seq, unlimited merge_inner, flat_map and its variants deliver every value of every inner source exactly once, in "
     "arrival order, complete when the outer and all inner sources have completed and not before, and fail with the first error of any of "
     "them, after which no inner source is delivered any more.",
     ["schedules", "histories", "inputs"],
     "every interleaving of outer and inner events up to the bound, every value",
     "the tests merge two or three sources with fixed timing",
     ["combine.py", "transform.py", "__init__.py"],
     [("merge mailbox with subscription map and queue", "aioreactive/combine.py merge_inner"),
      ("flat_map family", "aioreactive/transform.py flat_map, flat_mapi, flat_map_async, flat_mapi_async")])

prop("C17", "Limited concurrency and concatenation keep order and lose nothing",
     "With a concurrency limit n > 0, merge_inner never has more than n inner sources subscribed, subscribes to waiting "
     "ones in arrival order as soon as a place is free, and delivers all their values; with n = 1, and in concat, concat_seq and "
     "concat_map, the output is the inner sequences one after the other. It completes exactly when the outer and all inner sources, waiting ones included, have completed.",
     ["schedules", "histories", "configurations"],
     "every limit, number of inner sources and interleaving of their events and completions up to the bound",
     "the tests concatenate two sources and never set another limit",
     ["combine.py", "transform.py", "__init__.py"],
     [("queue of waiting inner sources", "aioreactive/combine.py merge_inner, concat_seq"),
      ("concat_map", "aioreactive/transform.py concat_map")],
     ["observer events", "number of live inner subscriptions"])

prop("C18", "switch_latest mirrors only the most recent inner source",
     "switch_latest, flat_map_latest and flat_map_latest_async deliver every value of the most recent inner source and "
     "nothing that an earlier one produces once a newer one has been subscribed to, release the superseded subscription, complete when the outer and the "
     "latest inner source have completed and not before, and fail with the error of the outer or the latest inner source.",
     ["schedules", "histories", "inputs"],
     "every interleaving of outer and inner events up to the bound, including inner events racing with the switch",
     "there is one flat_map_latest-style test with fixed timing",
     ["transform.py"],
     [("latest id guard and mailbox", "aioreactive/transform.py switch_latest")])

prop("C19", "combine_latest pairs the latest values of both sources",
     "combine_latest delivers, for each element of either source once both have produced one, exactly one tuple of the "
     "latest element of the first and of the second source, in arrival order; it does not complete before a source "
     "has, has completed when both have, and fails with the first error.",
     ["schedules", "inputs"],
     "every interleaving of the two sources' events up to the bound, every value (also None and falsy ones)",
     "combine_latest has no test",
     ["combine.py"],
     [("latest values in the mailbox loop", "aioreactive/combine.py combine_latest")])

prop("C20", "with_latest_from samples the other source only on source elements",
     "with_latest_from delivers, for each source element that arrives when the other source has produced a value, "
     "exactly one tuple of the element and the other's latest value, and nothing for the other's elements; it completes when the source "
     "completes and fails with the first error of either.",
     ["schedules", "inputs"],
     "every interleaving of the two sources' events up to the bound, every value (also None and falsy ones)",
     "the tests use one fixed interleaving per outcome",
     ["combine.py", "__init__.py"],
     [("latest value in the mailbox loop", "aioreactive/combine.py with_latest_from")])

prop("C21", "take_until mirrors the source until the other source produces a value",
     "take_until delivers every source element that arrives before the first element of the other source and then "
     "completes with it; the other's completion alone changes nothing, the source's own termination passes through, and an error of "
     "the other source fails the result.",
     ["schedules", "inputs"],
     "every interleaving of the two sources' events up to the bound, every value (also falsy ones)",
     "take_until has no test of orderings",
     ["filtering.py", "observers.py"],
     [("completion on the other's first value", "aioreactive/filtering.py take_until")])

prop("C22", "catch continues with the handler's source; retry resubscribes n times",
     "catch delivers the source's elements and, on an error, calls the handler once with that exception and continues "
     "with the elements and termination of the returned source; an exception raised by the handler becomes the error. "
     "retry(n) subscribes to the source again after each of the first n errors and forwards the next one, delivering the values of every attempt; without an error both are transparent.",
     ["inputs", "fault_sequences", "histories"],
     "every number of values and failures per attempt up to the bound, synchronous and asynchronous sources, every retry count up to the bound",
     "catch and retry have no tests",
     ["transform.py"],
     [("handler subscription", "aioreactive/transform.py catch"), ("bounded resubscription", "aioreactive/transform.py retry")],
     ["observer events", "number of subscriptions to the source"])

prop("C23", "delay shifts every event by the given time and keeps order and spacing",
     "delay(d) delivers each value, the completion and an error exactly d seconds after the source produced them, in "
     "source order with their spacing preserved, for every arrival pattern and every d >= 0, as long as the observer does not take time.",
     ["inputs", "schedules"],
     "every arrival time pattern and delay (real numbers) up to the bound on the number of events",
     "the tests delay two or three events with fixed spacing",
     ["timeshift.py"],
     [("due times in the mailbox", "aioreactive/timeshift.py delay")],
     ["event times at the observer"])

prop("C24", "debounce delivers exactly the values followed by a quiet period",
     "debounce(d) delivers a value exactly when d seconds have passed without a newer value from the source (and "
     "without termination), once, d seconds after it arrived, in order; a value followed by another one in less than d seconds is dropped. Completion "
     "and errors of the source pass through at once.",
     ["inputs", "schedules"],
     "every arrival time pattern and window (real numbers) up to the bound on the number of events",
     "the tests use two fixed patterns",
     ["timeshift.py"],
     [("index of the newest value", "aioreactive/timeshift.py debounce")],
     ["event times at the observer"])

prop("C25", "interval and timer fire at the right times with consecutive numbers",
     "interval(first, period) delivers 0, 1, 2 and so on without gaps, number k exactly first + k * period "
     "seconds after subscribing as long as the observer does not take time; with a zero period, and for timer(due), it delivers 0 at the due time and completes. "
     "Nothing is delivered after the subscription is disposed.",
     ["inputs", "schedules"],
     "every first delay, period and disposal time (real numbers), number of ticks up to the bound",
     "interval and timer have no tests of their times",
     ["create.py"],
     [("sleep loop", "aioreactive/create.py interval, timer")],
     ["event times at the observer"])

prop("C26", "Creation functions deliver their definition to every subscriber",
     "from_iterable delivers exactly the items of the iterable in order and completes, or fails with the exception the "
     "iterable raises after the items before it; single delivers its value and completes, empty only completes, never does nothing, fail "
     "only fails with its exception, and defer calls its factory once per subscription and mirrors the result or the "
     "factory's exception; create calls its function with the observer and returns its disposable.",
     ["inputs", "fault_sequences", "histories"],
     "every item (also None and falsy ones), length and failing position up to the bound, repeated subscriptions",
     "the tests use from_iterable on lists and single with one value",
     ["create.py", "__init__.py", "observables.py"],
     [("worker over the iterable", "aioreactive/create.py of_seq, of_async_worker"),
      ("others", "aioreactive/create.py single, empty, never, fail, defer, create")])

prop("C27", "Awaitables and async iterables become streams with the same outcome",
     "from_async and of_async deliver the awaitable's result and complete, or fail with its exception; "
     "from_async_iterable and to_async_observable deliver exactly the items of the async iterable in order and complete, or fail "
     "with the exception it raises after the items before it, however long each step takes; disposing stops them without any further event.",
     ["inputs", "fault_sequences", "schedules"],
     "every outcome, length, failing position, duration of each step and moment of disposal up to the bound",
     "one test iterates an async iterable; failures, durations and disposal are not tried",
     ["create.py", "__init__.py", "iterable/to_async_observable.py"],
     [("worker tasks", "aioreactive/create.py of_async, of_async_iterable")])

prop("C28", "The multi-observer subject broadcasts to current observers only",
     "A subject delivers each event sent to it, once and in order, to exactly the observers subscribed at that moment, in "
     "subscription order, drops it if there are none, ignores everything after the first terminal event, and after being disposed raises on "
     "any use; one observer's disposal does not affect the others, and an observer disposed before its turn comes, or that got the terminal event meanwhile, is skipped. A producer that is cancelled while an observer handles its event affects no later event.",
     ["histories", "inputs"],
     "every sequence of subscribe, dispose, send, error, close and subject disposal up to the bound",
     "the tests run a few fixed histories with one or two observers",
     ["subject.py"],
     [("observer list and flags", "aioreactive/subject.py AsyncMultiSubject")])

prop("C29", "The single-observer subject holds producers until there is an observer",
     "Events sent to a single-observer subject before anybody subscribed wait, and are delivered after the subscription in the order in "
     "which they were sent; none is lost, duplicated or delivered after the first terminal event, and a producer waiting when the subject is "
     "disposed is released with an exception; every use after disposal raises, and cancelling one waiting producer affects only that one.",
     ["schedules", "histories"],
     "every sequence of concurrent producer calls, subscription and disposal up to the bound, at every loop turn",
     "the tests run fixed histories with one waiting producer",
     ["subject.py"],
     [("wait future and flags", "aioreactive/subject.py AsyncSingleSubject")])

prop("C30", "Async iteration yields every value in order without queueing",
     "Iterating a stream with async for yields exactly its values in order and then ends, or raises the stream's "
     "error after the values before it; a producer's send returns only after its value was picked up, concurrent "
     "producers are all served in turn, and no producer is left waiting after the terminal event was picked up. Giving up a wait for the next value or a send, "
     "as a timeout does, loses no other value and leaves the iteration usable; disposing the iterator releases its subscription and the producers that wait.",
     ["schedules", "inputs"],
     "every interleaving of consumer and producer steps and of cancelled waits, number of producers and values up to the bound",
     "the tests iterate three values with an eager consumer",
     ["observers.py", "observables.py", "leave.py"],
     [("push and pull futures", "aioreactive/observers.py AsyncIteratorObserver")],
     ["values and end of the iteration", "completion of the producer's awaits"])

prop("C31", "run returns the last value, raises the error, or times out, and unsubscribes",
     "run returns the last value before completion, raises the stream's exception if it fails, is cancelled if it completes "
     "without a value, and raises a timeout error if the stream has not terminated within the timeout; in every case the "
     "subscription is disposed when it returns. The awaitable observer "
     "keeps that outcome whatever is sent to it afterwards. Cancelling run disposes the subscription too, and an awaitable "
     "observer that nobody waits for any more does not raise to the producer when its stream ends; a disposed one ignores whatever is sent to it.",
     ["inputs", "schedules", "fault_sequences"],
     "every number of values, outcome, event time and timeout up to the bound, every value (also None and falsy ones)",
     "the tests use run on short sequences only to collect a result",
     ["subscription.py", "observers.py"],
     [("awaitable observer", "aioreactive/observers.py AsyncAwaitableObserver"), ("wait with timeout", "aioreactive/subscription.py run")])

prop("C32", "The virtual-time loop runs callbacks at the right time and in order",
     "On the virtual-time event loop callbacks run in order of their due time, never before it, with the loop's clock "
     "at that due time; the clock never goes back, starts at zero and advances only when nothing is ready; ready callbacks run in the order they were "
     "scheduled, and cancelled ones never run, whatever callbacks schedule or cancel meanwhile.",
     ["schedules", "inputs", "histories"],
     "every set of due times (real numbers), nesting and cancellation up to the bound on the number of timers",
     "the tests schedule three callbacks with fixed times",
     ["testing/virtual_events.py"],
     [("heap of scheduled handles", "aioreactive/testing/virtual_events.py VirtualTimeEventLoop._run_once")],
     ["order of callbacks and loop.time() in each"])

prop("C33", "Method chaining and piping mean the same",
     "Every operator or creation function available both as a method of the chained observable and as a function for "
     "pipe gives, for the same arguments and the same source events, the same events to the observer in both styles.",
     ["inputs", "programs", "histories"],
     "every operator with both forms, every argument and source event sequence up to the bound",
     "the tests exercise a few operators in one style and other ones in the other",
     ["__init__.py"],
     [("delegating methods and functions", "aioreactive/__init__.py")])

prop("C34", "The RxPY bridge delivers the same sequence and can be disposed at any time",
     "Converting to an RxPY observable delivers to its observer the same values, in order, and the same termination as "
     "the async observable; disposing at any moment, also before the subscription is established, stops delivery and releases the source.",
     ["schedules", "inputs"],
     "every event sequence and every loop turn of disposal up to the bound",
     "the bridge has no test",
     ["leave.py"],
     [("subscribe task and disposable", "aioreactive/leave.py to_observable")])

prop("C35", "Notifications represent and dispatch events faithfully",
     "A notification delivers to an observer, or to three functions, exactly the one event it was made from, with the "
     "same value or exception; two notifications are equal exactly when they are of the same kind with equal "
     "contents; a notification observer passes on each event as the corresponding notification, in order.",
     ["inputs"],
     "every kind and content (also None, falsy values and values that are themselves notifications or exceptions)",
     "notifications are only used as expected values in the tests",
     ["notification.py", "observers.py"],
     [("accept, accept_observer, equality", "aioreactive/notification.py"),
      ("notification observer", "aioreactive/observers.py AsyncNotificationObserver")],
     ["calls made on the observer or functions", "results of =="])

prop("C36", "The test subject and observer schedule and record events faithfully",
     "The test subjects deliver each event scheduled at an absolute time or after a delay exactly then, and in time "
     "order; the recording observer records every event it is given with the loop time at which it arrived, passes it to the user callbacks once, "
     "and completes its future with the last value or the error.",
     ["inputs", "schedules"],
     "every set of scheduled times and delays (real numbers) and kinds of events up to the bound",
     "the tools are used by the tests, not tested",
     ["testing/subject.py", "testing/observer.py"],
     [("scheduling helpers", "aioreactive/testing/subject.py AsyncSubjectBase"), ("recording", "aioreactive/testing/observer.py AsyncTestObserver")],
     ["event times at the observer", "recorded values"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    # which properties have harnesses: by looking for @harness("Cxx"
    have = set()
    d = os.path.join(HERE, "harness")
    for fn in os.listdir(d):
        if fn.endswith(".py"):
            s = open(os.path.join(d, fn)).read()
            for m in re.finditer(r"@harness\(\s*(\[[^\]]*\]|\"C\d\d\")", s):
                have.update(re.findall(r"C\d\d", m.group(1)))
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have:
            checks.append(dict(
                property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                technique="symbolic execution of the real code with z3 (bounded), counterexamples replayed on the real code",
                level="model_checking",
                level_note="Bounded: holds for every value of the symbolic inputs, times, schedules and fault positions within "
                           "the bounds listed in the evidence file and DESIGN.md; nothing is claimed beyond them. Trusts the "
                           "execution engine in symx/, z3, CPython and the installed expression/asyncio. " + NOTES[i]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="All checks: check.py <id>; one counterexample: /opt/venv/bin/python check.py --replay <file>. No hooks in /repo are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
