#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None, level="exploration", note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, hook=hook, state=state, level=level, note=note, technique=technique))

CORE = "async_ui_web_core/src/"
HTML = "async_ui_web_html/src/"
WEB = "async_ui_web/src/"
IU = "async_ui_internal_utils/src/"
XB = "x-bow/src/"

prop("C01", "DOM tree mirrors the live futures in structural order",
     "Whenever the system is at rest, the children of every element rendered through a container future are exactly the DOM nodes of the futures currently live under it, each once, ordered by position in the program (join/race/try_join/race_ok member order, list order, then nested order), no matter in which order the futures were first polled, woken, completed, replaced or dropped.",
     ["programs", "schedules", "histories"],
     "All UI programs built from element, combinator, slot and list futures; all orders of wake-ups, completions and drops.",
     "The tests only exercise a browser by hand or cover internal helpers; ordering depends on which member polls or completes first and on every earlier insert and removal, so a handful of fixed schedules says nothing about the rest.",
     [CORE + "context.rs", CORE + "window.rs", CORE + "node_container.rs", CORE + "node_sibling.rs", CORE + "combinators/", CORE + "position.rs"],
     [("child position bookkeeping", CORE + "context.rs"), ("combinators hand each member its position", CORE + "combinators")],
     observe=["DOM tree of the simulated browser at quiescence"],
     technique="deterministic simulation: seeded random UI programs and wake/cancel/replace schedules against a simulated DOM, compared with a mirror of the live futures at every quiescent point",
     note="Explores random programs (depth and size bounded) and schedules; the browser is simulated.")

prop("C02", "Tearing a UI part down removes exactly its own nodes and never panics",
     "Dropping, completing or cancelling any rendered future, or unmounting a whole root, at any point of its life (never polled, pending, half built, while siblings change) removes exactly the DOM nodes that future put in and leaves every other node untouched, once each, without panicking. Node removal never leaves an orphaned listener-bearing node in the document and never removes a foreign node.",
     ["programs", "crash_points", "histories"],
     "All UI programs and all points at which any part of them is dropped, cancelled or unmounted, in any combination.",
     "Tests drop nothing halfway; which nodes are attached at the drop point depends on the schedule.",
     [CORE + "context.rs", CORE + "dropping.rs", CORE + "node_container.rs", CORE + "combinators/", CORE + "window.rs", WEB + "mount.rs"],
     [("detachment blocker during whole-tree drop", CORE + "dropping.rs"), ("position-aware removal in drop handlers", CORE)],
     observe=["every DOM mutation made by the code, and the tree after every teardown"],
     technique="deterministic simulation: cancellation/unmount injected at seeded points of random UI programs; DOM compared with the ownership model after each",
     note="Explores random programs and drop points; also runs unboxed static program shapes. The browser is simulated.")

prop("C03", "Combinators yield the right result and drop every member exactly once",
     "join, race, try_join and race_ok over tuples, arrays and vectors complete with exactly the value their definition prescribes for the members' outcomes (all outputs in member order; the first finisher; the first error; the first success or all errors), never earlier or later than the members allow, and drop each member and each produced output exactly once whether the combinator completes or is dropped halfway.",
     ["schedules", "inputs", "crash_points"],
     "All member counts and kinds, all orders and batches of member wake-ups and completions, all cancellation points, panicking members included.",
     "Unit tests fix a few member counts and completion orders; results and drop counts depend on every interleaving of completion, wake and cancellation.",
     [CORE + "combinators/"],
     [("join/race/try_join/race_ok state machines", CORE + "combinators"), ("output and future slot storage", CORE + "combinators")],
     observe=["output value, poll at which it appears, per-member and per-output drop counters"],
     technique="deterministic simulation: seeded member scripts, wake schedules, spurious/stale wakes and cancellation against a reference model of each combinator",
     note="Explores random member scripts and schedules; allocations are quarantined so a double drop or use after free is detected.")

prop("C04", "No lost wake-ups and no needless polls inside combinators",
     "When a member of a combinator is woken - at any time, including while it or a sibling is being polled and whichever task waker the combinator was last polled with - the task polling the combinator is woken and that member is polled again on the next poll. A combinator does not poll a member that has neither been woken nor is polled for the first time, nor one that has completed.",
     ["schedules", "fault_sequences"],
     "All schedules of wake-ups relative to polls, with duplicate, stale, spurious and mid-poll wakes and changing outer wakers.",
     "A lost wake-up shows only when a wake falls between particular steps of a poll; tests wake members at a couple of fixed points.",
     [CORE + "combinators/", IU],
     [("per-member wakers and readiness set", CORE + "combinators")],
     observe=["member polls, outer waker counts"],
     technique="deterministic simulation: seeded wake schedules with duplicate, stale, spurious and mid-poll wakes and waker changes against a readiness model",
     note="Explores random schedules.")

prop("C05", "Member wakers stay valid for as long as anybody holds them",
     "A waker obtained by a combinator member can be cloned, compared, woken and dropped at any time - after the member completed, after the combinator completed, was dropped or was moved to its end - without touching freed memory, without waking an unrelated member, and without leaking the outer task's waker once the combinator and all clones are gone.",
     ["schedules", "histories"],
     "All orders of waker clone, wake, drop and combinator completion or drop.",
     "Lifetime errors appear only for particular orders of clone/drop/wake against the combinator's own drop, which fixed tests do not vary.",
     [CORE + "combinators/", IU],
     [("reference-counted waker storage", CORE + "combinators")],
     observe=["quarantining allocator, waker reference counts, liveness canaries"],
     technique="deterministic simulation: seeded waker clone/wake/drop histories under a quarantining, poisoning allocator",
     note="Memory errors are found through a poisoning quarantine allocator and waker reference counting, not a full memory model.")

prop("C06", "Executor runs every woken task, never re-entrantly, to quiescence",
     "After any wake of the root future or of a spawned task - from an event listener, a timer, another task or during the task's own poll - that task is polled again within finitely many browser turns without further input; a poll never starts while another poll of the same executor is in progress, and with no wake nothing is polled. Work requested from inside a DOM event runs before that event's dispatch returns.",
     ["schedules", "fault_sequences"],
     "All interleavings of wakes, timers, events dispatched inside polls and nested run requests.",
     "Scheduling state (scheduled, active) depends on the order of wake, nested dispatch and timer; tests run none of it.",
     [CORE + "executor.rs", WEB + "executor.rs", WEB + "mount.rs"],
     [("scheduled/active flags and re-run loop", CORE + "executor.rs"), ("spawned task executor inside the root future", WEB + "executor.rs")],
     observe=["poll log, browser timer queue"],
     technique="deterministic simulation: seeded wakes from polls, timers, events and nested dispatches against the real executor on simulated browser timers",
     note="Explores random wake histories on one browser thread; browser timers are simulated.")

prop("C07", "Event futures: nothing missed while listening, listeners exact and cleaned up",
     "A future waiting for an element event resolves with the latest event dispatched to that element since it started waiting, within that event's dispatch (so preventing the default or stopping propagation still works), honouring its capture, passive and prevent-default options; events before the first poll or for other elements are not delivered. The set of listeners registered in the browser is at all times exactly that of the live, started event futures, and dropping one removes its listener.",
     ["histories", "schedules", "configurations"],
     "All event histories over element trees, all listener options, consumers that are slow, cancelled or re-created at any point.",
     "Behaviour depends on timing of subscribe, event, poll and drop; tests need a browser and have none of these.",
     [HTML + "event_handling.rs", HTML + "common_events.rs"],
     [("listener registration in first poll, removal in drop", HTML + "event_handling.rs"), ("synchronous executor run inside the event callback", HTML + "event_handling.rs")],
     observe=["browser listener registry, event dispatch results, events received by consumers"],
     technique="deterministic simulation: seeded user/synthetic event sequences, consumer delays and cancellations against a simulated event target tree and a delivery model",
     note="Explores random event histories; event propagation follows the simulated browser.")

prop("C08", "DynamicSlot shows exactly its current future and resolves set futures",
     "After any sequence of setting, clearing and completing futures in a slot, the slot renders exactly the most recently set future (nothing once it completed or was cleared), in the slot's place among its siblings, and every future ever put in is dropped exactly once and never polled after completion or replacement. This holds for operations made before rendering, during a poll, from inside the slot's own future or its drop, and after the slot was un-rendered and rendered again elsewhere.",
     ["histories", "schedules"],
     "All histories of slot operations, render/unrender and completions.",
     "Stale content, double polls or panics depend on the operation order relative to polls; there are no tests of slots.",
     [WEB + "components/dynamic_slot.rs"],
     [("slot channel and future replacement", "DynamicSlot")],
     observe=["DOM at quiescence, per-future poll and drop counters"],
     technique="deterministic simulation: seeded slot operation histories, re-entrant operations and re-rendering against a reference model and simulated DOM",
     note="Explores random histories; the browser is simulated.")

prop("C09", "DynamicList keeps its items in the order its operations define",
     "After any sequence of insert, remove, move-before, swap and clear on a keyed list, with any keys (known, unknown, equal, self-referencing), the list renders exactly the live items in the order an ordinary sequence model gives, before, while or after it is rendered, re-rendered elsewhere or nested in another list; removed or replaced items are dropped once and their nodes disappear. Siblings after the list stay after it.",
     ["histories", "inputs", "schedules"],
     "All operation histories and key choices, all interleavings with item wakes, completions and list re-rendering.",
     "The list has no tests; order after moves and swaps depends on the whole history and on the render state.",
     [WEB + "lists/dynamic_list.rs"],
     [("marker nodes and linked order", "DynamicList"), ("per-item task on a local executor", "DynamicList")],
     observe=["DOM order of items, item drop counters"],
     technique="deterministic simulation: seeded list operation histories, re-entrancy and re-rendering against a sequence model and simulated DOM",
     note="Explores random histories; the browser is simulated.")

prop("C10", "DiffedList shows exactly the last given items, keeping surviving ones alive",
     "After a diffed list is updated to any sequence of distinct keys, it shows exactly these keys' items in that order; items whose key was present before keep their running future (not restarted), and items whose key vanished are dropped once.",
     ["inputs", "histories"],
     "All sequences of key vectors, interleaved with item wakes and completions and render changes.",
     "Tests have none; the diff is correct or not depending on the exact pair of permutations.",
     [WEB + "lists/diffed_list.rs"],
     [("key diff to list operations", "DiffedList"), ("DynamicList", "DynamicList")],
     observe=["DOM order, per-key start and drop counters"],
     technique="deterministic simulation: seeded key-vector histories with re-rendering and item wakes against a set/sequence model and simulated DOM",
     note="Explores random key histories of bounded length; the browser is simulated.")

prop("C11", "ModeledList view always equals its list model after updates",
     "After any mix of inserts, removes, replacements, moves, swaps, clears and batch edits of a list model, made before, between or during renderings and while items run, the modeled list shows exactly one item per model entry, in model order; entries not touched keep their running item and removed entries' items are dropped once.",
     ["histories", "schedules"],
     "All histories of model edits and all points at which the view catches up, with several views.",
     "Catch-up depends on how many edits were made since the last poll; the tests do not exercise it.",
     [WEB + "lists/modeled_list.rs"],
     [("model change log replay", "ModeledList"), ("ListModel edit log", "ListModel")],
     observe=["DOM order, per-entry start and drop counters"],
     technique="deterministic simulation: seeded model edit histories with seeded catch-up points against a vector model and simulated DOM",
     note="Explores random edit histories; the browser is simulated.")

prop("C12", "Dropdown options and value stay consistent with given data and user choice",
     "After any interleaving of option updates, programmatic selection and user selection, a dropdown offers exactly the current options in order, its value is the option last selected by program or user while that option is offered (none when deselected), and a wait for a change resolves for user changes only, never missing one made while waiting.",
     ["histories", "inputs"],
     "All histories of option sets, selections and user changes.",
     "The select element's own selection moves when options are inserted, removed or reordered, which only particular histories show.",
     [WEB + "components/dropdown.rs"],
     [("option diff and value map", "Dropdown")],
     observe=["simulated select element, value() and change futures"],
     technique="deterministic simulation: seeded option/selection/user-change histories against a value model on a simulated select element",
     note="Explores random histories; select semantics are simulated after the HTML specification.")

prop("C13", "VirtualizedList renders the scrolled-to window, once per index, in order",
     "Once layout and intersection notifications have settled, a virtualized list shows a contiguous run of indices covering the visible part, in order, each index rendered at most once and only if below the current item count; after the count changes or items are refreshed it again converges, and it shows no item beyond the end. Once un-rendered or dropped it no longer listens to the browser: no scroll listener or intersection observer of it is left.",
     ["histories", "schedules", "fault_sequences"],
     "All histories of scrolling, resizing, count changes and delivery orders of intersection notifications.",
     "Convergence depends on notification order and coalescing, which need a simulated layout engine.",
     [WEB + "lists/virtualized_list.rs"],
     [("range update from visible spacers", "VirtualizedList")],
     observe=["rendered indices, spacer layout"],
     technique="deterministic simulation: seeded scroll/resize/count histories with delayed and coalesced intersection notifications on a simulated layout",
     note="Explores random histories with uniform layout; IntersectionObserver and layout are simulated.")

prop("C14", "ReactiveCell observers never miss the latest value",
     "Every mutable borrow of a reactive cell (whether or not it writes) made while someone waits for a change resolves that wait, and a per-value loop over the cell handles the initial value and finally the latest one, for any number of concurrent waiters, any interleaving of reads, writes, waits, cancellations and mutations from within observers. Waits resolve only after a mutation.",
     ["schedules", "histories"],
     "All interleavings of borrow, mutate, wait, cancel with many waiters.",
     "Missed changes depend on when the mutation falls between a waiter's creation, its polls and its drop; there are no tests.",
     [IU + "reactive_cell/", IU + "wakers_arena.rs"],
     [("version and waker list", "ReactiveCell")],
     observe=["wait resolution log"],
     technique="deterministic simulation: seeded mutation/wait/cancel schedules against a version model",
     note="Explores random schedules.")

prop("C15", "Store change waits fire for exactly the changes that concern them",
     "A stream from `until_change` at a path yields after every mutable borrow (or explicit notify) of that path or of any ancestor of it made since the stream was created or last yielded, several such changes between two polls counting once; it does not yield for changes of only descendants, siblings or unrelated paths, nor for immutable borrows or `borrow_mut_without_notifying`. The task polling it is woken for each such change. This holds for any number of concurrent streams on any mixture of paths (fields, enum variants, list indexes, map keys, mapped and trait-object paths), whatever order they are created, polled, cancelled and dropped in.",
     ["histories", "schedules", "inputs"],
     "All shapes of data, paths, mutation orders and listener lifetimes.",
     "The tests check a few single-listener cases; collisions and slot re-use depend on histories of many listeners.",
     [XB],
     [("hashed version table and wakers arena", XB + "wakers.rs"), ("until_change", XB + "until_change.rs")],
     observe=["wait resolution log against a path-relation model"],
     technique="deterministic simulation: seeded subscribe/borrow/cancel histories over the real store against a path-relation model",
     note="Explores random histories over fixed data types.")

prop("C16", "Bubbling waits report every change at or below their path",
     "A stream from `until_bubbling_change` at a path yields after every mutable borrow (or explicit notify) of that path or of any descendant of it made since the stream was created or last yielded, several changes between two polls counting once; it does not yield for changes of only ancestors, siblings or unrelated paths. The task polling it is woken for each such change, independently of other listeners being created, polled or dropped in any order.",
     ["histories", "schedules"],
     "All mutation and listener histories.",
     "As C15.",
     [XB],
     [("until_bubbling_change", XB)],
     observe=["wait resolution log"],
     technique="deterministic simulation: seeded subscribe/borrow/cancel histories over the real store against a path-relation model",
     note="Explores random histories over fixed data types.")

prop("C17", "Store value loops and streams end on the latest value",
     "`for_each` and `for_each_async` over a store path handle the value present when they start and, once mutations stop, have handled the latest available value last; `for_each` never runs its handler while data is unavailable, and the async form drops the running handler future when a newer value arrives, never running two at once, and without holding the store borrowed while it drops or polls one. A `signal_stream` yields (at once if asked to, and) after every change, and ends when the data is missing. A `bind_for_each` loop stores what its incoming stream gives (the last of several at once) without reporting that back, reports every change made by others, so that after the last write both sides hold the same, latest value, and finishes exactly when the incoming stream ends (its last value stored) or the data to store into is missing.",
     ["histories", "schedules"],
     "All interleavings of mutation with running handlers.",
     "As C15.",
     [XB],
     [("value loops", XB)],
     observe=["handler log"],
     technique="deterministic simulation: seeded mutation schedules against a last-value model",
     note="Explores random schedules.")

prop("C18", "Store subscriptions leave nothing behind",
     "Once all listeners of a store are dropped, in any order and at any time (never polled, waiting, already woken, while the store is borrowed), the store holds no waker of theirs, using any number of further listeners does not make it grow, and listeners created later behave as in a fresh store.",
     ["histories"],
     "All orders of creating, polling and dropping listeners.",
     "Leaks and stale slots depend on the order of drops.",
     [XB],
     [("arena slot re-use", XB)],
     observe=["waker drop counts"],
     technique="deterministic simulation: seeded create/poll/drop histories with counted wakers",
     note="Explores random histories.")

prop("C19", "Store paths borrow exactly the data they name",
     "Borrowing a path of a store (field, enum variant, list index, map key, option, shared pointer, mapped and trait-object paths, through any nesting and also from cloned or type-erased paths) gives exactly the data at that place, or None where it does not exist at that moment; writes through a mutable borrow or `set` are seen by every other path to the same data at once and change nothing else, and a store's content always equals a plain copy to which the same edits were applied.",
     ["inputs", "histories"],
     "All shapes and sizes of data, all paths into them and all edit histories, including edits that make paths appear and vanish.",
     "Tests borrow a few fixed paths; macro-generated projections, missing data and stale paths are combinations.",
     [XB],
     [("path projection", XB), ("derived path builders", "x-bow-macros/src/")],
     observe=["whole store content after every step, borrowed values"],
     technique="deterministic simulation: seeded edit/borrow histories over the real store against a plain data copy",
     note="Explores random histories over fixed data types covering each kind of path.")

prop("C20", "UI future adapters keep order, run to their end and clean up",
     "A future extended with pend-after never completes and keeps running what it extends; one extended with meanwhile yields its own output and stops the other at that moment; so `f.meanwhile(g)` shows both in order while f runs, keeps f running after g finished (g dropped then), and shows neither once f finished. Each wrapped future is dropped exactly once, never polled after it completed, and its nodes are on screen exactly while it runs, however the adapters are nested in each other, in elements, join, race and select.",
     ["programs", "schedules"],
     "All member behaviours and schedules.",
     "No tests.",
     [CORE + "combinators/extras/mod.rs", CORE + "combinators/race/", CORE + "node_container.rs"],
     [("extension adapters", CORE)],
     observe=["output, DOM, drop counters"],
     technique="deterministic simulation: seeded member scripts and cancellations against a model of each adapter",
     note="Explores random schedules.")

prop("C21", "select! runs the handler of the first finished branch and drops the rest",
     "A select expression runs exactly one handler: that of a branch whose future has finished, in the very poll in which the first branch finishes, applied to that future's output by its pattern (if several finish in one poll, one of them). By then every branch future has been dropped exactly once, is not polled again, and its nodes are gone. The handler may await, return, break or continue the surrounding code, and its value is the value of the expression.",
     ["programs", "schedules"],
     "All branch behaviours, wake schedules and cancellation points.",
     "No tests of runtime behaviour.",
     ["async_ui_web_macros/src/select.rs"],
     [("select expansion", "async_ui_web_macros/src/select.rs")],
     observe=["output, polls, drops"],
     technique="deterministic simulation: seeded branch scripts and schedules against a first-ready model",
     note="Explores random schedules over a fixed set of select expressions.")

prop("C22", "Waker lists hold exactly the wakers added to them",
     "Under any history of creating lists and adding, updating and removing wakers in a WakersArena, iterating a list yields exactly the wakers currently in it, each once with the waker last set for its slot, and no waker of another list; removing a list as empty succeeds exactly when it has no wakers; a removed or replaced waker is released at once, and freed places are re-used so the arena does not grow without bound.",
     ["histories", "schedules"],
     "All histories of slot operations, with several lists sharing one arena.",
     "Slot re-use and lists of several waiters depend on the order of adds and removes; there are no tests.",
     [IU + "wakers_arena.rs", IU + "reactive_cell/"],
     [("slot arena", IU + "wakers_arena.rs")],
     observe=["wake counts and waker reference counts per registered task"],
     technique="deterministic simulation: seeded add/wake/remove histories with counted wakers against a multiset model",
     note="Explores random histories.")

prop("C23", "Long-lived UIs accumulate nothing",
     "However long a mounted UI runs, what it has torn down leaves nothing behind: repeating the same history of showing, changing, awaiting and cancelling things - in slots, all list kinds, dropdowns, elements, combinators, select, spawned and mounted tasks, event listeners, reactive cells and store subscriptions - any number of times ends, each time everything has been cleared and the executor is idle, with the same DOM, the same browser listeners and observers, and memory that does not grow with the number of repetitions.",
     ["histories", "schedules"],
     "All histories, repeated arbitrarily often, under all orders of turns, events and cancellations.",
     "A leak is invisible to functional tests: each single run is right, and only unbounded repetition of particular histories shows the growth.",
     [WEB + "lists/", WEB + "components/", CORE, IU, "x-bow/src/"],
     [("everything that registers, stores or inserts", "drop and cleanup code of all crates")],
     observe=["bytes allocated and not freed by the program (simulator memory excluded), DOM, listeners, closures, observers at idle"],
     technique="deterministic simulation: seeded histories repeated up to 128 times in one mounted UI with an owner-tagging allocator; growth in every doubling of repetitions is a leak",
     note="Explores random histories; a leak that needs more than 8 repetitions of state to begin growing is seen only if it grows within 128.")

prop("C24", "Elements, class shortcuts and text nodes show exactly what was asked",
     "Every element component renders the HTML tag it is documented for (and every typed input constructor the input type it names); a childed component shows its child inside the element and yields the child's output as soon as the child ends, a childless one never ends. Under any history of class shortcuts (add, remove, set, single and multiple, builder style) before, while and after it is shown, an element has exactly the classes the corresponding set operations leave; a text node always shows the last data given, verbatim.",
     ["histories", "inputs"],
     "All histories of class, text, show, finish and remove operations over all components.",
     "Only a few components are exercised anywhere; there are no tests. Class state depends on the whole operation history.",
     ["async_ui_web_html/src/common_components.rs", "async_ui_web_html/src/input_types.rs", "async_ui_web_html/src/text_node.rs", WEB + "shortcuts.rs"],
     [("component and input tables, text, class shortcuts", "async_ui_web_html, ShortcutClassList")],
     observe=["tag, input type, class list and children of every element made, outputs of render()"],
     technique="deterministic simulation: seeded histories of component, class and text operations against a set model on the simulated DOM",
     note="Explores random histories; tag semantics beyond name, classes, type and children are the browser's.")

prop("C25", "css! renames every class of a stylesheet consistently",
     "For every stylesheet text, the css! macro inserts the sheet into the page with exactly its class selectors carrying the sheet's own postfix and everything else unchanged, and offers for each class exactly one constant that names the renamed class. Two different sheets never share a postfix in practice, so classes of different sheets do not collide.",
     ["inputs"],
     "All stylesheet texts: nested at-rules, functional selectors, any identifiers.",
     "No test runs the macro; the guide shows it on one small sheet.",
     ["async_ui_web_macros/src/css.rs"],
     [("class search and rewriting", "async_ui_web_macros/src/css.rs")])

import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
CLAIMED = open(os.path.join(ROOT, "tools", "claimed")).read().split()
NA = [{"property": "C25", "reason": "css! is a pure function of one string literal, evaluated inside the compiler: no task, schedule, event, clock, I/O or fault can reach it and it leaves nothing running but a script that appends one style element, so there is nothing for a simulator to decide; testing it would be plain input generation, another technique."}]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in CLAIMED and p["id"] not in [n["property"] for n in NA]:
            continue
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "async_ui_sim", "enable": "RUSTFLAGS='--cfg async_ui_sim' (set by check.py)", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] in CLAIMED],
    "not_applicable": NA,
    "notes": "See DESIGN.md. Replay a violation with: python3 check.py --replay <file>.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
