#!/usr/bin/env python3
"""Writes ../properties.jsonl (the property texts live here, one place to edit)."""
import json, os
D = "include/boost/coroutine2/detail/"
PC, QC = D + "pull_control_block_cc.ipp", D + "push_control_block_cc.ipp"
PH, QH = D + "pull_control_block_cc.hpp", D + "push_control_block_cc.hpp"
P, Q = D + "pull_coroutine.ipp", D + "push_coroutine.ipp"
PP, QQ = D + "pull_coroutine.hpp", D + "push_coroutine.hpp"
CC, WR, ST = D + "create_control_block.ipp", D + "wrap.hpp", D + "state.hpp"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Pull enters its function on construction, push on first call, each only once",
 "Constructing a pull coroutine runs the coroutine-function, up to its first transfer or its end, before the constructor returns. Constructing a push coroutine never runs it; the first push enters it. Over the whole life of a coroutine the function is entered at most once, and it is handed a usable counterpart coroutine.",
 ["programs", "histories"], "every payload form (value, reference, void), every callable, every sequence of operations on the coroutine",
 "The tests observe entry for a few callables and two constructors; they never check that a constructed but never called push coroutine leaves its function alone on every later path, nor that no later operation re-enters it.",
 [PC, QC, P, Q], [("control_block constructors: initial resume of the new fiber", PC), ("fiber entry lambda: first thing a push coroutine does is switch back", QC)],
 [("c", "fiber of the other side", PH)], ["pull_type/push_type constructors", "coroutine-function entry"])
prop("C02", "A transfer call hands control over exactly once and returns to its own caller",
 "Calling a suspended coroutine gives control to its function exactly once, and the call returns when that function transfers back or ends, in the context that made this call, whichever context created the coroutine or called it before. A transfer made by the function does not return until the coroutine is called again. Each call returns a reference to the object it was made on.",
 ["programs", "histories", "schedules"], "every alternation of calls between the resumer(s) and the coroutine-function",
 "Tests follow a handful of fixed ping-pong sequences from one resumer; a missing, doubled or mis-addressed switch that needs a second resumer or a longer history is not reached.",
 [PC, QC, P, Q], [("resume(): c = std::move(c).resume()", PC), ("entry lambda: final jump through the counterpart's current fiber", QC)],
 [("c", "must always hold the most recent suspender", PH)], ["operator()", "coroutine-function resumption points"])
prop("C03", "Queries and moves never switch context and never change what is observed",
 "Testing for validity, negation, reading the current value by reference through an iterator, comparing or copying iterators, obtaining begin/end of a coroutine, and moving or swapping coroutine objects transfer no control to any coroutine-function. Repeating a query without an intervening transfer gives the same answer.",
 ["programs", "histories"], "every state a coroutine can be in, every interleaving of queries and moves with transfers",
 "Tests query states a few times along fixed histories; they cannot show that no query in any reachable state has an effect on a later transfer.",
 [PC, QC, P, Q, PP, QQ], [("valid(), get(), operator bool/!, iterator members touch no fiber", PC)], (), ["operator bool", "operator!", "iterator", "move operations"])
prop("C04", "The receiver reads exactly the most recently pushed value",
 "Whenever a pull coroutine is valid, reading it yields the value passed in the most recent push to it: never an older value, a partial copy or a value from another coroutine. For reference payloads it yields the very same object that was pushed, not a copy. Each push is seen as one new value, in order.",
 ["inputs", "histories"], "every payload type and value, every sequence of pushes and reads in both directions",
 "Tests compare a few ints, strings and tuples; stale, truncated or aliased values depend on payload size, triviality, throwing copies and history.",
 [PC, QC, PH], [("set()/get() through the slot in the pull control block", PC), ("holder stores the address for T &", PH)],
 [("storage", "slot for the current value", PH), ("bvalid", "slot holds a live object", PH)], ["get()", "iterator dereference"])
prop("C05", "Pushing an lvalue leaves it intact; pushing an rvalue moves it",
 "A push of an lvalue, directly or through an output iterator, copies it and leaves the caller's object unchanged. Calling a push coroutine with an rvalue transfers it by move construction and never needs or makes a copy, so move-only payloads pass in both directions. Reading a value payload moves it out of the coroutine without copying.",
 ["inputs", "programs"], "every payload type; lvalue, const lvalue and rvalue arguments",
 "One test pushes one move-only object into a push coroutine; the caller's lvalue is never inspected afterwards and copies are never counted.",
 [PC, QC, Q, P, QQ], [("resume(T const&)/resume(T&&) overloads and set() overloads", QC), ("get() moves from the slot", P)], (), ["push operator()", "get()", "output iterator"])
prop("C06", "Every payload object the library creates is destroyed exactly once",
 "For every history, each payload object created inside the library is destroyed exactly once, and is neither read nor destroyed before it is constructed or after it is destroyed. This holds when copying or moving a payload throws, when values are overwritten unread, when the function ends or throws, and when a coroutine is destroyed at any suspension point.",
 ["histories", "fault_sequences", "inputs"], "every history of transfers, every point at which a payload operation throws or the coroutine is destroyed",
 "No test uses a payload whose copy throws, counts payload lifetimes or destroys a value-carrying coroutine mid-sequence.",
 [PC, PH], [("set(): destroy the previous value, construct the next", PC), ("~control_block destroys a live value", PC)],
 [("bvalid", "true iff the slot holds a live payload", PH)], ["payload constructors and destructors"])
prop("C07", "An exception leaving the function reaches its resumer, once and unchanged",
 "An exception of any type that leaves the coroutine-function is rethrown, as the same exception object, by the operation that was waiting for the coroutine: the pull constructor, or the call that resumed it. It is delivered exactly once, is never swallowed, and does not terminate the program. Afterwards the coroutine is complete, and it and everything it owns can be destroyed normally.",
 ["fault_sequences", "histories", "inputs"], "every exception type, thrown before or after any number of transfers, in both directions and all payload forms",
 "One test throws one std::runtime_error from a push coroutine<void> before its first transfer.",
 [PC, QC], [("catch (...) { except = current_exception(); } in the entry lambda", PC), ("rethrow after each resume and in the pull constructor", PC)],
 [("except", "exception in transit", PH)], ["operator()", "pull_type constructor"])
prop("C08", "A payload copy that throws surfaces at the pusher and nothing is transferred",
 "If copying or moving the payload during a push throws, that exception propagates out of that push, in the pusher's context. Control is not transferred and the receiver sees no value from it; both sides stay usable, so the pusher can push again or finish normally.",
 ["fault_sequences"], "every push in every history failing in its payload copy or move",
 "No test has a payload whose copy or move throws.",
 [PC, QC], [("set() runs before the switch in resume()", QC)], (), ["push operator()"])
prop("C09", "Validity tests tell exactly whether the coroutine can still be used",
 "A coroutine object tests true if and only if it owns a coroutine whose function has not ended (by return or exception); for a pull coroutine this implies that a value can be read, unless the payload is void. The negation operator always gives the opposite answer. Once false, an object stays false until another coroutine is moved into it.",
 ["histories", "programs"], "every reachable state of every payload form, including moved-from objects, failed functions and never-started push coroutines",
 "Tests look at validity after a few fixed histories, never after an exception, and not for all three payload forms.",
 [PC, QC, P, Q], [("valid() and operator bool / operator!", PC), ("state |= complete in the entry lambda", PC)],
 [("state", "complete/unwind flags", ST)], ["operator bool", "operator!"])
prop("C10", "Destroying an unfinished coroutine unwinds its function completely",
 "Destroying a coroutine whose function is suspended destroys all live local objects of that function, in its own context, before the destructor returns; a function that was never entered is not run. The unwinding is never turned into an error seen by any resumer, never swallowed by the library, and never resumes the function normally. A forced unwinding of the thread that passes through the function is not swallowed either.",
 ["histories", "crash_points"], "destruction at every suspension point of every coroutine, both directions, all payload forms",
 "Four fixed cases with coroutine<void> are tested; the value and reference forms, other suspension points and destruction after moves or failed pushes are not.",
 [PC, QC], [("catch forced_unwind and rethrow before catch (...)", PC), ("destroy(): destructor of the moved-out fiber unwinds", PC)],
 [("c", "fiber to unwind", PH)], ["~pull_type", "~push_type"])
prop("C11", "Every coroutine stack is released exactly once, to the allocator it came from",
 "Each stack obtained from a stack allocator is given back exactly once, with the stack context the allocator returned, through a copy of that allocator, and only when nothing will run on it or be read from it again. This holds for completed, unfinished, never-started and moved coroutines, and when construction fails because the function, the callable's copy or the allocation throws. The library takes no stack other than one per coroutine.",
 ["histories", "fault_sequences"], "every history of construction, transfer, move and destruction, with failures at every throwing step of construction",
 "Tests never observe the allocator; a leaked or doubly released stack does not fail them.",
 [PC, QC, P, Q, CC], [("create_control_block: allocate, place, hand over to the fiber", CC), ("deallocate()/destroy() from the owning handle only", PC)],
 [("state unwind flag", "marks the owning control block", ST)], ["StackAllocator::allocate / deallocate"])
prop("C12", "The callable is copied or moved as passed, run once, and released on completion",
 "A callable passed as lvalue is copied, once, and left unmodified; one passed as rvalue is moved, never copied. The function runs on a copy owned by the coroutine; the state it captured is released when the function ends, before control returns to the resumer. Every copy made is destroyed no later than the coroutine, whether or not it ever ran.",
 ["programs", "configurations", "fault_sequences"], "every callable (lvalue, const, rvalue, throwing copy), in every language mode",
 "The tests use one copyable and one move-only callable and observe neither the source object in all modes nor the number and lifetime of copies.",
 [PC, QC, WR, CC], [("fn_ captured by std::forward / wrap()", WR), ("auto fn = std::move(fn_) in the entry lambda", PC)], (), ["callable constructors and destructor"])
prop("C13", "Moving transfers sole ownership; the source becomes not-a-coroutine",
 "Move construction and move assignment make the target own the source's coroutine in exactly its present state, without running or relocating it, and leave the source testing false and safe to destroy or assign to. Assigning over a live coroutine destroys the one previously owned by the target. Self-move and swapping lose nothing.",
 ["histories", "programs"], "every pair of coroutine states, every sequence of moves, assignments, swaps and transfers",
 "test_move assigns one suspended coroutine over a completed one; assignment over a live coroutine, self-assignment, never-started and failed ones are not tried.",
 [PP, QQ, P, Q], [("move constructor and operator=(&&)", PP)], [("cb_", "owned control block or null", PP)], ["move constructor", "move assignment", "swap"])
prop("C14", "The counterpart handed to the function never owns the coroutine",
 "The coroutine object that the coroutine-function receives can be moved into other objects within the function, moved back and destroyed there without ending, unwinding or releasing the coroutine. Transfers through whichever object currently holds it work, and the moved-from one tests false.",
 ["programs", "histories"], "every use of the counterpart inside the coroutine-function, at every point of the history",
 "No test moves or destroys the counterpart inside the function.",
 [PC, QC, P, Q], [("control blocks made for the counterpart carry no unwind flag", QC), ("deallocate() tests the flag", PC)],
 [("state unwind flag", "marks the owning control block", ST)], ["operations on the object passed to the function"])
prop("C15", "Bookkeeping on the coroutine stack is aligned, in bounds and not overlapped",
 "For every payload type, including over-aligned ones, and for every stack the allocator may return, whatever the alignment of its address, everything the library places on the coroutine stack lies inside that stack, is suitably aligned for its type, and does not overlap the part handed to the function. The remaining stack passed on to the context is described exactly.",
 ["inputs", "configurations"], "every alignment and size of payload, every stack address and size an allocator can return",
 "Tests use the default allocator (page-like alignment) and naturally aligned payloads; misplacement by a few bytes goes unnoticed.",
 [CC, PH], [("create_control_block: std::align and the remaining size", CC), ("alignas(T) storage", PH)], (), ["addresses of control structures"])
prop("C16", "The library never touches memory that is not alive",
 "On every path of every public operation used within its preconditions, the library dereferences no null, dangling or uninitialised pointer, reads no uninitialised member, and touches no object after its destructor has started or its stack has been released. It never resumes an empty or already finished execution context.",
 ["histories", "fault_sequences", "configurations"], "every history of public operations including exceptions and destruction at every suspension point, every language mode",
 "Such accesses usually have no visible effect in a passing test run, and the histories that expose them are not tested.",
 [PC, QC, CC, P, Q], [("destroy(): the fiber is moved out before the control block dies", PC), ("member initialisation before the first resume", PC)],
 [("other", "counterpart's control block", PH)], ["all members"])
prop("C17", "Pull coroutines model a single-pass range of exactly the pushed values",
 "Iterating from begin to end of a pull coroutine visits each value pushed from that point on once, in order, and stops when the function ends. Increment transfers control exactly once; dereference yields the current value in place and transfers nothing; an iterator equals end exactly when it was obtained or last incremented with the coroutine invalid. Member and non-member begin/end agree.",
 ["histories", "inputs"], "every history of increments, dereferences and comparisons, for value and reference payloads",
 "Tests walk a five element range to the end; empty ranges, failing functions and ranges begun mid-way are not covered.",
 [PP], [("iterator::fetch_ / increment_", PP)], [("iterator::c_", "coroutine or null at the end", PP)], ["pull_type::iterator", "begin()", "end()"])
prop("C18", "Output iterators push each assigned value once and report completion",
 "Assigning through an output iterator of a push coroutine pushes exactly the assigned value, once; dereferencing and incrementing the iterator transfer nothing. The iterator equals end exactly when it was obtained from, or its last assignment left, a coroutine that tests false.",
 ["histories", "inputs"], "every history of assignments and comparisons, for value and reference payloads",
 "The test assigns four values to one int coroutine; reference payloads, completed coroutines and failing functions are not covered.",
 [QQ], [("iterator::operator=", QQ)], [("iterator::c_", "coroutine or null at the end", QQ)], ["push_type::iterator", "begin()", "end()"])
prop("C19", "The public types enforce the documented interface at compile time",
 "Coroutine objects are move-only, not default-constructible, nothrow-movable and nothrow-destructible; validity conversion is explicit and nothrow; reading is nothrow, returns the payload by value or the same reference type, and does not exist for void. Misuse such as copying, pushing nothing or a wrong type, implicit conversion from a callable or binding a temporary to a reference to non-const payload does not compile; the documented valid uses do.",
 ["programs"], "every program using the interface, every payload form and language mode",
 "A compiling test program shows that what it uses exists, never that what must be rejected is rejected.",
 [PP, QQ, "include/boost/coroutine2/coroutine.hpp"], [("deleted copy operations, noexcept and explicit specifiers, overload sets", PP)], (), ["the public class templates"])
prop("C20", "Any movable payload and any suitable callable is accepted",
 "A payload type needs nothing but a move constructor and a destructor: not default construction, copying, assignment, comparison or an ordinary address-of operator; final, over-aligned, pointer, aggregate and const-qualified payloads work, as do references to const, to incomplete types and to abstract classes. Any callable that is movable and accepts the counterpart is accepted, including functions, function objects with const or &-qualified calls and move-only ones. Explicit instantiation of the public templates compiles.",
 ["programs", "inputs"], "every payload and callable type within those requirements, every language mode",
 "Tests instantiate seven payload types; an additional requirement on the payload or callable does not show up with them.",
 [PC, PH, PP, QC, QQ, WR], [("placement new, std::addressof, std::move in the hand-over", PC)], (), ["class template instantiation"])
prop("C21", "Behaviour is the same in every language standard and assertion mode",
 "Whatever C++ standard from C++11 on is selected and whether assertions are enabled or not, the same program observes the same transfers, results, exceptions and destruction of function, locals and payloads. Assertions never fire for correct uses and carry no side effects.",
 ["configurations", "histories"], "every supported language standard, assertions on and off, every history",
 "The suite runs its fixed histories in three standards and only with assertions off; the two entry-point implementations are never compared on anything else.",
 [PC, QC, WR], [("BOOST_NO_CXX14_GENERIC_LAMBDAS: wrap() path and lambda path", PC)], (), ["all members"])
prop("C22", "Coroutines share no hidden state",
 "The library keeps no global, static or thread-local mutable state: everything an operation reads or writes belongs to the coroutine, iterator or arguments it was given. Independent coroutines can therefore be used by different threads at the same time, and a suspended coroutine can be resumed by another thread. Operations that only test, compare or read by reference write to nothing but their own result, so several threads may make them at once.",
 ["schedules", "programs"], "every set of coroutines, every assignment of their calls to threads and every interleaving",
 "All tests are single threaded and mostly use one coroutine at a time.",
 [PC, QC, CC, P, Q], [("no static-duration variables in the headers", CC)], (), ["all members"])
prop("C23", "Headers are self-contained and usable from many translation units",
 "Every public header compiles on its own, in any order and repeatedly, in every supported standard. A program may include the library in any number of translation units: no definition in the headers produces a duplicate or per-unit symbol.",
 ["programs", "configurations"], "every inclusion order and set of translation units",
 "The only test program has a single translation unit that includes one header.",
 ["include/boost/coroutine2/all.hpp", "include/boost/coroutine2/coroutine.hpp", P, Q, PC, QC, ST], [("inline on the void specialisations and free functions, include guards", P)], (), ["translation units"])
prop("C24", "The stack comes from the allocator the user chose",
 "A coroutine constructed with a stack allocator obtains its stack from that very allocator and nothing else, keeps a copy for releasing it, and passes lvalue allocators on without modifying them. Without one, the default allocator of Boost.Context is used, and the allocator names published by the library denote the corresponding Boost.Context allocators.",
 ["programs", "configurations"], "every allocator type, lvalue or rvalue, with and without segmented stacks",
 "The tests never pass a stack allocator.",
 [P, Q, CC, "include/boost/coroutine2/fixedsize_stack.hpp", "include/boost/coroutine2/segmented_stack.hpp", "include/boost/coroutine2/pooled_fixedsize_stack.hpp", "include/boost/coroutine2/protected_fixedsize_stack.hpp"],
 [("two-argument constructors forward the allocator", P), ("using declarations", "include/boost/coroutine2/fixedsize_stack.hpp")], (), ["constructors"])
prop("C25", "No context switch happens while the library handles an exception",
 "The library never transfers control between contexts from inside one of its own exception handlers. Exceptions being handled by a resumer or by another coroutine at the time of a transfer are neither consumed nor replaced by it.",
 ["fault_sequences", "histories"], "every history with exceptions on either side",
 "The tests never transfer control with an exception being handled, where the damage would show.",
 [PC, QC], [("the handler only stores the exception; the jump back comes after it", PC)], (), ["coroutine-function end", "operator()"])
prop("C26", "Coroutines compose: operating on one never affects another",
 "Coroutines may be created, resumed, moved and destroyed inside the functions of other coroutines and passed between them. An operation on one never enters, unwinds, completes or alters another, and control returns to the context that performed it; destroying an outer coroutine also unwinds the inner ones that its function owns.",
 ["programs", "histories", "schedules"], "every nesting and interleaving of several coroutines",
 "test_chaining runs one fixed schedule of a parent and a child of coroutine<void>.",
 [PC, QC, P, Q], [("all state is per control block", PH)], (), ["operator()", "constructors", "destructors"])
prop("C27", "Operations documented not to throw never throw nor terminate",
 "Moving, swapping, testing, reading, comparing iterators and destroying coroutines neither throw nor terminate the program in any state they may be used in (reading by value presumes that the payload's move does not throw). No correct use of the library ends in std::terminate because an exception hit a non-throwing boundary inside the library.",
 ["histories", "fault_sequences"], "every operation in every reachable state with every failure of user code",
 "A terminate needs a failure in a particular spot; tests inject one exception in one place.",
 [PC, QC, PP, QQ], [("noexcept specifiers versus what the bodies call", PC)], (), ["noexcept operations"])
prop("C28", "The coroutine-function runs only on the coroutine's own stack",
 "The coroutine-function and everything it calls execute on the stack allocated for that coroutine, never on the resumer's, and what it keeps on that stack stays untouched while it is suspended, until it finishes or is unwound.",
 ["histories", "programs"], "every coroutine, suspended at any call depth, for any length of time and number of other operations",
 "Tests cannot tell which stack a function runs on and keep almost no state across transfers.",
 [PC, QC, CC], [("fiber created on the preallocated stack, function invoked from its entry", PC)], (), ["coroutine-function"])
prop("C29", "Registers and floating-point state survive a context switch",
 "After a transfer returns, callee-saved registers and the floating-point environment of the caller are as they were before it.",
 ["histories", "configurations"], "every transfer on every supported architecture",
 "One test adds doubles across a switch.",
 [PC, QC], [("performed by Boost.Context's assembly, outside this repository", PC)], (), ["operator()"])
prop("C30", "A coroutine pipeline computes the same result as the equivalent plain code",
 "For any generator, consumer or chain of them written with coroutines, the sequence of values produced equals that of the same algorithm written with direct calls, as in the shipped examples (layout, parser, same-fringe, fibonacci).",
 ["programs", "inputs"], "every algorithm and input",
 "The examples are built but not run; tests check a few short sequences.",
 ["example/parser.cpp", "example/same_fringe.cpp", "example/layout.cpp", "example/fibonacci.cpp"], [("composition of the guarantees above with user code", "example/parser.cpp")], (), ["example programs"])
prop("C31", "Overrunning a coroutine stack is caught where the allocator promises it",
 "Running out of coroutine stack faults on the guard page of a protected stack, and grows the stack when segmented stacks are selected.",
 ["inputs", "configurations"], "every stack depth",
 "No test exhausts a stack.",
 ["include/boost/coroutine2/protected_fixedsize_stack.hpp", "include/boost/coroutine2/segmented_stack.hpp"], [("implemented in Boost.Context and the compiler runtime", "include/boost/coroutine2/protected_fixedsize_stack.hpp")], (), ["allocators"])
prop("C32", "Transfers acquire nothing and raise nothing of their own",
 "Once a coroutine is constructed, calling, pushing to, pulling from, iterating, testing, reading, moving, swapping and destroying it acquire no memory (exception objects aside), no stack and no execution context. A transfer raises only what the coroutine-function raised or what copying or moving the payload raised, so it cannot fail for lack of resources, and a coroutine can be resumed any number of times.",
 ["histories", "fault_sequences"], "every operation after construction, at any point of any history, including one in which an allocation would fail",
 "Tests have memory to spare, resume a coroutine a few times and never count allocations.",
 [PC, QC, PP, QQ], [("set() constructs the payload in the storage of the control block", PC), ("resume() only transfers and rethrows", QC)], (), ["operator()", "iterators", "moves", "destructors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
