#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Callers on different threads do not disturb each other",
 "When several threads work at the same time, each with its own interpreter, or all executing commands on one interpreter whose bindings and parser nobody is changing, every call gives exactly the output, errors, return value and effects it gives when run alone, for every interleaving of the threads. No such call reads or writes memory that another thread's call is modifying.",
 ["schedules","histories"], "every interleaving of 2-4 caller threads at the granularity of single memory accesses inside the library, for every mix of commands, registrations (own interpreter only), conversions, formatting and parsing",
 "The existing tests are single threaded; a hidden shared buffer, cache or static is invisible to them and shows only when a thread is preempted between filling and reading it.",
 ["src/Coil.cpp","src/DefaultLexer.cpp","src/StringConv.cpp","src/String.cpp","include/coil/detail/Bindings.h","include/coil/detail/UnorderedMap.h"],
 [("no mutable static or per-interpreter scratch state: every call has its own call context","src/Coil.cpp Bindings::execute"),("parser is const and keeps only its character sets","src/DefaultLexer.cpp"),("formatting into a buffer owned by the returned string","src/Coil.cpp vsprintf")],
 observe=["ExecutionResult of every call","bound variables","memory accesses of library code"])
prop("C02", "A name always means what was last bound to it",
 "After any history of binding, overloading, rebinding, unbinding, clearing and moving interpreters, including changes made by commands while they are running, querying or executing a name reaches exactly the callables most recently bound to that name, and a name that is not bound now is reported as unknown. Changing one name never affects another. A running command may unbind or replace even itself, provided its body no longer uses its own captured state.",
 ["histories","schedules"], "every history of registry operations over several interpreters, interleaved with running (possibly waiting) commands that themselves change the registry; names that collide, share prefixes, are long, or contain arbitrary bytes",
 "The tests register a couple of names and unbind one; damage from erase/rehash/relink shows only after specific multi-step histories, and none of them changes the registry from a running command.",
 ["src/Coil.cpp","include/coil/detail/Bindings.h","include/coil/detail/UnorderedMap.h","include/coil/detail/Hash.h","src/StringView.cpp"],
 [("insert-or-assign, erase by swapping with the last node, rehash","include/coil/detail/UnorderedMap.h"),("command name is a view of the stored key","src/Coil.cpp Bindings::add"),("callable storage is a separate heap object, so growth does not move it","include/coil/detail/AnyFunctor.h")],
 state=[("registry","name to overload set","Bindings")], observe=["Bindings::get","Bindings::execute","which callable ran"])
prop("C03", "Nested and overlapping executions keep their contexts apart",
 "A command may execute further commands on the same or another interpreter, to any depth, and several executions may be in progress at once when a command waits while others run. Each execution sees its own positional and named arguments for its whole duration and yields only its own output, errors and return value; an outer execution continues unaffected by inner ones except for their explicit effects.",
 ["schedules","histories"], "every nesting and overlap of executions up to the bounds of the simulator, at every point where user code gets control",
 "No existing test executes a command from within a command; shared per-interpreter call state would pass them all.",
 ["src/Coil.cpp","include/coil/detail/CallContext.h","include/coil/detail/Context.h","include/coil/detail/NamedArgs.h"],
 [("a call context per execution, on the stack","src/Coil.cpp Bindings::execute"),("context and named-argument views refer to that call context","include/coil/detail/NamedArgs.h")],
 observe=["ExecutionResult of every inner and outer call","arguments and named arguments seen by the body before and after inner calls"])
prop("C04", "Registration is all-or-nothing when memory runs out",
 "If memory allocation fails at any point while a command is being created, bound, overloaded or rebound, or a parser is being replaced, the operation reports the failure and the interpreter is exactly as before: the name keeps its previous meaning, or stays unknown, and every other name is intact. Unbinding and clearing never fail. Repeating the operation once memory is available succeeds.",
 ["fault_sequences","histories"], "every allocation index of every registry operation, single failures and bursts, in every registry history",
 "The tests never fail an allocation; a registry that is linked before its storage is secured passes them all.",
 ["src/Coil.cpp","include/coil/detail/UnorderedMap.h","include/coil/detail/Vector.h","include/coil/detail/AnyFunctor.h","include/coil/detail/FunctionWrapper.h"],
 [("grow before insert; build the new overload set before touching the registry","include/coil/detail/UnorderedMap.h insertOrAssign"),("grow allocates before moving elements","include/coil/detail/Vector.h")],
 observe=["Bindings::get of every name","execution of every name"])
prop("C05", "Running out of memory never produces a wrong answer",
 "If memory allocation fails at any point during an execution, the call either fails visibly (an out-of-memory exception, or a result with an error and no return value) or gives the complete correct result; it never reports success or a value for a command that did not finish, and it never runs a command body twice. Output and errors the command emitted successfully before the failure are whole and in order if a result is returned, an emission that failed leaves no partial text. Bindings are unaffected and the same text executed once memory is available gives the correct result.",
 ["fault_sequences","histories"], "every allocation index inside parsing, lookup, conversion, the body's use of its context, formatting and result assembly, at every nesting depth; single failures, bursts and permanent failure",
 "The tests never fail an allocation.",
 ["src/Coil.cpp","src/DefaultLexer.cpp","src/String.cpp","src/Buffer.cpp","include/coil/detail/FunctorCaller.h","include/coil/detail/Expected.h","include/coil/detail/Optional.h"],
 [("result is assembled in a local call context; return value assigned last and only without errors","include/coil/detail/FunctorCaller.h"),("logline reserves before appending","src/Coil.cpp Context::logline"),("allocate-then-commit in string and vector growth","src/String.cpp reserve")],
 observe=["ExecutionResult or propagated exception","body invocation count","later executions"])
prop("C06", "Exceptions from user code are contained",
 "With exception catching enabled, an exception thrown by a command body or by the conversion of its arguments or result becomes exactly one additional error, carrying the exception's message if it has one, with no return value and with the output and errors emitted before it kept; with catching disabled the same exception reaches the caller. Either way the interpreter, its other commands and the enclosing executions work afterwards as if the failing call had ended normally, and an exception thrown by a custom parser affects only its own call.",
 ["fault_sequences","histories","configurations"], "every point at which user code can throw (body before/after each step, argument conversion, result conversion, parser, nested call), every exception kind, every nesting depth, both configurations",
 "Two tests throw once from a trivial body at depth one; state that must be restored on the exceptional path is never exercised.",
 ["src/Coil.cpp","include/coil/detail/FunctorCaller.h","include/coil/detail/CallContext.h"],
 [("try/catch around the call when enabled","src/Coil.cpp Bindings::execute")],
 observe=["ExecutionResult or propagated exception","later executions"])
prop("C07", "Everything handed to the interpreter is released exactly once",
 "Every callable, parser, argument object and piece of memory the library creates or takes over is destroyed and freed exactly once: a callable when its name is rebound, unbound, cleared or its interpreter is destroyed (at the latest when the executions in progress have ended), an argument when its call ends, never earlier while still reachable and never twice. This holds for every history, including failed registrations, failing allocations, exceptions and abandoned overload sets.",
 ["histories","fault_sequences"], "every history of registrations, executions, moves and destruction with allocation failures and exceptions at every point",
 "Tests do not count destructions of callables and run without fault injection or leak checks.",
 ["include/coil/detail/FunctionWrapper.h","include/coil/detail/AnyFunctor.h","include/coil/detail/UniquePtr.h","include/coil/detail/Vector.h","src/Buffer.cpp","src/Coil.cpp"],
 [("type-erased destroy function","include/coil/detail/FunctionWrapper.h"),("single owner moved by exchange","include/coil/detail/AnyFunctor.h"),("element destruction tracked by buffer size","include/coil/detail/Buffer.h")],
 observe=["live object counts per callable, parser and argument","allocation table at quiescence"])
prop("C08", "A command body runs exactly once or not at all",
 "Executing a bound name runs exactly one body, that of the first overload with the given number of arguments, exactly once and with the values the text denotes, if all its arguments convert; otherwise no body runs, one error is reported per argument that does not convert, which carries the conversion's own reason or names the offending text (or one error for an unknown name or argument count, which names the command), and there is no return value. A bound variable or property changes only when the call setting it passed conversion, and then exactly once. This holds under failing conversions, exceptions, nested executions and failing allocations.",
 ["histories","fault_sequences","inputs"], "every sequence of calls with any subset of arguments failing, throwing or running out of memory during conversion, for every registered signature, variable and property",
 "Tests check a handful of single calls; partial conversion combined with throwing converters, nested calls or failures in mid-call is never reached.",
 ["include/coil/detail/FunctorCaller.h","src/Coil.cpp","include/coil/detail/Variable.h","include/coil/detail/Property.h","include/coil/detail/Overloaded.h","src/StringConv.cpp"],
 [("convert all arguments, then check all, then call","include/coil/detail/FunctorCaller.h invoke"),("first overload with matching arity","src/Coil.cpp Bindings::execute")],
 observe=["body invocations and their arguments","variables","ExecutionResult"])
prop("C09", "Damaged command text is contained",
 "Command text that arrives truncated, with flipped, lost, duplicated, reordered or spliced bytes either executes as what the received bytes denote or yields errors; processing it never reads outside the received bytes, never crashes or hangs, and leaves the session able to execute the next text correctly.",
 ["fault_sequences","inputs"], "every truncation point, bit flip, byte loss, duplication, transposition and splice of command texts in a session, in every session state and for every configured syntax",
 "Lexer tests use a few dozen well-formed strings that are NUL-terminated literals, so neither over-reads nor damaged text is exercised.",
 ["src/DefaultLexer.cpp","src/StringView.cpp","src/Coil.cpp","src/StringConv.cpp"],
 [("index-bounded scanning; unmatched quotes and groups are errors","src/DefaultLexer.cpp tokenize"),("conversion works on a terminated copy","src/StringConv.cpp")],
 observe=["ExecutionResult","memory accesses outside the text","later executions"])
prop("C10", "Results and registrations do not borrow the caller's temporary text",
 "Output, errors and return value of an execution, bound command names and the character sets of a configured parser stay intact after the caller overwrites or frees the text, name or character-set buffers it passed in, runs other commands, changes the bindings or destroys the interpreter; only the views of the parsed input in a result refer to the caller's text, and they read correctly for as long as that text lives.",
 ["histories","fault_sequences"], "every instant at which a caller's buffer is reclaimed after the call that received it returned, combined with every later operation",
 "Tests pass string literals, which live forever, so a dangling view reads correctly.",
 ["src/Coil.cpp","src/DefaultLexer.cpp","include/coil/detail/ExecutionResult.h","include/coil/detail/Bindings.h","include/coil/detail/ExecutionInput.h"],
 [("result strings own their bytes","include/coil/detail/ExecutionResult.h"),("registry key is an owned string and the command name views it","src/Coil.cpp Bindings::add"),("parser copies its character sets","include/coil/detail/DefaultLexer.h")],
 observe=["retained results and Command::name after reclaiming buffers"])
prop("C11", "Replacing the parser is clean, also in mid-execution",
 "Replacing an interpreter's parser, also from a running command, takes effect for the next text executed and never for one already being executed; bindings, variables and executions in progress are unaffected. Each parser stays alive while it is installed and is destroyed exactly once when replaced or when its interpreter is destroyed, and a parser that fails or throws affects only the call it was parsing.",
 ["histories","schedules","fault_sequences"], "every history of parser replacements interleaved with nested and waiting executions, parsers that report errors or throw, moves of interpreters",
 "One test sets a parser once before executing one command.",
 ["src/Coil.cpp","include/coil/detail/UniquePtr.h","include/coil/detail/Lexer.h","src/DefaultLexer.cpp"],
 [("parser owned by the interpreter and used only before the call starts","src/Coil.cpp Bindings::execute, setLexer")],
 observe=["which parser parsed each text","parser live counts"])
prop("C12", "Strings stay consistent when memory runs out or arguments overlap",
 "The library's string behaves as a byte sequence under every sequence of construction, assignment, appending, concatenation, reserving and resizing, also when the appended bytes are part of the string itself. If an allocation fails the operation reports it and the string keeps its previous contents. It is always terminated, never leaks and never touches memory it does not own.",
 ["fault_sequences","histories"], "every operation sequence with an allocation failure at every index and every overlap of source and destination",
 "Tests use short fixed sequences without failures or overlap.",
 ["src/String.cpp","include/coil/detail/String.h","src/Buffer.cpp","src/StringView.cpp"],
 [("reserve builds the new buffer before replacing the old","src/String.cpp reserve"),("copy-and-swap assignment","src/Buffer.cpp")],
 observe=["contents, length, terminator"])
prop("C13", "Vectors stay consistent when memory or element copies fail",
 "The library's vector behaves as a sequence under every history of operations, for copyable and move-only elements, also when a value being added is an element of the vector itself. If an allocation or an element copy fails, the failure is reported and the vector keeps its previous elements (a failed enlargement may have added some of its new default elements); every element is destroyed exactly once.",
 ["fault_sequences","histories"], "every operation history with a failure at every allocation and element copy",
 "Tests never fail an allocation or a copy and use short histories.",
 ["include/coil/detail/Vector.h","include/coil/detail/Buffer.h","src/Buffer.cpp"],
 [("grow allocates first, moves, then swaps","include/coil/detail/Vector.h grow"),("delegating constructors clean up partially built vectors","include/coil/detail/Vector.h")],
 observe=["contents, size, capacity, element live counts"])
prop("C14", "Hash maps agree with a plain map after any history and any failure",
 "After any history of inserting, assigning, erasing, clearing, copying and moving, for every initial bucket count and load factor, the library's hash map contains exactly the keys and values a plain map would, each key once, for lookup and for iteration. If an allocation or element copy fails during an operation, the failure is reported and the map is as before. Every operation ends after work bounded by the map's size.",
 ["histories","fault_sequences","configurations"], "every operation history over colliding and non-colliding keys with failures at every allocation; all bucket counts and load factors",
 "Tests use a handful of integer keys and short erase sequences; the relinking on erase depends on bucket order reached only by longer histories.",
 ["include/coil/detail/UnorderedMap.h","include/coil/detail/Hash.h","src/StringView.cpp"],
 [("chained buckets of node indices with swap-erase","include/coil/detail/UnorderedMap.h")],
 state=[("m_buckets, m_nodes","index-linked chains","include/coil/detail/UnorderedMap.h")],
 observe=["find, iteration, size"])
prop("C15", "Optional, expected and owning-pointer values survive failed copies",
 "The library's optional, expected/unexpected and owning-pointer types hold at every time exactly one live value (or none, where empty is a state) and destroy it exactly once, for every history of construction, copying, moving, assignment between equal and different states, and reset. If copying a value fails, the failure is reported and both objects remain valid, the assigned one keeping its previous value.",
 ["fault_sequences","histories"], "every operation history over the value types with a failure at every allocation made by an element copy",
 "Tests never make a copy fail; a half-done state change is only visible then.",
 ["include/coil/detail/Optional.h","include/coil/detail/Expected.h","include/coil/detail/Unexpected.h","include/coil/detail/UniquePtr.h"],
 [("construct-then-flag, destroy-then-construct","include/coil/detail/Expected.h, Optional.h")],
 observe=["state, value, element live counts"])
prop("C16", "Calls do not depend on leftover process state",
 "The result of a call depends only on its text, the bindings and the bound objects: an error code left in errno before the call or set by the memory allocator or user code during it, and the previous contents of memory handed out by the allocator, make no difference. If the platform's text formatting fails, the call neither crashes, corrupts memory nor returns stray memory contents; only the text being formatted may be missing.",
 ["fault_sequences","histories"], "every value of errno at every entry, allocation and callback; every prior content of allocated memory; a failure of every formatting call",
 "Tests start from a clean errno, fresh zeroed heap pages and a libc that never fails.",
 ["src/StringConv.cpp","src/Coil.cpp","src/String.cpp","src/Buffer.cpp"],
 [("errno cleared right before each conversion","src/StringConv.cpp"),("formatted length measured before formatting","src/Coil.cpp vsprintf")],
 observe=["ExecutionResult, bound variables, NamedArgs reads"])
prop("C17", "Service resumes, with bounded work, once faults stop",
 "After any storm of allocation failures, exceptions, damaged texts and registry changes, as soon as the faults stop every bound command is served correctly at the first attempt and every unbound name is refused, and the work per call is bounded by a constant factor of what a freshly built interpreter with the same bindings needs, also for names that are bound afterwards and for texts that are refused. What an interpreter keeps in memory stays bounded by its bindings and the largest it has had to deal with, however many calls it has served. Every call terminates.",
 ["fault_sequences","histories","schedules"], "every fault storm within the simulator's bounds followed by a quiet phase",
 "Tests contain no faults and measure neither work nor memory.",
 ["src/Coil.cpp","include/coil/detail/UnorderedMap.h","src/DefaultLexer.cpp"],
 [("no state survives a failed call","src/Coil.cpp"),("rehash keeps chains short","include/coil/detail/UnorderedMap.h")],
 observe=["results and instrumented step counts in the quiet phase"])
# ---- listed, not claimed
prop("C18", "Well-formed text is split as the documented syntax says",
 "For every well-formed command text the default parser yields the name, positional arguments, group elements and named arguments that the documented quoting, grouping and assignment syntax denotes.",
 ["inputs"], "all well-formed texts", "Tests cover a few dozen strings.",
 ["src/DefaultLexer.cpp"], [("tokenize, splitGroup, parse","src/DefaultLexer.cpp")], observe=["DefaultLexer::parse"])
prop("C19", "Text converts to a number exactly or is rejected",
 "Text converts to an integer or floating-point parameter if and only if all of it denotes a value representable in that type, and then to exactly that value.",
 ["inputs"], "all texts and all arithmetic types", "Tests cover boundary samples.",
 ["src/StringConv.cpp"], [("strtoX with range and end checks","src/StringConv.cpp")], observe=["TypeSerializer<T>::fromString"])
prop("C20", "Values convert to text that reads back",
 "The text produced for an integer, boolean or string value denotes that value again when used as an argument of the same type.",
 ["inputs"], "all values of the built-in types", "Tests cover samples.",
 ["src/StringConv.cpp","src/Coil.cpp"], [("printf formatting","src/StringConv.cpp")], observe=["TypeSerializer<T>::toString"])
prop("C21", "Ill-formed bindings are rejected at compile time",
 "Binding something that is not callable, or a mutating member function to a constant object, does not compile.",
 ["programs"], "all client programs", "Three fixed programs are tried.",
 ["include/coil/detail/Bindings.h","include/coil/detail/Bind.h","include/coil/detail/FuncTraits.h"], [("static_assert on the callable's traits","include/coil/detail/Bind.h")], observe=["compiler diagnostics"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
