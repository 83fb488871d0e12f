import json
D="include/boost/coroutine2/detail/"
PCI=D+"pull_control_block_cc.ipp"; PSI=D+"push_control_block_cc.ipp"
PCH=D+"pull_control_block_cc.hpp"; PSH=D+"push_control_block_cc.hpp"
PI=D+"pull_coroutine.ipp"; QI=D+"push_coroutine.ipp"
PH=D+"pull_coroutine.hpp"; QH=D+"push_coroutine.hpp"
CR=D+"create_control_block.ipp"; WR=D+"wrap.hpp"; ST=D+"state.hpp"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every value is delivered once, in order and unaltered",
 "Each value pushed into a coroutine channel - from a coroutine-function to the owner of a pull_type, or from the owner of a push_type to the coroutine-function - is what the receiving side reads after that very transfer: no value is lost, duplicated, reordered, altered or replaced by an older one. This holds for every payload kind (built-in, class, move-only, copy-only, large, pointer, tuple, lvalue and const references), for every stream length, and whichever way the values are read or left unread.",
 ["histories","inputs","configurations"],"all interleavings of pushes, reads and other operations up to a depth; all stream lengths up to a bound; all payload kinds of the alphabet, both directions",
 "The tests push at most six values through a few payload types in one fixed order; they cannot reach combinations of lvalue/rvalue pushes, unread values, mixed coroutines, long streams or other payload sizes.",
 [PCI,PSI,PI,QI],[("store the value, then switch","push_coroutine::control_block::resume in "+PSI),("set/get of the value slot","pull_coroutine::control_block::set/get in "+PCI)],
 [("value slot","the value transferred last",PCH)],["pull_type::get","pull_type::iterator::operator*"])

p("C02","Suspending and resuming preserves the coroutine-function's execution",
 "A pull_type's coroutine-function is entered during construction; a push_type's coroutine-function is entered by the first call of its operator() and not before. Every later resumption continues exactly after the operation that suspended the function - at any call depth - with all local variables of all its frames intact and on the coroutine's own stack; the function's code is executed exactly once, never restarted or skipped.",
 ["histories","programs"],"all sequences of suspend, nested call, nested return, resume, return, throw and destroy up to a depth, for both coroutine types and all payload specialisations",
 "Tests suspend only at fixed places of a handful of hand-written functions, nearly all of them in the outermost frame.",
 [PCI,PSI,PI,QI,CR],[("entering the function","lambda in control_block constructors, "+PCI+", "+PSI),("switch","control_block::resume")])

p("C03","Control always returns to the most recent resumer",
 "When a coroutine-function suspends, returns or throws, execution continues in whichever context resumed it last, directly after that resuming operation - regardless of which context created the coroutine or resumed it earlier. This holds for every nesting: coroutines that create, resume, pass on and destroy other coroutines from inside their functions, chains and pipelines included.",
 ["histories","programs"],"all call structures of up to three coroutines plus main, in which any running context may create, resume, move or destroy any coroutine that is not currently in the call chain, up to a depth",
 "Only one test (test_chaining) resumes a coroutine from a context other than its creator, in one fixed pattern.",
 [PCI,PSI,D+"coroutine.hpp"],[("update of the stored peer context at every switch","c = std::move( c).resume() in "+PCI+", "+PSI),("return jump of a finished function","return std::move( other->c).resume()")])

p("C04","operator bool tells exactly whether the coroutine can be used",
 "A coroutine object converts to true exactly as long as it refers to a coroutine whose function has neither returned nor thrown - for a non-void pull_type this also means that a value is available - and operator! is always the negation. It is false for moved-from objects and for pull_types whose function ended without pushing; asking, and reading the value, never changes the answer.",
 ["histories"],"all operation sequences up to a depth, both directions, all payload specialisations; the answer is compared on every live coroutine object after every operation, from every context, including the counterpart object seen by the function",
 "Tests look at the flag in a dozen hand-picked states, never after an exception in a pull_type, after repeated reads, from nested contexts or while another coroutine runs.",
 [PCI,PSI,PI,QI,ST],[("valid()",PCI+", "+PSI),("operator bool / operator!",PI+", "+QI)],
 [("state","complete/unwind flags",ST),("bvalid","value available",PCH)])

p("C05","Exceptions surface once, in the operation that resumed the coroutine",
 "An exception that leaves a coroutine-function is rethrown, with its dynamic type and content, by exactly the operation that had resumed that function: the pull_type constructor, pull_type::operator(), iterator increment, push_type::operator() or assignment through a push iterator. At that point the function's frames are destroyed and the coroutine is complete, or for a constructor never came into being; the exception reaches nobody else and no other coroutine is affected.",
 ["histories","inputs"],"all positions at which the function may throw in histories up to a depth; exception kinds: class types with and without std::exception base, polymorphic types, built-in types; resumption from main and from other coroutines",
 "One test throws one std::runtime_error from a push_type<void> on its first call; pull_type, other payloads, later calls, other types and nested propagation are untested.",
 [PCI,PSI],[("capture","catch (...) in the entry lambdas of "+PCI+", "+PSI),("rethrow","control_block::resume and control_block constructors")],
 [("except","captured exception",PCH)])

p("C06","Destroying an unfinished coroutine unwinds it completely",
 "Destroying a coroutine object whose function is suspended destroys every local object of every frame of that function exactly once, in reverse order of construction, before the destructor returns, and executes no other code of the function past its suspension point; a push_type that was never called just disappears without its function ever being entered. The unwinding is invisible outside: it never surfaces as an exception, also works while another exception is propagating, and covers coroutines owned by frames that are unwound.",
 ["histories","crash_points"],"all suspension points at any frame depth, in all histories up to a depth, destroyed from main, from other coroutines, from a scope that is being left by an exception, or as a local of another coroutine that is unwound",
 "test_unwind destroys four fixed coroutines of type void with one local object each.",
 [PCI,PSI,PI,QI],[("destroy(): drop the fiber, which unwinds","control_block::destroy in "+PCI+", "+PSI),("forced_unwind is rethrown, not captured","catch ( forced_unwind const&) in the entry lambdas")])

p("C07","Every transferred object is destroyed exactly once and read only while alive",
 "Every payload object the library creates by copying or moving is destroyed exactly once, never before it was replaced by the next transfer or its coroutine was destroyed, and at the latest when the coroutine object is destroyed; a coroutine never holds on to more than the last value. No destroyed or never-constructed payload object is ever read, copied from or handed out.",
 ["histories"],"all histories of transfers (read or left unread), completion, exceptions, moves and destruction up to a depth; every payload construction, access and destruction is monitored",
 "Tests use payloads without observable destruction; leaks and double destruction go unnoticed.",
 [PCI,PCH,PSI],[("set() destroys the previous value","pull_coroutine::control_block::set"),("~control_block destroys the last value",PCI)],
 [("bvalid","value slot holds an object",PCH)])

p("C08","Lvalues are copied, rvalues are moved, reads never copy",
 "Pushing an lvalue copies it and leaves the pushed object unchanged; pushing an rvalue moves it and never copies, so that move-only types work in both directions. get() hands the value over without ever copying it, and dereferencing an iterator gives access to the stored value itself without consuming it.",
 ["histories","inputs"],"all sequences of lvalue/rvalue pushes and reads by get() or iterator up to a depth; copyable, copy-only and move-only payloads, both directions; copies counted and sources inspected after each push",
 "One test moves one object through a push_type; copies, source preservation and the pull direction are not looked at.",
 [QI,PSI,PCI,PI],[("operator()( T const&)/operator()( T &&)",QI),("set( T const&)/set( T &&)",PCI),("get()",PI)])

p("C09","References transfer the identity of the object",
 "A coroutine over a (const) reference type hands the receiving side exactly the object that was pushed - same address, for every single transfer - and never copies, moves, modifies or destroys it; changes made through the received reference are visible in the pushed object and vice versa.",
 ["histories","inputs"],"all sequences of pushes of references to several objects (same object again, another one), reads by get(), iterator * and ->, in both directions, for T&, const T&, base-class references, up to a depth",
 "Tests push one reference through a push_type and three different ones through an iterator loop; re-pushed objects, const references in the pull direction and modifications are untested.",
 [PCI,PSI,PCH,PI],[("holder",PCH),("pull_coroutine< T & >::control_block::set/get",PCI)])

p("C10","The coroutine-function object is taken over, used once and released",
 "The callable given to a constructor is copied if it is an lvalue (the caller's object keeps its state) and moved if it is an rvalue, the stored callable has exactly the given state when it is invoked, and it is invoked at most once. Everything a movable callable captured is released by the time control returns to the resumer after the function has ended, and for every callable at the latest - also if it was never entered - when the coroutine is destroyed; each callable object is destroyed exactly once.",
 ["inputs","histories","configurations"],"callable kinds (function, lambda, std::function, bind expression, stateful copyable, copy-only, move-only functor) x value category x coroutine type x payload x lifecycle (never entered, suspended, returned, threw, destroyed), in every language standard",
 "Tests pass one copyable and one moveable functor whose state is a bool, so that moving from an lvalue or a late release cannot be seen.",
 [PCI,PSI,WR,CR],[("capture of fn","fn_=std::forward< Fn >( fn) in the control_block constructors, wrap() for C++11"),("auto fn = std::move( fn_)",PCI+", "+PSI)])

p("C11","One stack per coroutine, from and back to the given allocator",
 "Constructing a coroutine takes exactly one stack from the stack allocator it was given (the default one if none), the function runs on that stack, and the stack goes back exactly once, with the context it was allocated with, to that allocator or a copy of it - at the latest when the coroutine object is destroyed or its construction fails, and never while anything on it is in use. If the allocator or copying the callable throws, that exception reaches the caller and nothing is leaked.",
 ["histories","fault_sequences"],"all lifecycles up to a depth with lvalue, rvalue and default allocators; failure of every allocation and of copying the callable at every construction in those histories",
 "No test passes an allocator, counts stacks or makes anything fail.",
 [CR,PI,QI,PCI,PSI],[("allocation and placement of the control block",CR),("release of invalid pull_types","constructors in "+PI),("deallocate()/destroy()",PCI+", "+PSI)])

p("C12","Moving a coroutine object transfers the coroutine and nothing else",
 "After move construction or move assignment the target behaves exactly as the source would have, the source is not-a-coroutine, and the coroutine the target held before is destroyed as if by its destructor; self-move is harmless. The function does not notice: moving neither switches context nor touches values, and also works while the function is running, for values not yet read, and for the counterpart object inside the function.",
 ["histories"],"all histories mixing move construction, move assignment onto empty, complete, suspended and unentered targets, self-move, with all other operations, up to a depth",
 "test_move assigns once onto a completed coroutine; overwriting a live coroutine, moving unentered or running coroutines and moving inside functions are untested.",
 [PH,QH,PI,QI],[("operator=( &&)",PH+", "+QH),("move constructors",PI+", "+QI)],
 [("cb_","the owned coroutine, or null",PH)])

p("C13","Coroutines are independent of each other",
 "What a coroutine delivers and how it behaves depends only on its own function and on the operations performed on it: any interleaving of operations on several coroutines - of the same or of different types, some of them nested, finished, failed or destroyed in between - gives each of them the same observations as running it alone. No library state is shared between them.",
 ["schedules","histories"],"all interleavings of the operation scripts of up to four coroutines of equal and different types, compared with the observations of each script run alone",
 "Tests never have more than two coroutines alive and interleave them in one fixed way.",
 [PCI,PSI,CR],[("all state lives in the per-coroutine control block",PCH+", "+PSH)])

p("C14","Input iterators enumerate exactly the values a pull_type delivers",
 "Iterating a pull_type from begin() to end() - member or free functions, range-for, standard algorithms, starting at any point of the stream - visits each value from the current one on exactly once, in order; begin() and * and -> never advance the coroutine and show the current value however often they are used, ++ (prefix or postfix) advances it by exactly one. An iterator obtained from begin() or just incremented equals end() exactly if the coroutine has become invalid.",
 ["histories","inputs"],"all streams up to a length, all sequences of begin, ==, !=, *, ->, ++, postfix ++, direct resumption and copies of iterators up to a depth; value and reference payloads; streams ended by return or exception",
 "Tests run three complete loops over streams of length three and five; empty and partially consumed streams, repeated dereference, -> and postfix increment are untested.",
 [PH],[("iterator::fetch_/increment_",PH),("begin()/end()",PH)])

p("C15","Output iterators push exactly the values assigned through them",
 "Assigning through an output iterator of a push_type resumes the coroutine exactly once with that value; dereferencing and incrementing do nothing. An iterator obtained from begin() or just assigned through equals end() exactly if the coroutine is complete, so that assigning a range pushes every element once, in order.",
 ["histories","inputs"],"all sequences of begin, =, *, ++, ==, direct pushes and copies of iterators up to a depth, for functions that consume every possible number of values; value and reference payloads",
 "One test runs one loop to completion.",
 [QH],[("iterator::operator=",QH),("begin()/end()",QH)])

p("C16","Storage is aligned and stays inside the stack for every payload and stack",
 "For every payload size and alignment, every callable size and alignment up to 64 and every stack the allocator returns (any sufficient size, any address the allocator concept permits), the payload objects the library creates are placed at addresses satisfying their alignment, callables work on intact data, and the library never writes outside the stack memory it was given.",
 ["inputs","configurations"],"payload sizes 1..N and alignments 1..256, callable sizes, stack sizes and stack top offsets, enumerated as a product; both directions",
 "Tests only use payloads of at most 32 bytes and default alignment, on default stacks.",
 [CR,PCH,PCI],[("std::align of the control block",CR),("alignas(T) storage",PCH)],[("storage","value slot",PCH)])

p("C17","A failed transfer leaves sender, receiver and coroutine usable",
 "If copying or moving a pushed value throws, that exception leaves the push operation in the context that pushed, without any switch: the receiving side does not run and never observes the failed value, the coroutine can still be resumed, pushed to, moved and destroyed as if the push had not been attempted (except that the previous value may be gone), and no object is leaked or destroyed twice.",
 ["fault_sequences","histories"],"every push in every history up to a depth failing in its copy or move, any number of times, both directions, followed by all continuations",
 "No test has a payload that throws.",
 [PCI,PSI],[("set() before the switch","control_block::set in "+PCI+", resume in "+PSI)],[("bvalid","value slot holds an object",PCH)])

p("C18","Same program, same behaviour in every supported build mode",
 "A program using the library shows the same observable behaviour - control flow, values, validity, exceptions, destruction order, number of live objects and stacks - whether compiled as C++11, C++14, C++17 or later, with g++ or clang++, with or without optimisation and assertions, and on top of either context-switch implementation.",
 ["configurations","programs"],"the set of enumerated programs of the other properties up to a depth, executed in each build mode; digests of their observation traces compared pairwise",
 "Tests are compiled as C++11, 14 and 17 by one compiler with one set of flags, and only compared with fixed expectations.",
 [PCI,PSI,WR,CR],[("separate C++11 and C++14 implementations of each coroutine entry","#if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS) in "+PCI+", "+PSI)])

p("C19","Reading a copyable value does not use it up",
 "For payload types that are copyable, reading the current value - by get() or through an iterator - any number of times before the next resumption yields the same value each time; only move-only payloads are restricted to a single read.",
 ["histories","inputs"],"all sequences of up to four reads (get, *, ->) between two transfers, for trivially copyable, copy-only and copyable-and-movable payloads and references, both directions",
 "Tests read every value once.",
 [PI,PH],[("get()",PI)])

p("C20","Coroutines may migrate between threads and run concurrently in different ones",
 "A coroutine may be constructed, resumed, moved and destroyed by different threads, as long as they do so one after the other, with the same behaviour as in one thread; different coroutines may be used by different threads at the same time without synchronisation and without affecting each other.",
 ["schedules"],"all assignments of the operations of a history to two or three threads, and all interleavings (operation granularity) of threads that each use coroutines of their own; plus a free-running race-detection pass over the same bodies",
 "No test uses a second thread.",
 [PCI,PSI,CR],[("no library state outside the control block and the stack",PCH+", "+PSH)])

p("C21","The offered stack allocators provide what their names promise",
 "Coroutines work on fixedsize_stack, pooled_fixedsize_stack, protected_fixedsize_stack and the default stack with any admissible size, and release them without leaks; with protected_fixedsize_stack the page below the usable stack is inaccessible, so that overrunning it faults instead of corrupting memory, and with pooled_fixedsize_stack a released stack is reused for the next coroutine from the same allocator.",
 ["inputs","configurations","histories"],"allocator kinds x stack sizes x coroutine types x lifecycles (never entered, suspended, returned, threw, moved), enumerated",
 "No test uses an explicit allocator.",
 ["include/boost/coroutine2/fixedsize_stack.hpp","include/boost/coroutine2/pooled_fixedsize_stack.hpp","include/boost/coroutine2/protected_fixedsize_stack.hpp","include/boost/coroutine2/segmented_stack.hpp",CR],
 [("aliases of the Boost.Context allocators","include/boost/coroutine2/*_stack.hpp")])

p("C22","Misuse that the interface excludes does not compile",
 "Copying a coroutine object, reading a value from a pull_type<void>, implicit conversion to bool or from a callable, and pushing nothing to (or something through) a coroutine of another payload type are rejected at compile time.",
 ["programs"],"all programs containing such an expression",
 "The tests only contain programs that compile.",
 [PH,QH],[("deleted copy operations, explicit constructors, missing get()",PH+", "+QH)])

p("C23","A context switch costs constant time and no allocation",
 "Resuming or suspending a coroutine takes time independent of the number of coroutines, of the depth of the stacks and of the number of previous switches, and performs no memory allocation of its own.",
 ["histories"],"all histories; time per switch",
 "Performance programs measure averages of one fixed pattern.",
 [PCI,PSI],[("single jump per switch","control_block::resume")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); 
print(len(P))
