import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
HT="amtl/am-hashtable.h";HM="amtl/am-hashmap.h";HS="amtl/am-hashset.h"
p("C01","Hash containers are exact dictionaries over every history",
 "After any sequence of insertions, value updates, removals, clears and moves, a HashTable, HashMap or HashSet reports a key as present exactly when it was inserted and not removed since, with the value last stored for it, and its element count is the number of such keys. This holds for every hash function (total collisions, hash values that clash with internal markers, wrap-around at the end of the table), every legal initial capacity and every lookup key type, and however often the table grows, shrinks or reuses the places of removed entries. Every lookup and insertion terminates, and the handle used for an insertion gives access to the inserted entry after the insertion returns.",
 ["histories","inputs"],"every finite sequence of operations, every hash assignment of the keys, every initial capacity",
 "test-hashmap.cpp runs two histories of at most four operations on a table that never resizes; collisions, tombstone reuse across the density thresholds, reserved hash values and moves are never reached.",
 [HT,HM,HS],[("lookup / lookupForAdd probe past removed slots until a free one",HT+": lookup, lookupForAdd"),("density check before an insertion keeps at least one free slot and rehashes every live entry",HT+": internalAdd, checkDensity, changeCapacity"),("hash values equal to the free/removed markers are displaced",HT+": computeHash")],
 [("dictionary","key -> value map the container stands for","find/findForAdd/iterator/elements")],["find","findForAdd + add","removeIfExists","remove","clear","elements","move construction"])
p("C02","Iterating a hash container visits each live entry exactly once",
 "An iteration over a HashTable, HashMap or HashSet yields every entry present when it started exactly once, with its current key and value, and nothing else, then reports that it is finished. Erasing the entry under the iterator removes exactly that entry and lets the iteration continue over all the remaining ones. This holds for every arrangement of live, removed and free places, including an empty table and entries in the first and last place.",
 ["histories","inputs"],"every reachable table and every choice of entries erased while iterating",
 "The tests iterate over tables with one or two entries and never erase through an iterator.",
 [HT,HM,HS],[("iterator skips everything that is not live, at construction and on next()",HT+": class iterator"),("erase marks the slot without resizing",HT+": iterator::erase, removeEntry")],(),["iter() / iterator(&table)","next","erase","empty"])
p("C03","Hash containers keep their contents when an allocation fails",
 "With an allocator policy that can refuse memory, a failed initialisation or insertion on a HashTable, HashMap or HashSet returns false and leaves exactly the previous entries and element count in place; the container stays usable and destructible, and the same operation succeeds once memory is available again. A request beyond the maximum capacity is reported to the policy as an allocation overflow and fails the same way instead of terminating the program. The policy object that the container exposes is the one its allocations go through.",
 ["fault_sequences","histories"],"every history of operations with every choice of which allocations fail",
 "No test makes an allocation of a hash container fail (FallibleMalloc in tests/runner.h is not used by any of them).",
 [HT,HM,HS,"amtl/am-allocator-policies.h"],[("new table is allocated before the old one is touched",HT+": changeCapacity"),("failure of init leaves no table and no capacity",HT+": init"),("overflow is reported through the policy",HT+": init, grow")],(),["init","add","allocPolicy","elements"])
p("C04","Hash containers destroy each element exactly once and return all memory",
 "At every moment between operations the number of live element objects owned by a HashTable, HashMap or HashSet equals its element count: an element is destroyed exactly once, when it is removed, erased, cleared, relocated by a resize (the old copy) or when its container is destroyed, and no element is read or assigned before construction or after destruction. Every block obtained from the allocator policy is returned to it exactly once, at the latest when the container is destroyed; a moved-from container owns nothing, and what estimateMemoryUse() reports is what the container holds.",
 ["histories","inputs"],"every history including resizes, clears, moves and destruction at any point",
 "The tests never count constructions against destructions in a hash container and store int values or strings only.",
 [HT,HM,HS],[("setRemoved/setFree/destruct destroy live payloads only",HT+": HashTableEntry"),("changeCapacity destroys the old copies and frees the old array",HT+": changeCapacity"),("move construction empties the source",HT+": HashTable(HashTable&&)")],(),["constructors/destructors of the payload","am_malloc/am_free"])
RC="amtl/am-refcounting.h"
p("C05","Reference-counted objects live exactly as long as a reference to them",
 "For every single-threaded program over Refcounted, VirtualRefcounted, RefPtr, AlreadyRefed and manual AddRef/Release, a referenced object is destroyed exactly once, at the moment its last reference disappears, and never while a reference to it remains. This includes assigning a pointer to itself, assigning from a pointer reachable only through the object being released, conversions between base and derived pointers, and transferring a reference with take, forget or AdoptRef, which neither adds nor drops one. Afterwards every pointer variable refers to the object that was assigned to it, and a pointer whose reference was moved or taken away is null.",
 ["histories","programs"],"every sequence of constructions, copies, moves, assignments, transfers and destructions over any aliasing between variables and object members",
 "test-refcounting.cpp counts destructions in nine straight-line scopes; it never assigns over a live pointer except in AtomicRef, never aliases, never chains objects.",
 [RC],[("AddRef/Release pair in every constructor, assignment and destructor of RefPtr",RC+": class RefPtr"),("AlreadyRefed owns the reference it was given",RC+": class AlreadyRefed")],
 [("refcount","number of references to an object",RC)],["destructor of the object","RefPtr::get"])
TS="amtl/am-refcounting-threadsafe.h"
p("C06","Thread-safe reference counts destroy the object once, after the last release",
 "For every interleaving of AddRef and Release calls by any number of threads on a RefcountedThreadsafe or VirtualRefcountedThreadsafe object, the object is destroyed exactly once, by the Release call that drops the last reference, and never while another reference remains. Everything any thread did with the object before its own Release happens before the destruction. RefcountedThreadsafe::Release returns false exactly in the call that destroyed the object.",
 ["schedules"],"every interleaving of the atomic steps of 2 to 4 threads adding and dropping references they own",
 "test-refcounting.cpp includes the header but uses the atomic counts from one thread only, and never instantiates VirtualRefcountedThreadsafe.",
 [TS],[("atomic increment and fetch-and-subtract decide who destroys",TS+": RefcountedThreadsafe, VirtualRefcountedThreadsafe")],
 [("refcount","number of references",TS)],["AddRef/Release call and return","destructor"])
p("C07","AtomicRef reads and writes are atomic and never hand out a dead object",
 "For every interleaving of threads reading from and assigning to the same AtomicRef, each read returns a reference to the object that was current at one instant between its call and its return, the results are consistent with one order of all reads and writes, and the object returned stays alive until the reader drops it. Every object is destroyed exactly once, when neither the AtomicRef nor any reader or owner refers to it, and no reference is lost or leaked. No thread waits forever when the other threads make progress.",
 ["schedules"],"every interleaving at the granularity of single atomic operations of 2 to 3 threads doing reads and writes",
 "The only tests of AtomicRef assign three times from one thread; no concurrent read or write is executed.",
 [TS],[("tag bit in the pointer is a spin lock held while the reference is added",TS+": AtomicRef::lock, unlock, get, operator=")],
 [("thing","current object plus lock bit",TS)],["get and operator= call/return","object destruction"])
TL="amtl/am-threadlocal.h"
p("C08","Thread-local values are isolated per thread and per variable",
 "A read of a ThreadLocal in one thread returns the value that same thread last stored in that same variable, or the default value when it stored none, for every interleaving of threads including the very first, racing stores that allocate the underlying slot. No operation on one ThreadLocal affects the value of another, and a destroyed ThreadLocal releases exactly the slot it allocated. When the operating system refuses a slot, allocate() returns false, reads keep returning the default value, and a later allocate() can succeed; a store that gets no slot or no memory for its value never returns as if it had stored it.",
 ["schedules","fault_sequences"],"every interleaving of first stores, stores and reads of 2 to 3 threads on 1 to 2 variables, with and without refused slots",
 "test-threadlocal-threaded.cpp has the main thread store first and joins one second thread; no two threads ever race on the first store and slot exhaustion is not exercised.",
 [TL],[("slot allocation is guarded by a compare-and-swap on the allocation state",TL+": allocate"),("reads before allocation return T()",TL+": get")],
 [("allocated","whether the slot exists",TL)],["get","set","allocate","destructor"])
MU="amtl/am-mutex.h"
p("C09","Mutex excludes, and its ownership assertion is exact",
 "At most one thread holds a Mutex at any time. In debug builds the ownership assertion passes exactly when the calling thread currently holds the mutex, however it acquired it (lock, successful try_lock, or a standard lock guard), and fails for every other thread and after unlock. A failed try_lock changes nothing, and try_lock succeeds when no thread holds or is acquiring the mutex.",
 ["schedules"],"every interleaving of lock, try_lock, unlock and ownership assertions of 2 to 3 threads",
 "No test includes am-mutex.h.",
 [MU],[("owner is recorded on acquisition and cleared before release",MU+": lock, unlock, try_lock")],(),["lock","try_lock","unlock","AssertCurrentThreadOwns"])
IL="amtl/am-inlinelist.h"
p("C10","InlineList is an exact sequence and nodes know their membership",
 "After any sequence of appends, removals, erasures through forward or reverse iterators and direct self-removals, iterating an InlineList forwards yields exactly its member nodes in append order and backwards the reverse of that, and emptiness and length agree with it. A node reports being in a list exactly when it is a member of one, and a removed node can be appended again to the same or another list without affecting any other list. Erasing returns the position after the erased node in the iteration direction.",
 ["histories"],"every history over several lists and nodes, in debug and release builds",
 "test-inlinelist.cpp runs one fixed history over five nodes; reverse iteration, isInList, length, removeFromParentList and erase in the middle are never exercised.",
 [IL],[("doubly linked ring through a sentinel, O(1) splice",IL+": append, remove, removeFromParentList, erase")],
 [("ring","sequence of nodes",IL)],["begin/end","rbegin/rend","length","empty","isInList"])
PQ="amtl/am-priority-queue.h"
p("C11","PriorityQueue removes elements in priority order and loses none",
 "After any interleaving of insertions and pops, peek and pop yield an element than which no remaining element has higher priority, and the elements popped plus those remaining are exactly those inserted, each once. This holds for any strict weak ordering supplied, including equal priorities, stateful comparators and move-only element types, and across moving the queue.",
 ["histories","inputs"],"every sequence of add, emplace, pop, peek and move over any priorities",
 "test-priority-queue.cpp adds six ints once and drains; pops never interleave with adds, no custom order, no move-only type.",
 [PQ],[("binary heap sift-up and sift-down",PQ+": propagateUp, propagateDown, pop")],
 [("heap","bag of elements",PQ)],["add","emplace","peek","pop","empty"])
FN="amtl/am-function.h"
p("C12","Function has value semantics and owns its callable exactly once",
 "After any sequence of constructions, copies, moves, assignments (including self-assignment and assignment from null or from an empty Function) and destructions, a Function is empty exactly when nothing or nothing callable was last stored in it, and otherwise invoking it runs the callable last stored, with the arguments passed and the state captured at that time. Copies are independent, each stored callable is destroyed exactly once, and a moved-from Function is empty. A callable object of at most two machine words and no more than word alignment, stored directly, does not use the heap.",
 ["histories","programs"],"every history over several Function variables and callables of every storage class (function pointer, small, boundary-sized, large, over-aligned)",
 "test-callable.cpp stores eight callables in straight-line code; it never copies or moves an empty Function, never self-assigns, never counts live callables across assignments.",
 [FN],[("clone/move through the holder, inline or heap",FN+": assign, move, destroy")],
 [("holder","stored callable",FN)],["operator()","operator bool","usingInlineStorage","destructor of the callable"])
MB="amtl/am-maybe.h"
p("C13","Maybe holds at most one value and destroys it exactly once",
 "After any sequence of initialisations, copies, moves, assignments (including self-assignment) and destructions, a Maybe is valid exactly when a value was last put into it and not moved out, and access gives that value; copying leaves the source unchanged and moving leaves it invalid. Every value object that was constructed inside a Maybe is destroyed exactly once, including the one replaced by an assignment. The value is stored at an address suitably aligned for its type.",
 ["histories"],"every history over several Maybe variables and value types with observable construction, moves, destruction and alignment",
 "There is no test of am-maybe.h except as a constant argument of the option parser.",
 [MB,"amtl/am-storagebuffer.h"],[("initialised flag guards construction and destruction in the aligned buffer",MB+": init, copyFrom, moveFrom, operator=")],
 [("value","absent or a value",MB)],["isValid","operator bool","get","operator*","operator->"])
FA="amtl/am-fixedarray.h"
p("C14","FixedArray has value semantics, exact lifetimes and safe failure",
 "After any sequence of constructions, copies, moves and assignments (including self-assignment), a FixedArray has exactly the length and element values last given to it, copies are independent, a moved-from array is empty, and comparison is element-wise equality. The number of live elements always equals the sum of the lengths and every block is freed once through the allocator policy that was given to the array. A construction or assignment whose memory is refused, or whose size overflows, is visible through initialize() and leaves the array safely destructible and assignable.",
 ["histories","fault_sequences"],"every history over several arrays, lengths and element types, with every choice of failing allocations",
 "There is no test of am-fixedarray.h.",
 [FA,"amtl/am-allocator-policies.h"],[("allocate/destruct/deallocate in every constructor and assignment",FA)],
 [("array","sequence of values",FA)],["size","operator[]","begin/end","back","operator==","initialize"])
AP="amtl/experimental/am-argparser.h"
p("C15","The option parser accepts and assigns exactly what its grammar says",
 "For every set of declared options, every enabled mode (inline values, slashes, extra arguments, pass-through) and every argument vector, parsing succeeds exactly when each argument is a known option used at most as often as allowed with an acceptable value, an expected positional, a collected extra or a pass-through argument, and every required positional is present or a stop option ended parsing; a request for help makes it return false. After a successful parse each option has exactly the value the arguments gave it (next argument, '=' or inline suffix, implied true, or --no- prefix), an unmentioned one its default, a repeatable one all values in order; an out-of-range or malformed number is rejected. No argument vector crashes the parser.",
 ["inputs","configurations"],"every argument vector over every combination of option kinds and parser modes",
 "test-argparser.cpp tries about thirty argument vectors, most on a parser with one option and one mode.",
 [AP],[("single left-to-right pass choosing option, separator and value source per argument",AP+": parse_impl"),("value policies validate and convert",AP+": ValuePolicy")],
 (),["parse/parsev result","option value()/hasValue()/values()","extra_args()","passthrough_args()"])
p("C16","Resetting the option parser makes the next parse independent of the past",
 "After reset(), parsing an argument vector gives the same result, option values, extra arguments, pass-through arguments and error text as on a freshly declared parser with the same options, whatever was parsed before and whether it succeeded, failed, was stopped by an option or entered pass-through mode. Every option reads its default value right after reset().",
 ["histories"],"every sequence of parses and resets on one parser",
 "Tests call reset() only between parses that use plain options; pass-through, extra arguments and errors are parsed once per parser.",
 [AP],[("reset restores every option and the parser's own state",AP+": Parser::reset, IOption::reset")],(),["parse after reset","usage after reset"])
p("C17","The usage text lists every option and loses no help text",
 "The usage text names the program, every positional argument and, for each declared option in order, its short and its long form (the latter with a value placeholder when it takes a mandatory value), followed by its complete help text word for word, wrapped so that no help column exceeds its width unless a single word does. When the last parse failed and help was not requested, the text instead shows the usage line and an error that names the offending option or argument (surplus arguments are reported as such). Additional usage lines follow the options.",
 ["inputs","configurations"],"every set of options with names and help texts of any length, and every kind of parse error",
 "No test calls usage().",
 [AP],[("two-column layout with word wrap",AP+": Parser::usage, usage_line")],(),["usage(FILE*)"])
ST="amtl/am-string.h"
p("C18","Bounded string copies never overrun, always terminate, report the length",
 "For every source, destination content and size limit, SafeStrcpy, SafeStrcat and SafeStrcpyN change nothing outside the first maxlength bytes of the destination, read nothing beyond the source's terminator or its first n bytes, leave a terminated string that is the longest prefix of the intended result that fits, and return its length. SafeStrcat never shortens the destination: one whose string already fills the limit is left as it is and its length returned. With a zero size limit nothing changes.",
 ["inputs"],"every source string, destination string, limit and count",
 "test-string.cpp tries eight combinations on a six-byte buffer; counts larger than the source, zero counts and limits 0 and 1 for copies are not tried.",
 [ST],[("copy loops bounded by the remaining room",ST+": SafeStrcpy, SafeStrcat, SafeStrcpyN")],(),["destination buffer","return value"])
p("C19","Formatted printing is complete when allocated and cut safely when bounded",
 "For every format and arguments, Sprintf and StringPrintf (and their va_list forms) produce exactly the complete formatted text of any length, including embedded zero bytes in the string form. SafeSprintf writes its longest prefix that fits together with a terminator inside maxlength bytes and returns the number of characters written; path::Format does the same with every backslash of that prefix turned into a slash on POSIX. A formatting error yields an empty string and length zero (for Sprintf, a null pointer).",
 ["inputs"],"every output length against every buffer size, and formats that fail to encode",
 "test-string.cpp formats three short strings and test-system.cpp one path, none truncated and none failing.",
 [ST,"amtl/os/am-path.h"],[("measure, allocate, print again",ST+": SprintfArgsImpl"),("clamp to the buffer",ST+": SafeVsprintf"),("separator rewrite over the written prefix","amtl/os/am-path.h: FormatVa")],(),["returned text and length","buffer"])
p("C20","Splitting and joining are inverse, and string predicates are exact",
 "For every string without zero bytes and every non-empty separator, joining the pieces of a split with the same separator gives back the string, no piece contains the separator at its leftmost non-overlapping occurrences, and the number of pieces is one more than the number of those occurrences (none for the empty string). Join places the separator only between pieces and loses no byte of any piece. StartsWith, EndsWith, StrCaseCmp (zero exactly for equality up to ASCII letter case), Uppercase and Lowercase (in the C locale) agree with their definition for every input, including empty and over-long arguments.",
 ["inputs"],"every string, separator and list of pieces",
 "test-string.cpp splits five strings with one-character separators; overlapping and multi-character separators and the inverse law are not tested.",
 [ST],[("leftmost search loop with a final piece",ST+": Split"),("two-pass size and copy",ST+": Join")],(),["returned pieces","returned string"])
AR="amtl/am-arithmetic.h";BI="amtl/am-bits.h"
p("C21","Overflow detectors never call an overflowing operation safe",
 "For every pair of operands, TryUint32Add, TryUint64Add and TryUint64Multiply return true exactly when the exact result fits, and then store it, and leave the output untouched otherwise. The IsUint32/64/Ptr AddSafe and MultiplySafe predicates return true exactly when the operation does not wrap around.",
 ["inputs"],"every pair of 32-bit and 64-bit operands",
 "test-bits.cpp tries two multiplications; the addition predicates and am-arithmetic.h have no test.",
 [AR,BI],[("wrap-around test after or before the operation",AR+"; "+BI+": IsUintAddSafe, IsUintMultiplySafe")],(),["return value","output parameter"])
p("C22","Bit utilities agree with their mathematical definition on every word",
 "For every non-zero word, Log2, FindLeftmostBit32/64 and FindRightmostBit return the index of the highest respectively lowest set bit. IsPowerOfTwo, IsAligned, Align and AlignedBase agree with their definitions for every value and power-of-two alignment where the result is representable. Tagging a pointer's low bits, reading them and clearing them are exact inverses that leave the other bits alone.",
 ["inputs"],"every 32-bit and 64-bit word and every power-of-two alignment",
 "test-bits.cpp checks seven words; Log2, Align, AlignedBase and IsAligned are not tested and no word above 32 bits is used with Log2.",
 [BI],[("compiler bit-scan builtins and mask arithmetic",BI)],(),["return values"])
RA="amtl/am-raii.h"
p("C23","Scope helpers undo exactly once and in reverse order",
 "For every nesting and every point at which scopes end, SaveAndSet restores the location to the value it had on entry, and a StackLinked chain always names the innermost live object, with the previous ones below it in order. A ScopeGuard runs its callback exactly once, when its scope ends, unless it was cancelled or moved from, in which case it runs it never, and a guard moved to inherits the obligation. ReturnAndVoid returns the old value and leaves the default value behind.",
 ["histories","programs"],"every properly nested sequence of scope entries, exits, cancellations, moves and writes",
 "test-raii.cpp covers one nesting of ScopeGuard and one cancellation; SaveAndSet, StackLinked, moves of guards and ReturnAndVoid are untested.",
 [RA],[("old value saved at construction and written back at destruction",RA+": SaveAndSet, StackLinked"),("cancel flag transferred on move",RA+": ScopeGuard")],(),["location contents","callback invocations"])
VE="amtl/am-vector.h";DQ="amtl/am-deque.h"
p("C24","Vector and deque helpers transform sequences exactly",
 "For every sequence and position, PopBack and PopFront return the end element and remove exactly it, RemoveAt, InsertAt and EmplaceAt change exactly the given position and keep the order of all other elements, EraseIf keeps exactly the elements the predicate rejects, in order, and MoveExtend appends the whole source in order and leaves it empty. No element is lost, duplicated or left moved-from in the result, for copyable and move-only element types.",
 ["histories","inputs"],"every history of helper calls over sequences of any length and content",
 "test-vector.cpp and test-deque.cpp run fixed histories; MoveExtend and EmplaceAt are never called.",
 [VE,DQ],[("thin wrappers over the standard containers",VE+"; "+DQ)],(),["container contents","returned element"])
FL="amtl/am-flags.h"
p("C25","Flags and enum operators are exact set algebra on bits",
 "For every underlying integer type and every pair of values, the operators of Flags and those defined by KE_DEFINE_ENUM_OPERATORS compute union, intersection, symmetric difference, difference and complement of the bit sets, the assignment forms store the same result and return the variable, and equality, emptiness and conversion to bool agree with the bits. KE_DEFINE_ENUM_COMPARATORS compares by value in both argument orders.",
 ["inputs","histories"],"every pair of values of every underlying width and signedness, and every sequence of compound assignments",
 "test-flags.cpp checks eight expressions over four flags of one 32-bit enum; -, ^, ~, high bits and other widths are not covered.",
 [FL,"amtl/am-enum.h"],[("bitwise operators on the underlying type",FL+"; amtl/am-enum.h")],(),["bits()","get()","comparison results"])
SL="amtl/os/am-shared-library.h"
p("C26","A shared library stays loaded exactly as long as a handle to it lives",
 "After any sequence of opening, copying, handing over and dropping handles, a library is loaded exactly while some SharedLib object for it is alive, and unloaded when the last one dies; symbol lookup on it yields the symbol's address when the library or one it depends on defines it and null otherwise. A failed Open (including one with unresolvable symbols) returns null, leaves nothing loaded, and stores the longest prefix of the linker's message that fits, terminated, within the given buffer size, or nothing when there is no buffer. FormatSystemError and FormatSystemErrorCode do the same with the system's text for every error code.",
 ["histories","fault_sequences"],"every history of opens (good, missing, malformed), copies, transfers and drops over several libraries and buffer sizes",
 "test-system.cpp opens libc once and never observes unloading or a failing open.",
 [SL,"amtl/os/am-system-errors.h"],[("handle closed in the destructor of the reference-counted object",SL+": ~SharedLib, Open")],(),["loaded state reported by the dynamic linker","lookup","error buffer"])
p("C27","File predicates and directory creation agree with the file system",
 "For every state of the file system reached by creating and removing files, directories and links, PathExists, IsFile and IsDirectory answer according to what the path resolves to at that time (following links; false for dangling ones). CreateDirectory returns true exactly when it created the directory, with the requested mode, and changes nothing otherwise (existing path, missing parent, parent not a directory).",
 ["histories","inputs"],"every history of creations, removals and links over nested paths",
 "No test includes am-fsutil.h.",
 ["amtl/os/am-fsutil.h","amtl/os/am-fsutil-posix.h"],[("stat / mkdir and their mode bits","amtl/os/am-fsutil-posix.h")],(),["return values","directory tree afterwards"])
FO="amtl/am-float.h"
p("C28","Floating-point classification and modulo follow their documented contract",
 "For every float and double, IsNaN is true exactly for NaN and IsInfinite exactly for the two infinities. FloatModulo(x, y) is NaN when either is NaN, x is infinite or y is zero; is x when y is infinite and x finite; keeps a zero x with its sign; and otherwise has the sign of x, magnitude below |y|, and differs from x by a whole multiple of y.",
 ["inputs"],"every class and representative magnitude of float and double operands",
 "No test includes am-float.h.",
 [FO],[("bit layout of the format, fmod",FO)],(),["return values"])
p("C29","Time conversions are exact",
 "For every normalised timespec (nanoseconds within one second) whose value is representable, TimespecToDuration yields exactly seconds and nanoseconds combined, including negative seconds, and TimespecToTimePoint the same instant on the given clock (truncated only to that clock's resolution). EpochValueToTimePoint yields the time point whose distance from the epoch is the given count, and FormatTime renders a broken-down time as put_time does, for any output length.",
 ["inputs"],"every representable timespec, count and format",
 "test-time.cpp converts one timespec.",
 ["amtl/am-time.h"],[("chrono duration arithmetic","amtl/am-time.h")],(),["returned durations, time points and strings"])
p("C30","A named thread runs its function once with the given arguments and name",
 "A thread created through NewThread runs the given callable exactly once, with copies of the given arguments and on a new thread, and is joinable until joined; the callable and the arguments are destroyed exactly once by the time join returns. While it runs it bears the given name when the operating system accepts that name, and otherwise it runs all the same; no other thread is renamed. If the operating system cannot create the thread the call throws, nothing runs and everything is destroyed.",
 ["inputs","schedules"],"every callable kind, argument list and name length, any interleaving of creator and threads",
 "test-threadlocal-threaded.cpp starts one thread with one int argument and does not look at the name.",
 ["amtl/am-thread.h"],[("bind the callable, set the name on the new thread, then call","amtl/am-thread.h: NewThread, SetThreadName")],(),["invocation count and arguments","thread name seen inside","join"])
p("C31","Content hashes depend on every byte and only on the content",
 "For every byte sequence, hashing it incrementally in any division into chunks gives the same value as hashing it in one call, the value depends on nothing but the bytes and their number, and two sequences of the same length that differ in exactly one byte have different hashes, for both character-sequence hash functions. Integer and pointer hashes are functions of the value alone.",
 ["inputs"],"every byte sequence, every chunking and every single-byte change",
 "The hash functions are only used indirectly with three short strings.",
 [HT],[("byte-wise mixing steps that are each invertible",HT+": CharacterStreamHasher, HashCharSequence, FastHashCharSequence")],(),["hash values"])
p("C32","Failures that cannot be reported stop the program, and nothing else does",
 "With the default allocator policy a container call or direct request that the system refuses memory for, or whose size cannot exist, never returns: the program stops by abort after saying so on the error stream. A granted request returns memory that is distinct from every block still held and keeps its contents until freed, and no call whose requests are all granted stops the program. KE_RELEASE_ASSERT evaluates its condition exactly once in every build, goes on when it is true in any form that a condition can have, and aborts when it is false, whether or not NDEBUG is defined.",
 ["fault_sequences","histories"],"every history of container calls and direct requests with every choice of the first refused request, in builds with and without assertions",
 "No test refuses memory to the default policy, and none can go on after an abort.",
 ["amtl/am-allocator-policies.h","amtl/am-assert.h",HT,"amtl/am-fixedarray.h"],[("report and abort when malloc returns null or a size overflows","amtl/am-allocator-policies.h: am_malloc, reportOutOfMemory, reportAllocationOverflow"),("abort outside of assert","amtl/am-assert.h: KE_RELEASE_ASSERT")],(),["how the process ends","error stream","contents before the end"])
p("C33","The small helpers and the headers mean the same in every program",
 "MemsetZero zeroes exactly the bytes of its object, a StorageBuffer has aligned room for one object that it neither constructs nor destroys, cast_to_pointer, ARRAY_LENGTH, IS_ALIGNED, KE_CRITICAL_LIKELY, the size constants and the version tests agree with their arguments for every value and evaluate them once. A KE_LINKONCE variable is one variable in all units of a program, exported and private names of a library are visible as declared, and the compat functions return what the functions of the mathematical library return and give way to a program's own. The platform names that are defined are those of the target, its architecture and its compiler, and compilers too old are refused. Every header builds alone, repeatedly, in any order with the others, without exceptions and RTTI, and with the documented options; what it declares can be used with no other include; and units that include it link into one program.",
 ["inputs","programs"],"every object type, value and array length, every supported target, every order of headers and both compilers",
 "test-utility.cpp calls a few of them once; the tests are built by one compiler for one target with all headers included together.",
 ["amtl/am-utility.h","amtl/am-storagebuffer.h","amtl/am-cxx.h","amtl/am-platform.h","amtl/am-linking.h","amtl/am-unused.h","amtl/am-bits.h","compat/stdcxx.cpp","amtl/am-enum.h"],[("memset of the object's size","amtl/am-utility.h: MemsetZero"),("union that gives room and alignment","amtl/am-storagebuffer.h"),("weak definitions","amtl/am-cxx.h: KE_LINKONCE; compat/stdcxx.cpp"),("target and compiler tests","amtl/am-platform.h; amtl/am-cxx.h")],(),["memory around the object","returned values","symbols of a built library","compiler and linker verdicts"])
p("C34","Broken preconditions stop builds with assertions, kept ones never do",
 "In builds with assertions, a call whose documented precondition does not hold stops the program before it can do harm: an index or back() outside a FixedArray, the value of an empty Maybe, the call of an empty Function, peek or pop of an empty PriorityQueue, appending a node that is in a list, adding or removing an entry twice and following a result that found nothing in a hash container, capacities and alignments that are no power of two, bit scans of zero, an empty separator, options with malformed names, scope links ended out of order, reference counts released below zero or revived while dying, misaligned atomic references and a mutex assertion by a thread that does not hold it. The same call returns whenever its precondition holds, in every reachable state.",
 ["histories","inputs"],"every history of calls up to and including the first that breaks its precondition",
 "A test that stops the program cannot be among the tests of one process; none of the assertions is ever provoked.",
 [HT,"amtl/am-fixedarray.h","amtl/am-maybe.h","amtl/am-function.h","amtl/am-priority-queue.h","amtl/am-inlinelist.h","amtl/am-bits.h","amtl/am-raii.h",RC,TS,"amtl/am-string.h","amtl/am-mutex.h","amtl/experimental/am-argparser.h"],[("assertions at the head of the calls","every header listed")],(),["how the process ends","return values"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],len(re.findall(r'[.!?](?=\s|$)',x['statement'])),x['title'])
