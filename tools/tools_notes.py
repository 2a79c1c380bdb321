# per property: (technique, level note; "" = DEFAULT)
DEFAULT = ("TLC decides exhaustively, within the stated constants, that the design has the property; the binding to the code is by "
           "validation of recorded traces (model-derived and randomised histories), so code paths no history reaches are not covered. "
           "Trusted: TLC, the driver's recording, g++ and its sanitizer runtime.")
SCHED = ("TLC decides the model exhaustively within its constants. The code runs under a scheduler that owns every atomic access, so the explored "
         "interleavings are sequentially consistent ones; weaker orders are judged by happens-before over the recorded memory orders (HB.tla). "
         "Trusted: TLC, the instrumented std::atomic/pthread stand-ins, g++.")
PURE = ("The specification is evaluated by TLC on every input of the stated sets (all small inputs plus boundary and random ones); wider inputs are sampled. "
        "Trusted: TLC's evaluator, the driver's recording, g++/clang++ and the sanitizer runtime.")
T = "TLA+ / TLC: "
NOTES = {
 "C01": ("TLA+ (HashDict abstract, HashProbe open-addressing design refining it) with TLC; one replayed history per transition of the design plus randomised histories, traces validated by TLC", ""),
 "C02": ("TLA+ (HashDict/HashProbe) with TLC; iteration and erase-while-iterating histories from the design's state graph, traces validated by TLC", ""),
 "C03": ("TLA+ (HashDict/HashProbe with refusable allocations) with TLC; injected allocation failures replayed, traces validated by TLC", ""),
 "C04": ("TLA+ (HashDict ownership counts) with TLC; live-object and block counts recorded at every step and validated by TLC", ""),
 "C05": (T + "RefCount (handles, links between objects, counts) model-checked; every transition replayed into RefPtr/AutoPtr/Refcounted families, handle values, live objects and counts validated step by step", ""),
 "C06": (T + "TsCount over HB (vector clocks): model schedules, bounded-preemption and random schedules replayed under a controlled scheduler, traces validated against the spec", SCHED),
 "C07": (T + "AtomicRegister over HB: spin-bit AtomicRef modelled, schedules replayed under a controlled scheduler, linearisability and liveness of objects decided on recorded traces", SCHED),
 "C08": (T + "TlsCell (slot creation race, refusals, per-thread cells): schedules replayed under a controlled scheduler with a pthread-key stand-in, traces validated", SCHED),
 "C09": (T + "MutexOwn (holder, owner record, assertions): schedules replayed under a controlled scheduler, traces validated", SCHED),
 "C10": (T + "ListSeq (sequences of nodes, membership): each transition of the state graph replayed into InlineList in both build modes, traces validated", ""),
 "C11": (T + "PrioBag (multiset with a priority order): each transition replayed, plus long randomised histories, traces validated", ""),
 "C12": (T + "FunVal (slots, callables, ownership, nesting): each transition replayed for inline, heap, throwing and self-referring callables, traces validated", ""),
 "C13": (T + "MaybeVal (optional values and object lifetimes): each transition replayed for eleven element types, traces validated", ""),
 "C14": (T + "ArrVal (arrays with allocator policies that may refuse): each transition replayed, failures injected, traces validated", ""),
 "C15": (T + "ArgGrammar decides acceptance and every assigned value of a command line; all lines up to a bound over a token alphabet plus random parsers and lines, traces validated", ""),
 "C16": (T + "ArgGrammar with reset as a transition back to the initial state; histories parse/reset/parse validated", ""),
 "C17": (T + "ArgUsage (words of the help text, listing of every option); generated parsers, printed usage captured and validated", ""),
 "C18": (T + "StrOps bounded-copy operators evaluated on every small buffer/source/limit, guard pages and ASan behind every buffer, traces validated", PURE),
 "C19": (T + "FmtMC/StrOps bounded-print operators; every size around the full length, failing formats, argument reuse, traces validated", PURE),
 "C20": (T + "SplitMC split/join/predicate operators evaluated on every small string; traces validated", PURE),
 "C21": (T + "Words (multi-limb integer arithmetic) decides overflow for every pair of a boundary set and random words; g++ and clang++ builds", PURE),
 "C22": (T + "Words (bits of multi-limb words) decides each utility for every word of a boundary set and random words; g++ and clang++ builds", PURE),
 "C23": (T + "RaiiVal (cells, saved frames, guard chains): each transition replayed into the scope helpers, traces validated", ""),
 "C24": (T + "SeqHelp (sequence operators, moved-from and throwing elements): each transition replayed on vectors and deques, traces validated", ""),
 "C25": (T + "FlagSets (set algebra on bits): each transition replayed for flags over six underlying types, traces validated", ""),
 "C26": (T + "LibLife (handles per library): each transition replayed with real shared objects that record their constructors and destructors, traces validated", ""),
 "C27": (T + "FsTree (a small tree of directories, files, links): each transition replayed in a scratch directory, tree and predicates recorded and validated", ""),
 "C28": (T + "FloatFmt (IEEE fields as limbs, modulo by exact integer arithmetic); all boundary encodings and random ones, traces validated", PURE),
 "C29": (T + "TimeArith/TimeFormat (exact limb arithmetic, calendar); boundary and random values, traces validated", PURE),
 "C30": (T + "ThrLife (one run per thread, argument and name values, object lifetimes, refused creation): each transition replayed with real threads, traces validated", ""),
 "C31": (T + "HashFun (results as functions of content): repeated queries over equal and one-byte-different contents, placements, alignments; functionality and sensitivity decided on traces", PURE),
 "C32": (T + "FailStop (calls in progress, refusals, stops; FailMC refines it to the steps of a table and an array) model-checked with liveness; each transition replayed in a child process with an interposed malloc, how it ended validated", ""),
 "C33": (T + "Helpers (memory byte by byte, storage buffers, shared variables, functions of the arguments, tables of targets): each transition replayed, memory recorded after each call; programs built by g++ and clang++ as further traces", ""),
 "C34": (T + "Contracts (state of one object of each kind, the precondition of each call on it): every transition up to the first broken precondition replayed in a child process with assertions on, how it ended validated", ""),
}
NA = {}
