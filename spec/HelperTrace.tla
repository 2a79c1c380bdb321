----------------------------- MODULE HelperTrace -----------------------------
EXTENDS TraceBase, Helpers
Memory(e) == Len(e.mem) = N /\ mem' = e.mem
HoldObs(e) == e.live = held'.live /\ e.made = held'.made /\ e.faults = 0 /\ e.after
Step(e) ==
    CASE e.op = "fill" -> Fill([i \in 1..N |-> (e.a * (i - 1) + e.b) % 256]) /\ Memory(e)
      [] e.op = "zero" -> e.size = SizeOf(e.ty) /\ Zero(e.off, e.size) /\ Memory(e)
      [] e.op = "big" -> Same /\ e.left = 0 /\ e.out = 0
      [] e.op = "place" -> /\ e.size = SizeOf(e.ty) /\ e.align = AlignOf(e.ty)
                           /\ Room(e.off, e.sbsize, e.addr, e.size, e.align) /\ e.caddr = e.addr /\ e.mod = 0
                           /\ e.sbalign >= e.align
                           /\ Place(e.slot, e.off, e.sbsize, e.addr, e.size, e.mem) /\ Len(e.mem) = N
      [] e.op = "put" -> Put(e.slot, e.v) /\ Memory(e)
      [] e.op = "get" -> Same /\ e.got = Got(e.slot) /\ Memory(e)
      [] e.op = "unplace" -> Unplace(e.slot) /\ Memory(e)
      [] e.op = "hold" -> Hold /\ HoldObs(e)
      [] e.op = "make" -> Make(e.v) /\ HoldObs(e)
      [] e.op = "see" -> See /\ e.v = held.v /\ HoldObs(e)
      [] e.op = "kill" -> Kill /\ HoldObs(e)
      [] e.op = "drop" -> Drop /\ HoldObs(e)
      [] e.op = "once" -> Once(e.which, e.set) /\ e.v = once'[e.which + 1]
      [] e.op = "likely" -> Same /\ e.res = (e.bits # <<>>) /\ e.n = 1
      [] e.op = "cast" -> Same /\ e.same /\ Set(e.res) = Widened(Set(e.bits), e.w, e.signed)
      [] e.op = "len" -> Same /\ e.out[1] = e.n /\ e.out[2] = e.n /\ e.out[3] = e.n /\ e.out[4] = (100000 \div e.n) * e.n
      [] e.op = "aligned" -> /\ Same
                             /\ LET a == \A b \in Set(e.bits) : b >= e.k
                                IN e.r1 = a /\ e.r2 = a /\ e.r3 = a /\ e.r4 = ~a
      [] e.op = "const" -> /\ Same
                           /\ CASE e.k = "kb" -> e.bits = <<10>> [] e.k = "mb" -> e.bits = <<20>> [] e.k = "gb" -> e.bits = <<30>>
                                [] OTHER -> Len(e.bits) = 1 /\ e.bits[1] >= 4
      [] e.op = "malloc" -> Same /\ e.off = 0
      [] e.op = "unused" -> Same /\ e.n = 3
      [] e.op = "atleast" -> Same /\ e.r = AtLeast(e.major, e.minor, e.x, e.y) /\ e.no = ~e.r
      [] e.op = "fin" -> /\ Same /\ \/ e.z = e.want
                                    \/ NaN(e.z) /\ NaN(e.want)
                         /\ Facts(e.f, e.x, e.y, e.z)
      [] e.op = "platform" -> Same /\ e.ok /\ Set(e.defs) = Base(e.target) \cup {Arch(e.target)} \cup Compiler(Set(e.pre))
      [] e.op = "support" -> Same /\ e.ok = Supported(e.who, e.major, e.minor)
      [] e.op \in {"header", "use", "link"} -> Same /\ e.ok
      [] e.op = "dso" -> /\ Same /\ e.ok
                         /\ Set(e.seen) = {"shown", "through", "number"} \cup IF e.vis = "default" THEN {"plain"} ELSE {}
      [] e.op = "strong" -> Same /\ e.ok
      [] OTHER -> FALSE
TInit == TraceStart /\ HInit([i \in 1..N |-> 90])
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, hvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, hvars>>
=============================================================================
