-------------------------------- MODULE Helpers --------------------------------
(* C33: the small helpers.  mem is a piece of memory, byte by byte; slots are
   the storage buffers placed in it; held is an object that has a storage
   buffer of a class with a life; once are the variables two units share.
   What has no state is a function of its arguments.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* bytes of memory
          Slots
VARIABLES mem, slots, held, once
hvars == <<mem, slots, held, once>>
NoSlot == [off |-> -1, sbsize |-> 0, addr |-> -1, size |-> 0]
NoHold == [is |-> FALSE, v |-> -1, live |-> 0, made |-> 0]
HInit(m) == /\ mem = m /\ slots = [s \in Slots |-> NoSlot]
            /\ held = NoHold
            /\ once = <<7, 1, 2, 3>>
Same == UNCHANGED hvars
\* the bytes of [off, off + size)
In(i, off, size) == i > off /\ i <= off + size
Cut(off, size) == {i \in 1..N : In(i, off, size)}
Fill(m) == mem' = m /\ UNCHANGED <<slots, held, once>>
\* exactly the object becomes zero
Zero(off, size) == /\ mem' = [i \in 1..N |-> IF In(i, off, size) THEN 0 ELSE mem[i]]
                   /\ UNCHANGED <<slots, held, once>>
\* a buffer of sbsize bytes at off: room for an object of size bytes that starts
\* at addr, aligned as that object needs; nothing outside the buffer changes
Room(off, sbsize, addr, size, align) == addr >= off /\ addr + size <= off + sbsize /\ sbsize % align = 0
Place(s, off, sbsize, addr, size, m) ==
    /\ slots[s] = NoSlot
    /\ m = [i \in 1..N |-> IF In(i, off, sbsize) THEN m[i] ELSE mem[i]]
    /\ mem' = m /\ slots' = [slots EXCEPT ![s] = [off |-> off, sbsize |-> sbsize, addr |-> addr, size |-> size]]
    /\ UNCHANGED <<held, once>>
Put(s, v) == /\ slots[s] # NoSlot
             /\ mem' = [i \in 1..N |-> IF In(i, slots[s].addr, slots[s].size) THEN v ELSE mem[i]]
             /\ UNCHANGED <<slots, held, once>>
Got(s) == SubSeq(mem, slots[s].addr + 1, slots[s].addr + slots[s].size)
\* the end of a buffer is the end of nothing in it
Unplace(s) == slots[s] # NoSlot /\ slots' = [slots EXCEPT ![s] = NoSlot] /\ UNCHANGED <<mem, held, once>>
\* neither the birth nor the death of a buffer is that of what it has room for
Hold == ~held.is /\ held' = [held EXCEPT !.is = TRUE, !.v = -1] /\ UNCHANGED <<mem, slots, once>>
Make(v) == /\ held.is /\ held.v = -1 /\ held' = [held EXCEPT !.v = v, !.live = @ + 1, !.made = @ + 1]
           /\ UNCHANGED <<mem, slots, once>>
See == held.is /\ held.v # -1 /\ Same
Kill == held.is /\ held.v # -1 /\ held' = [held EXCEPT !.v = -1, !.live = @ - 1] /\ UNCHANGED <<mem, slots, once>>
Drop == held.is /\ held' = [held EXCEPT !.is = FALSE, !.v = -1] /\ UNCHANGED <<mem, slots, once>>
\* both units see one variable
Once(w, v) == once' = (IF v >= 0 THEN [once EXCEPT ![w + 1] = v] ELSE once) /\ UNCHANGED <<mem, slots, held>>

\* ---- functions ----
Set(s) == {s[i] : i \in DOMAIN s}
SizeOf(ty) == CASE ty \in {"char", "enum", "empty"} -> 1 [] ty = "short" -> 2 [] ty = "s3" -> 3
                [] ty \in {"int", "bits"} -> 4 [] ty = "packed" -> 5 [] ty \in {"long", "double", "ptr", "pad", "uni"} -> 8
                [] ty = "s12" -> 12 [] ty = "s16" -> 16 [] ty = "arr" -> 28 [] ty = "cube" -> 30
                [] ty = "wide" -> 64 [] ty = "s100" -> 100
AlignOf(ty) == CASE ty \in {"char", "enum", "empty", "s3", "s100", "packed"} -> 1 [] ty = "short" -> 2
                 [] ty \in {"int", "bits", "uni", "s12", "pad"} -> 4 [] ty = "wide" -> 32 [] OTHER -> 8
\* a pointer is as wide as 64 bits; a signed number keeps its sign
Widened(bits, w, signed) == bits \cup IF signed /\ (w - 1) \in bits THEN w..63 ELSE {}
AtLeast(maj, min, x, y) == maj > x \/ (maj = x /\ min >= y)
OldestOf(who) == CASE who = "gcc" -> <<4, 9>> [] who = "clang" -> <<3, 4>> [] who = "msvc" -> <<1900, 0>>
Supported(who, maj, min) == who # "other" /\ AtLeast(maj, min, OldestOf(who)[1], OldestOf(who)[2])
\* doubles as four limbs of 16 bits, least significant first
Mag(x) == [x EXCEPT ![4] = @ % 32768]
Neg(x) == x[4] >= 32768
ZeroD(x) == Mag(x) = <<0, 0, 0, 0>>
Inf(x) == Mag(x) = <<0, 0, 0, 32752>>
NaN(x) == Mag(x)[4] >= 32752 /\ ~Inf(x)
One == <<0, 0, 0, 16368>>
\* facts of the mathematical functions that hold in both precisions
Facts(f, x, y, z) ==
    /\ f \in {"pow", "powf"} => /\ ZeroD(y) \/ x = One => z = One
                                /\ y = One => z = x \/ NaN(x)
                                /\ (ZeroD(x) /\ ~Neg(y) /\ ~NaN(y) /\ ~ZeroD(y)) => ZeroD(z)
    /\ f \in {"log", "logf"} => /\ ZeroD(x) => Inf(z) /\ Neg(z)
                                /\ x = One => ZeroD(z) /\ ~Neg(z)
                                /\ (Neg(x) /\ ~ZeroD(x)) \/ NaN(x) => NaN(z)
    /\ f \in {"acos", "acosf"} => /\ x = One => ZeroD(z) /\ ~Neg(z)
                                  /\ NaN(x) \/ Mag(x)[4] > 16368 => NaN(z)
    /\ f \in {"asin", "asinf"} => /\ ZeroD(x) => z = x
                                  /\ NaN(x) \/ Mag(x)[4] > 16368 => NaN(z)
                                  /\ ~NaN(z) => Neg(z) = Neg(x)
    /\ f \in {"atan2", "atan2f"} => /\ NaN(x) \/ NaN(y) => NaN(z)
                                    /\ ~NaN(z) => Neg(z) = Neg(x)
                                    /\ (ZeroD(x) /\ ~Neg(y) /\ ~NaN(y)) => z = x

\* ---- platforms ----
Base(t) == CASE t \in {"x86_64-unknown-freebsd", "i386-unknown-freebsd", "aarch64-unknown-freebsd"} -> {"KE_FREEBSD", "KE_BSD", "KE_POSIX"}
             [] t \in {"x86_64-unknown-netbsd", "aarch64-unknown-netbsd"} -> {"KE_NETBSD", "KE_BSD", "KE_POSIX"}
             [] t \in {"x86_64-unknown-openbsd", "i386-unknown-openbsd"} -> {"KE_OPENBSD", "KE_BSD", "KE_POSIX"}
             [] t \in {"x86_64-apple-macosx", "arm64-apple-macosx", "i386-apple-macosx"} -> {"KE_MACOSX", "KE_MACH", "KE_BSD", "KE_POSIX"}
             [] t \in {"x86_64-pc-windows-msvc", "i686-pc-windows-msvc", "aarch64-pc-windows-msvc", "x86_64-w64-mingw32", "i686-w64-mingw32",
                       "D:_WIN32,_MSC_VER=1930,_M_X64", "D:_WIN32,_MSC_VER=1930,_M_IX86", "D:_WIN32,_MSC_VER=1930,_M_ARM64", "D:_WIN32,_MSC_VER=1930,_M_ARM"} -> {"KE_WINDOWS"}
             [] t \in {"wasm32-unknown-emscripten"} -> {"KE_EMSCRIPTEN", "KE_POSIX"}
             [] t \in {"x86_64-pc-solaris", "i386-pc-solaris"} -> {"KE_SOLARIS", "KE_POSIX"}
             [] t = "D:__MACH__,__GNUC__=9,__x86_64__" -> {"KE_MACH", "KE_BSD", "KE_POSIX"}
             [] t = "D:__GNUC__=9,__aarch64__" -> {}
             [] OTHER -> {"KE_LINUX", "KE_POSIX"}
Arch(t) == CASE t \in {"gcc", "x86_64-linux-gnu", "x86_64-linux-gnux32", "x86_64-unknown-freebsd", "x86_64-unknown-netbsd", "x86_64-unknown-openbsd", "x86_64-apple-macosx",
                       "x86_64-pc-windows-msvc", "x86_64-w64-mingw32", "x86_64-pc-solaris", "D:_WIN32,_MSC_VER=1930,_M_X64",
                       "D:__MACH__,__GNUC__=9,__x86_64__"} -> "KE_ARCH_X64"
             [] t \in {"i386-linux-gnu", "i386-unknown-freebsd", "i386-unknown-openbsd", "i386-apple-macosx", "i686-pc-windows-msvc",
                       "i686-w64-mingw32", "i386-pc-solaris", "D:_WIN32,_MSC_VER=1930,_M_IX86"} -> "KE_ARCH_X86"
             [] t \in {"aarch64-linux-gnu", "aarch64-linux-android", "aarch64-unknown-freebsd", "aarch64-unknown-netbsd", "arm64-apple-macosx", "aarch64-pc-windows-msvc",
                       "D:_WIN32,_MSC_VER=1930,_M_ARM64", "D:__GNUC__=9,__aarch64__"} -> "KE_ARCH_ARM64"
             [] t \in {"armv7-linux-gnueabihf", "arm-linux-gnueabi", "D:_WIN32,_MSC_VER=1930,_M_ARM"} -> "KE_ARCH_ARM"
             [] OTHER -> "KE_ARCH_UNKNOWN"
Compiler(pre) == IF "__clang__" \in pre THEN {"KE_CXX_CLANG", "KE_CXX_LIKE_GCC"}
                 ELSE IF "__GNUC__" \in pre THEN {"KE_CXX_GCC", "KE_CXX_LIKE_GCC"}
                 ELSE IF "_MSC_VER" \in pre THEN {"KE_CXX_MSVC"} ELSE {}
=============================================================================
