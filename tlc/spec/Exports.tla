------------------------------- MODULE Exports -------------------------------
(* What the library exports on a target.

   A configuration is a record: arch, os, env, vendor (strings), fam (set of target families), feats (set of
   target features), parts (the words of the target's name, in order), name (the target's name), pw (bits of a pointer), f16, f128 (whether the
   compiler supports the type there), crate (set of features of the crate).

   A symbol is <<name, calling convention, types of the arguments, type of the result>>.  Types are what the
   calling convention sees: f16 f32 f64 f128, w8 w16 w32 w64 w128 (integers), ptr, void, never.              *)
EXTENDS Integers, Sequences, FiniteSets

C(n, a, r) == <<n, "C", a, r>>

UNIONOF(S, F(_)) == UNION {F(x) : x \in S}

Word(k) == CASE k = 8 -> "w8" [] k = 16 -> "w16" [] k = 32 -> "w32" [] k = 64 -> "w64" [] OTHER -> "w128"

(* C's int: 16 bits on the two 16-bit architectures. *)
CInt(c) == IF c.arch \in {"avr", "msp430"} THEN "w16" ELSE "w32"
Size(c) == Word(c.pw)

Windows(c) == "windows" \in c.fam
Unix(c) == "unix" \in c.fam
Wasm(c) == "wasm" \in c.fam
Apple(c) == c.vendor = "apple"
Arm(c) == c.arch = "arm"
Uefi64(c) == c.os = "uefi" /\ c.arch = "x86_64"
X86(c) == c.arch \in {"x86", "x86_64"}

--------------------------------------------------------------------------------
(* Integers.  Modes of the GCC names: si 32, di 64, ti 128 bits. *)
IModes == {"si", "di", "ti"}
IBits(m) == CASE m = "si" -> "w32" [] m = "di" -> "w64" [] m = "ti" -> "w128"

Division(c) == UNIONOF(IModes, LAMBDA m :
    LET w == IBits(m) b(op) == C("__" \o op \o m \o "3", <<w, w>>, w)
        d(op) == IF c.arch = "avr" /\ m = "si"      \* both results in registers
                 THEN C("__" \o op \o m \o "4", <<w, w>>, "w64")
                 ELSE C("__" \o op \o m \o "4", <<w, w, "ptr">>, w)
    IN {b("div"), b("mod"), b("udiv"), b("umod"), d("divmod"), d("udivmod")})

(* The amount of a shift is an int; so it is 32 bits wide everywhere but on the 16-bit architectures, where the
   64-bit shifts take C's int and the others 32 bits. *)
Shifts(c) == UNIONOF(IModes, LAMBDA m :
    {C("__" \o op \o m \o "3", <<IBits(m), IF m = "di" THEN CInt(c) ELSE "w32">>, IBits(m)) : op \in {"ashl", "ashr", "lshr"}})

Multiplication(c) ==
    {C("__muldi3", <<"w64", "w64">>, "w64"), C("__multi3", <<"w128", "w128">>, "w128")}
    \cup {C("__mulo" \o m \o "4", (IF Uefi64(c) /\ m = "ti" THEN <<"w64", "w64", "w64", "w64">> ELSE <<IBits(m), IBits(m)>>) \o <<"ptr">>, IBits(m)) : m \in IModes}
    \cup (IF c.arch \in {"riscv32", "riscv64", "m68k"} THEN {C("__mulsi3", <<"w32", "w32">>, "w32")} ELSE {})

Counting(c) == UNIONOF(IModes, LAMBDA m :
    {C("__bswap" \o m \o "2", <<IBits(m)>>, IBits(m)), C("__clz" \o m \o "2", <<IBits(m)>>, Size(c)), C("__ctz" \o m \o "2", <<IBits(m)>>, Size(c))})

Rust128 == UNIONOF({"i", "u"}, LAMBDA s :
    {C("__rust_" \o s \o "128_" \o op, <<"w128", "w128">>, "w128") : op \in {"add", "sub"}}
    \cup {C("__rust_" \o s \o "128_" \o op, <<"w128", "w128", "ptr">>, "w128") : op \in {"addo", "subo", "mulo"}})

Integer(c) == Division(c) \cup Shifts(c) \cup Multiplication(c) \cup Counting(c) \cup Rust128

--------------------------------------------------------------------------------
(* Floating point.  Modes hf sf df tf; tf is called kf on PowerPC, where tf is another format. *)
FTypes(c) == {"f32", "f64"} \cup (IF c.f16 THEN {"f16"} ELSE {}) \cup (IF c.f128 THEN {"f128"} ELSE {})
Mode(c, t) == CASE t = "f16" -> "hf" [] t = "f32" -> "sf" [] t = "f64" -> "df"
                [] t = "f128" -> IF c.arch \in {"powerpc", "powerpc64"} THEN "kf" ELSE "tf"
FSize(t) == CASE t = "f16" -> 16 [] t = "f32" -> 32 [] t = "f64" -> 64 [] t = "f128" -> 128

Arithmetic(c) == UNIONOF(FTypes(c), LAMBDA t :
    {C("__" \o op \o Mode(c, t) \o "3", <<t, t>>, t) : op \in {"add", "sub", "mul"} \cup (IF t = "f16" THEN {} ELSE {"div"})})

(* The result of a comparison: a word, except that it is an int on AArch64 and in WebAssembly and a byte on AVR. *)
Compared(c) == CASE c.arch \in {"aarch64", "arm64ec"} \/ Wasm(c) -> "w32" [] c.arch = "avr" -> "w8" [] OTHER -> Size(c)
Relations == {"eq", "ge", "gt", "le", "lt", "ne", "unord"}
Comparison(c) == UNIONOF(FTypes(c), LAMBDA t :
    {C("__" \o r \o Mode(c, t) \o "2", <<t, t>>, Compared(c)) : r \in Relations})

(* On Apple's x86 a half is passed as an integer, unless the other type is a quad. *)
Half(c, t, u) == IF t = "f16" /\ u # "f128" /\ Apple(c) /\ X86(c) THEN "w16" ELSE t

Resizing(c) ==
    LET pairs == {<<t, u>> \in FTypes(c) \X FTypes(c) : FSize(t) < FSize(u)}
    IN {C("__extend" \o Mode(c, p[1]) \o Mode(c, p[2]) \o "2", <<Half(c, p[1], p[2])>>, p[2]) : p \in pairs}
       \cup {C("__trunc" \o Mode(c, p[2]) \o Mode(c, p[1]) \o "2", <<p[2]>>, Half(c, p[1], p[2])) : p \in pairs}
       \cup (IF c.f16 THEN {C("__gnu_h2f_ieee", <<Half(c, "f16", "f32")>>, "f32"), C("__gnu_f2h_ieee", <<"f32">>, Half(c, "f16", "f32"))} ELSE {})

Conversion(c) == UNIONOF((FTypes(c) \ {"f16"}) \X IModes, LAMBDA p :
    LET t == p[1] m == p[2] f == Mode(c, t)
        from == IF Uefi64(c) /\ m = "ti" /\ t \in {"f32", "f64"} THEN <<"w64", "w64">> ELSE <<IBits(m)>>
    IN {C("__float" \o m \o f, from, t), C("__floatun" \o m \o f, from, t), C("__fix" \o f \o m, <<t>>, IBits(m)), C("__fixuns" \o f \o m, <<t>>, IBits(m))})

Powers(c) == {C("__powi" \o Mode(c, t) \o "2", <<t, "w32">>, t) : t \in FTypes(c) \ {"f16"}}

Float(c) == Arithmetic(c) \cup Comparison(c) \cup Resizing(c) \cup Conversion(c) \cup Powers(c)

--------------------------------------------------------------------------------
(* Functions of the C library's <math.h>. *)
Suffix(t) == CASE t = "f16" -> "f16" [] t = "f32" -> "f" [] t = "f64" -> "" [] t = "f128" -> "f128"
Call(f, n, t) == C(f \o Suffix(t), [i \in 1..n |-> t], t)

(* Those every system should have, with the number of arguments. *)
Unary == {"ceil", "fabs", "floor", "rint", "round", "sqrt", "trunc"}
Binary == {"copysign", "fdim", "fmax", "fmin", "fmod"}
(* Those of IEEE 754-2019, which system libraries do not have yet. *)
Newer(t) == {Call("roundeven", 1, t)} \cup {Call(f, 2, t) : f \in {"fmaximum", "fmaximum_num", "fminimum", "fminimum_num"}}
Basic(t) == {Call(f, 1, t) : f \in Unary} \cup {Call(f, 2, t) : f \in Binary}

(* Where weak symbols are unreliable, names the system's library has are not defined. *)
Clashes(c) == Windows(c) \/ Apple(c)

Everywhere(c) == UNIONOF(FTypes(c), LAMBDA t :
    Newer(t) \cup (IF t \in {"f32", "f64"} /\ Clashes(c) THEN {} ELSE Basic(t))
    \cup (IF t = "f16" \/ (t # "f128" /\ Clashes(c)) THEN {} ELSE {Call("fma", 3, t)})
    \cup (IF t \in {"f16", "f128"} \/ Clashes(c) THEN {} ELSE {Call("cbrt", 1, t)}))

(* The rest is for targets without a system library: not Unix, not WebAssembly with a known system, and not 32-bit x86
   whose arguments would be in x87 registers.  Of these Windows lacks lgamma_r only. *)
Lacking(c) == ~(\/ c.arch = "x86" /\ "sse2" \notin c.feats /\ c.os # "uefi"
                \/ Unix(c)
                \/ Wasm(c) /\ c.os # "unknown")
Elementary == {"acos", "acosh", "asin", "asinh", "atan", "cos", "cosh", "erf", "erfc", "exp", "exp2", "expm1", "log", "log10", "log1p", "log2",
               "sin", "sinh", "tan", "tanh", "tgamma"}
Elsewhere(c) == IF ~Lacking(c) THEN {} ELSE
    {C("lgamma_r", <<"f64", "ptr">>, "f64"), C("lgammaf_r", <<"f32", "ptr">>, "f32")}
    \cup (IF Windows(c) THEN {} ELSE UNIONOF({"f32", "f64"}, LAMBDA t :
        {Call(f, 1, t) : f \in Elementary} \cup {Call(f, 2, t) : f \in {"atan2", "hypot", "pow"}}
        \cup {C("ldexp" \o Suffix(t), <<t, "w32">>, t)}))

Math(c) == Everywhere(c) \cup Elsewhere(c)

--------------------------------------------------------------------------------
(* Memory: with the feature mem, and always on targets that have no C library. *)
Has(c, w) == \E i \in DOMAIN c.parts : c.parts[i] = w
Bare(c) == \/ \E i \in 2..Len(c.parts) : c.parts[i] = "none"
           \/ c.os \in {"uefi", "xous"} \/ c.arch = "nvptx64"
           \/ Wasm(c) /\ c.os # "wasi"
           \/ c.env = "sgx" /\ c.vendor = "fortanix"
Memory(c) == IF "mem" \notin c.crate /\ ~Bare(c) THEN {} ELSE
    {C("memcpy", <<"ptr", "ptr", Size(c)>>, "ptr"), C("memmove", <<"ptr", "ptr", Size(c)>>, "ptr"), C("memset", <<"ptr", CInt(c), Size(c)>>, "ptr"),
     C("memcmp", <<"ptr", "ptr", Size(c)>>, CInt(c)), C("bcmp", <<"ptr", "ptr", Size(c)>>, CInt(c)), C("strlen", <<"ptr">>, Size(c))}

--------------------------------------------------------------------------------
(* The run-time ABI of ARM, sections 5.1 and 5.3: base-standard calling convention whatever the variant. *)
A(n, a, r) == <<"__aeabi_" \o n, "aapcs", a, r>>
Naked(n) == <<n, "custom", <<>>, "void">>
Msvc(c) == c.env = "msvc"
Letter(t) == IF t = "f32" THEN "f" ELSE "d"
ArmAbi(c) == IF ~Arm(c) THEN {} ELSE
    UNIONOF({"f32", "f64"}, LAMBDA t : LET l == Letter(t) IN
        {A(l \o op, <<t, t>>, t) : op \in {"add", "sub", "mul", "div"}}
        \cup {A(l \o "cmp" \o r, <<t, t>>, "w32") : r \in {"eq", "ge", "gt", "le", "lt", "un"}}
        \cup {A(l \o "2iz", <<t>>, "w32"), A(l \o "2uiz", <<t>>, "w32"), A(l \o "2lz", <<t>>, "w64"), A(l \o "2ulz", <<t>>, "w64"),
              A("i2" \o l, <<"w32">>, t), A("ui2" \o l, <<"w32">>, t), A("l2" \o l, <<"w64">>, t), A("ul2" \o l, <<"w64">>, t)}
        \cup (IF c.f16 THEN {A(l \o "2h", <<t>>, "f16")} ELSE {})
        \cup {C("__div" \o Mode(c, t) \o "3vfp", <<t, t>>, t)})
    \cup {A("f2d", <<"f32">>, "f64"), A("d2f", <<"f64">>, "f32")}
    \cup (IF c.f16 THEN {A("h2f", <<"f16">>, "f32")} ELSE {})
    \cup {A("idiv", <<"w32", "w32">>, "w32"), A("uidiv", <<"w32", "w32">>, "w32"), A("lmul", <<"w64", "w64">>, "w64")}
    \cup {A(n, <<"w64", "w32">>, "w64") : n \in {"llsl", "llsr", "lasr"}}
    \cup {Naked("__aeabi_idivmod"), Naked("__aeabi_ldivmod"), Naked("__aeabi_uldivmod")}
    \cup (IF Msvc(c) THEN {} ELSE {Naked("__aeabi_uidivmod")})
    \cup (IF Apple(c) THEN {} ELSE
            {A("memcpy" \o k, <<"ptr", "ptr", "w32">>, "void") : k \in {"", "4", "8"}}
            \cup {A("memmove" \o k, <<"ptr", "ptr", "w32">>, "void") : k \in IF Msvc(c) THEN {""} ELSE {"", "4", "8"}}
            \cup {A("memset" \o k, <<"ptr", "w32", "w32">>, "void") : k \in {"", "4", "8"}}
            \cup {A("memclr" \o k, <<"ptr", "w32">>, "void") : k \in IF Msvc(c) THEN {""} ELSE {"", "4", "8"}})

--------------------------------------------------------------------------------
(* Atomics.  On ARM the legacy __sync routines exist where the compiler cannot inline them: below ARMv6 on Linux and
   Android, which have kernel helpers, and in Thumb mode of ARMv6K, whose instructions exist in ARM mode only. *)
Helpers(c) == Arm(c) /\ c.os \in {"linux", "android"} /\ (c.parts[1] \in {"armv4t", "armv5te"} \/ c.name = "arm-linux-androideabi")
Interworking(c) == Arm(c) /\ {"thumb-mode", "v6k"} \subseteq c.feats /\ "v6t2" \notin c.feats
Bytes == {1, 2, 4}
Digit(k) == CASE k = 1 -> "1" [] k = 2 -> "2" [] k = 4 -> "4" [] k = 8 -> "8" [] k = 16 -> "16"
Sync(c) == IF ~Helpers(c) /\ ~Interworking(c) THEN {} ELSE
    UNIONOF(Bytes, LAMBDA k : LET w == Word(8 * k) IN
        {C("__sync_fetch_and_" \o op \o "_" \o Digit(k), <<"ptr", w>>, w) : op \in {"add", "sub", "and", "or", "xor", "nand", "max", "min", "umax", "umin"}}
        \cup {C("__sync_" \o op \o "_and_fetch_" \o Digit(k), <<"ptr", w>>, w) : op \in {"add", "sub", "and", "or", "xor", "nand"}}
        \cup {C("__sync_lock_test_and_set_" \o Digit(k), <<"ptr", w>>, w), C("__sync_val_compare_and_swap_" \o Digit(k), <<"ptr", w, w>>, w)})
    \cup {C("__sync_synchronize", <<>>, "void")}

(* AArch64 outlines atomics when the target asks for it. *)
Orders == {"relax", "acq", "rel", "acq_rel"}
Outline(c) == IF c.arch # "aarch64" \/ ("outline-atomics" \notin c.feats /\ "unstable-public-internals" \notin c.crate) THEN {} ELSE
    UNIONOF(Orders, LAMBDA o :
        {C("__aarch64_cas" \o Digit(k) \o "_" \o o, <<Word(8 * k), Word(8 * k), "ptr">>, Word(8 * k)) : k \in {1, 2, 4, 8, 16}}
        \cup UNIONOF({1, 2, 4, 8}, LAMBDA k :
            {C("__aarch64_" \o op \o Digit(k) \o "_" \o o, <<Word(8 * k), "ptr">>, Word(8 * k)) : op \in {"ldadd", "ldclr", "ldeor", "ldset", "swp"}}))
    \cup {C("__rust_enable_lse", <<>>, "void")}

--------------------------------------------------------------------------------
(* The stack: names the compiler calls to touch pages of large frames. *)
GnuWindows(c) == Windows(c) /\ c.env = "gnu"
Stack(c) ==
    (IF c.arch \in {"aarch64", "arm64ec"} /\ (GnuWindows(c) \/ c.os = "uefi") THEN {Naked("__chkstk")} ELSE {})
    \cup (IF c.arch = "x86" /\ (GnuWindows(c) \/ c.os = "uefi") THEN {Naked("__chkstk"), Naked("_alloca")} ELSE {})
    \cup (IF c.arch = "x86_64" /\ (GnuWindows(c) \/ c.os \in {"cygwin", "uefi"}) THEN {Naked("___chkstk_ms")} ELSE {})
    \cup (IF X86(c) /\ ~Windows(c) /\ c.os # "cygwin" THEN {Naked("__rust_probestack")} ELSE {})

Particular(c) ==
    (IF c.arch = "avr" THEN {C("abort", <<>>, "never"), <<"__udivmodhi4", "C", <<>>, "void">>, Naked("__udivmodqi4")} ELSE {})
    \cup (IF c.arch = "hexagon" THEN {C("__clear_cache", <<"ptr", "ptr">>, "void")} ELSE {})

--------------------------------------------------------------------------------
Routines(c) == Integer(c) \cup Float(c) \cup Math(c) \cup Memory(c) \cup ArmAbi(c) \cup Sync(c) \cup Outline(c) \cup Stack(c) \cup Particular(c)

(* Without the feature unmangled-names the library is linked next to another one and defines no such name. *)
Exports(c) == IF "unmangled-names" \in c.crate THEN Routines(c) ELSE {}
Names(S) == {s[1] : s \in S}

(* A definition is weak, so that another library may replace it; the object format of Windows with GNU tools has no
   such thing.  The stack probe has a name of the compiler's own. *)
Binding(c, n) == IF n = "__rust_probestack" THEN "internal" ELSE IF GnuWindows(c) \/ c.os = "cygwin" THEN "strong" ELSE "weak"

(* Objects: a name the linker for UEFI looks for. *)
Objects(c) == IF Uefi64(c) THEN {"_fltused"} ELSE {}
=============================================================================
