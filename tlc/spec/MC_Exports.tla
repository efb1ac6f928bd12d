----------------------------- MODULE MC_Exports -----------------------------
(***************************************************************************)
(* The specification of exports over every combination of facts about a    *)
(* target that it depends on, whether or not such a target exists.         *)
(***************************************************************************)
EXTENDS Exports
VARIABLES c, chosen

\* one architecture of each kind, with the width of its pointers
Archs == {<<"x86_64", 64>>, <<"x86", 32>>, <<"aarch64", 64>>, <<"aarch64", 32>>, <<"arm64ec", 64>>, <<"arm", 32>>, <<"avr", 16>>, <<"msp430", 16>>, <<"riscv32", 32>>,
          <<"m68k", 32>>, <<"powerpc64", 64>>, <<"hexagon", 32>>, <<"wasm32", 32>>, <<"nvptx64", 64>>, <<"s390x", 64>>}
\* system, its family, environment, vendor
Systems == {<<"linux", {"unix"}, "gnu", "unknown">>, <<"linux", {"unix"}, "", "unknown">>, <<"android", {"unix"}, "", "unknown">>, <<"macos", {"unix"}, "", "apple">>,
            <<"windows", {"windows"}, "gnu", "pc">>, <<"windows", {"windows"}, "msvc", "pc">>, <<"cygwin", {"unix"}, "", "pc">>, <<"uefi", {}, "", "unknown">>,
            <<"none", {}, "", "unknown">>, <<"unknown", {}, "", "unknown">>, <<"wasi", {}, "p1", "unknown">>, <<"unknown", {}, "sgx", "fortanix">>}
FirstWords == {"armv5te", "other"}
Relevant(a) == IF a = "arm" THEN {"thumb-mode", "v6k", "v6t2"} ELSE IF a = "aarch64" THEN {"outline-atomics"} ELSE IF a \in {"x86", "x86_64"} THEN {"sse2"} ELSE {}
Crate == {"unmangled-names", "mem", "unstable-public-internals"}

Configuration(a, s, w, f, h, q, k) ==
  [arch |-> a[1], pw |-> a[2], os |-> s[1], fam |-> s[2] \cup (IF a[1] = "wasm32" THEN {"wasm"} ELSE {}), env |-> s[3], vendor |-> s[4], feats |-> f, f16 |-> h,
   f128 |-> q, crate |-> k, parts |-> <<w, s[4], s[1]>>, name |-> "-"]
Init == /\ chosen = FALSE
        /\ \E a \in Archs, s \in Systems : c = Configuration(a, s, "other", {}, FALSE, FALSE, {})
Next == /\ ~chosen
        /\ chosen' = TRUE
        /\ \E w \in FirstWords, f \in SUBSET Relevant(c.arch), h \in BOOLEAN, q \in BOOLEAN, k \in SUBSET Crate :
             /\ w # "other" => c.arch = "arm"
             /\ c' = [c EXCEPT !.parts[1] = w, !.feats = f, !.f16 = h, !.f128 = q, !.crate = k]

With(x) == [c EXCEPT !.crate = @ \cup {x}]
Without(x) == [c EXCEPT !.crate = @ \ {x}]

\* no name has two definitions
Once == \A s, t \in {r \in Exports(c) : r[2] # "C"} : s[1] = t[1] => s = t
Distinct == Cardinality(Names(Exports(c))) = Cardinality(Exports(c))
\* nothing next to another library
Silent == "unmangled-names" \notin c.crate => Exports(c) = {}
\* features and types add names, and take none away
Monotone == /\ \A x \in Crate : Exports(Without(x)) \subseteq Exports(With(x))
            /\ Exports([c EXCEPT !.f16 = FALSE]) \subseteq Exports([c EXCEPT !.f16 = TRUE])
            /\ Exports([c EXCEPT !.f128 = FALSE]) \subseteq Exports([c EXCEPT !.f128 = TRUE])
\* what the C library of a system defines is left to it where a weak definition may win
Left == (Windows(c) \/ Apple(c)) => Names(Exports(c)) \cap {"sqrt", "fma", "floor", "fmodf", "cbrt", "sin", "exp", "pow", "hypotf"} = {}
\* what the compiler calls is there: division, shifts, conversions and arithmetic of every type it has
Called == "unmangled-names" \in c.crate =>
  /\ {"__udivdi3", "__divti3", "__umodsi3", "__ashlti3", "__multi3", "__muloti4", "__adddf3", "__divsf3", "__fixdfti", "__floatuntisf", "__unorddf2",
      "__powidf2", "__truncdfsf2", "__extendsfdf2", "roundeven", "fmaximum"} \subseteq Names(Exports(c))
  /\ c.f16 => {"__extendhfsf2", "__truncdfhf2", "__gnu_h2f_ieee", "__lthf2", "ceilf16"} \subseteq Names(Exports(c))
  /\ c.f128 => {"__add" \o Mode(c, "f128") \o "3", "__extendsf" \o Mode(c, "f128") \o "2", "fmaf128"} \subseteq Names(Exports(c))
  /\ c.f16 /\ c.f128 => "__trunc" \o Mode(c, "f128") \o "hf2" \in Names(Exports(c))
  /\ ("mem" \in c.crate \/ c.os = "none") => {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen"} \subseteq Names(Exports(c))
  /\ c.arch = "arm" => {"__aeabi_ldivmod", "__aeabi_dadd", "__aeabi_d2iz"} \subseteq Names(Exports(c))
Laws == Once /\ Distinct /\ Silent /\ Monotone /\ Left /\ Called
=============================================================================
