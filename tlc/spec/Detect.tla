------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Run-time detection of processor features on x86, its cache, and the     *)
(* functions chosen by it.                                                 *)
(*                                                                         *)
(* A processor is what its cpuid and xgetbv instructions return; which     *)
(* instructions it can execute follows from that by the manufacturers'     *)
(* rules: FMA and FMA4 need the feature bit and an operating system that   *)
(* saves the AVX state (OSXSAVE, and XCR0 with the SSE and AVX bits); the  *)
(* AVX-512 extensions also need the AVX-512 state; FMA4 is defined for AMD *)
(* processors and those that share their definition.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits

Bit(x, i) == (x \div 2^i) % 2 = 1

\* cpu = <<maxleaf, ebx, edx, ecx of leaf 0, ecx1, edx1, ebx7:edx7, eax of 7.1, maxext:ecx of 80000001, xcr0>>
W == 65536 * 65536
Low(x) == x % W
High(x) == x \div W
Hex(h, l) == h * 65536 + l
Vendor(c) == <<c[2], c[3], c[4]>>
AuthenticAMD == <<Hex(26740, 30017), Hex(26996, 28261), Hex(17485, 16739)>>
HygonGenuine == <<Hex(28519, 31048), Hex(28261, 18286), Hex(25966, 26997)>>
Basic(c) == c[1] >= 1
Ext7(c) == c[1] >= 7
OsSaves(c, mask) == Basic(c) /\ Bit(c[5], 26) /\ Bit(c[5], 27) /\ BitAnd(c[10], mask) = mask
OsAvx(c) == OsSaves(c, 6)
OsAvx512(c) == OsSaves(c, 6 + 224)
FmaOk(c) == OsAvx(c) /\ Bit(c[5], 12)
Fma4Ok(c) == /\ OsAvx(c) /\ Vendor(c) \in {AuthenticAMD, HygonGenuine}
             /\ High(c[9]) >= 32768 * 65536 + 1 /\ Bit(Low(c[9]), 16)

\* the instruction classes the fma implementations use: 1 FMA, 2 FMA4, 3 none in particular
CanExecute(c, class) == CASE class = 1 -> FmaOk(c) [] class = 2 -> Fma4Ok(c) [] OTHER -> TRUE

\* what may be reported, in the order of the harness: SSE3 F16C SSE SSE2 ERMSB MOVRS FMA FMA4 AVX512FP16 AVX512BF16
Has(c, i) == CASE i = 0 -> Basic(c) /\ Bit(c[5], 0)
               [] i = 1 -> Basic(c) /\ Bit(c[5], 29)
               [] i = 2 -> Basic(c) /\ Bit(c[6], 25)
               [] i = 3 -> Basic(c) /\ Bit(c[6], 26)
               [] i = 4 -> Ext7(c) /\ Bit(High(c[7]), 9)
               [] i = 5 -> Ext7(c) /\ Bit(c[8], 31)
               [] i = 6 -> FmaOk(c)
               [] i = 7 -> Fma4Ok(c)
               [] i = 8 -> Ext7(c) /\ OsAvx512(c) /\ Bit(Low(c[7]), 23)
               [] i = 9 -> Ext7(c) /\ OsAvx512(c) /\ Bit(c[8], 5)
\* F16C encodings need the AVX state as well; reporting it without is tolerated (no code uses it)
ReportOk(c, set) == /\ \A i \in 0..9 \ {1} : Bit(set, i) <=> Has(c, i)
                    /\ Bit(set, 1) => Has(c, 1)
                    /\ Has(c, 1) /\ OsAvx(c) => Bit(set, 1)

(* Calls and their effects.  call = <<thread, what, x, y, z>> with what:   *)
(* 0 fma, 1 fmaf, 2 report the features, 3 a cache with an initialiser     *)
(* that returns x.                                                         *)
PROBE == 4  INSTR == 5  CALL == 6  RET == 7  INIT == 8

(* Per thread: the call it is in, whether detection ran in it, and the     *)
(* kinds of calls for which detection must not run again in this thread:   *)
(* those it has completed, and all that share a detection it has made.     *)
Start(threads) == [ok |-> TRUE, call |-> [t \in threads |-> 0], ran |-> [t \in threads |-> FALSE],
                   known |-> [t \in threads |-> {}], returned |-> 0]
Sharing(what) == IF what = 3 THEN {3} ELSE {0, 1, 2}
ReturnOk(c, call, v) ==
  CASE call[2] \in {0, 1} -> v = call[3] * call[4] + call[5]
    [] call[2] = 2 -> ReportOk(c, v)
    [] OTHER -> v = call[3]
EventOk(s, c, calls, kind, t, v) ==
  CASE kind = CALL -> s.call[t] = 0 /\ v + 1 \in 1..Len(calls) /\ calls[v + 1][1] = t
    [] s.call[t] = 0 -> FALSE
    [] kind = PROBE -> calls[s.call[t]][2] \in {0, 1, 2} \ s.known[t]
    [] kind = INIT -> calls[s.call[t]][2] \in {3} \ s.known[t]
    [] kind = INSTR -> calls[s.call[t]][2] \in {0, 1} /\ CanExecute(c, v)
    [] kind = RET -> ReturnOk(c, calls[s.call[t]], v)
    [] OTHER -> FALSE
Event(s, c, calls, kind, t, v) ==
  IF ~s.ok THEN s
  ELSE IF ~EventOk(s, c, calls, kind, t, v) THEN [s EXCEPT !.ok = FALSE]
  ELSE CASE kind = CALL -> [s EXCEPT !.call[t] = v + 1, !.ran[t] = FALSE]
         [] kind \in {PROBE, INIT} -> [s EXCEPT !.ran[t] = TRUE]
         [] kind = RET -> LET what == calls[s.call[t]][2]
                          IN [s EXCEPT !.call[t] = 0, !.returned = @ + 1,
                                       !.known[t] = @ \cup {what} \cup IF s.ran[t] THEN Sharing(what) ELSE {}]
         [] OTHER -> s
=============================================================================
