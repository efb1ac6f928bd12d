------------------------------ MODULE MC_Sync ------------------------------
(***************************************************************************)
(* The two algorithms behind the sync operations, with every interleaving  *)
(* of their memory accesses and bounded spurious failures, against the     *)
(* specification Sync: compare-exchange on the whole word (machine "arm"), *)
(* and exclusive loads and stores of the operand (machine "thumb").        *)
(***************************************************************************)
EXTENDS Sync, FiniteSets

CONSTANTS Threads, MaxSpurious, Values

Ops == {ADD_O, NAND_N, MAX_O, UMIN_O, SWAP_O, CAS_O}
Places == {<<1, 0>>, <<1, 1>>, <<2, 0>>}
CallsOf(t) == {<<t, op, p[1], p[2], a, 7>> : op \in Ops, p \in Places, a \in Values}

VARIABLES machine, calls, s, pc, reg, mon, spur
vars == <<machine, calls, s, pc, reg, mon, spur>>

Call(t) == calls[t + 1]
IsCas(t) == Call(t)[2] = CAS_O
\* what the specification makes of an event
E(kind, t, v) == Event(s, calls, kind, t, v, machine = "arm")

Init == /\ machine \in {"arm", "thumb"}
        /\ calls \in {c \in [1..Cardinality(Threads) -> UNION {CallsOf(t) : t \in Threads}] :
                        \A i \in DOMAIN c : c[i][1] = i - 1}
        /\ \E w \in {0, 255, 32896} : s = Start(w, Threads)
        /\ pc = [t \in Threads |-> "begin"]
        /\ reg = [t \in Threads |-> 0]
        /\ mon = [t \in Threads |-> FALSE]
        /\ spur = 0

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Keep == UNCHANGED <<machine, calls>>

Begin_(t) == /\ pc[t] = "begin"
             /\ s' = E(CALL, t, t)
             /\ IF machine = "thumb" /\ IsCas(t)
                THEN reg' = [reg EXCEPT ![t] = Call(t)[5] % Modulus(Call(t))] /\ Goto(t, "ldrex")
                ELSE reg' = reg /\ Goto(t, "load")
             /\ Keep /\ UNCHANGED <<mon, spur>>

\* ---- compare-exchange of the word
LoadWord(t) == /\ machine = "arm" /\ pc[t] = "load"
               /\ reg' = [reg EXCEPT ![t] = s.word]
               /\ IF IsCas(t) /\ Operand(s.word, Call(t)) # Call(t)[5] % Modulus(Call(t))
                  THEN Goto(t, "return")
                  ELSE Goto(t, "cas")
               /\ Keep /\ UNCHANGED <<s, mon, spur>>
CasWord(t) == /\ machine = "arm" /\ pc[t] = "cas"
              /\ \/ /\ s.word = reg[t]
                    /\ s' = E(WRITE, t, Insert(reg[t], Call(t), Result(Operand(reg[t], Call(t)), Call(t))))
                    /\ Goto(t, "return") /\ UNCHANGED spur
                 \/ /\ s.word # reg[t] /\ Goto(t, "load") /\ UNCHANGED <<s, spur>>
                 \/ /\ spur < MaxSpurious /\ spur' = spur + 1 /\ Goto(t, "load") /\ UNCHANGED s
              /\ Keep /\ UNCHANGED <<reg, mon>>
Return(t) == /\ machine = "arm" /\ pc[t] = "return"
             /\ s' = E(RET, t, Answer(Operand(reg[t], Call(t)), Call(t)))
             /\ Goto(t, "done") /\ Keep /\ UNCHANGED <<reg, mon, spur>>

\* ---- exclusive load and store of the operand
LoadOperand(t) == /\ machine = "thumb" /\ pc[t] = "load"
                  /\ reg' = [reg EXCEPT ![t] = Operand(s.word, Call(t))]
                  /\ Goto(t, "ldrex") /\ Keep /\ UNCHANGED <<s, mon, spur>>
\* pc "ldrex" comes before the first barrier, "again" after a failed store
LoadEx(t) == /\ machine = "thumb" /\ pc[t] \in {"ldrex", "again"}
             /\ IF Operand(s.word, Call(t)) = reg[t]
                THEN /\ mon' = [mon EXCEPT ![t] = TRUE]
                     /\ IF pc[t] = "ldrex" THEN s' = E(BARRIER, t, 0) ELSE s' = s
                     /\ Goto(t, "strex")
                     /\ UNCHANGED reg
                ELSE /\ mon' = [mon EXCEPT ![t] = FALSE]
                     /\ s' = E(BARRIER, t, 0)
                     /\ reg' = [reg EXCEPT ![t] = Operand(s.word, Call(t))]
                     /\ IF IsCas(t) THEN Goto(t, "failed") ELSE Goto(t, "load")
             /\ Keep /\ UNCHANGED spur
StoreEx(t) == /\ machine = "thumb" /\ pc[t] = "strex"
              /\ \/ /\ mon[t]
                    /\ s' = E(WRITE, t, Insert(s.word, Call(t), Result(reg[t], Call(t))))
                    /\ mon' = [u \in Threads |-> FALSE]
                    /\ Goto(t, "fence") /\ UNCHANGED spur
                 \/ /\ ~mon[t] /\ Goto(t, "again") /\ UNCHANGED <<s, mon, spur>>
                 \/ /\ spur < MaxSpurious /\ spur' = spur + 1 /\ Goto(t, "again")
                    /\ mon' = [mon EXCEPT ![t] = FALSE] /\ UNCHANGED s
              /\ Keep /\ UNCHANGED reg
FenceAfter(t) == /\ machine = "thumb" /\ pc[t] = "fence"
                 /\ s' = E(BARRIER, t, 0)
                 /\ Goto(t, "answer") /\ Keep /\ UNCHANGED <<reg, mon, spur>>
AnswerEx(t) == /\ machine = "thumb" /\ pc[t] \in {"answer", "failed"}
               /\ s' = E(RET, t, IF pc[t] = "answer" THEN Answer(reg[t], Call(t)) ELSE reg[t])
               /\ Goto(t, "done") /\ Keep /\ UNCHANGED <<reg, mon, spur>>

Next == \E t \in Threads : \/ Begin_(t) \/ LoadWord(t) \/ CasWord(t) \/ Return(t)
                           \/ LoadOperand(t) \/ LoadEx(t) \/ StoreEx(t) \/ FenceAfter(t) \/ AnswerEx(t)

Linearizable == s.ok
Ended == (\A t \in Threads : pc[t] = "done") => Complete(s, s.word)
=============================================================================
