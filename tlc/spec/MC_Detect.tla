------------------------------ MODULE MC_Detect ------------------------------
(***************************************************************************)
(* The library's detection algorithm under a relaxed memory: a cache of    *)
(* the features, and per function a pointer that starts at an initialiser. *)
(* Every location keeps the history of its values; a relaxed load returns  *)
(* any of them that is not older than what the thread has seen there.      *)
(* All interleavings and all stale reads, against the specification        *)
(* Detect.                                                                 *)
(***************************************************************************)
EXTENDS Detect, FiniteSets

CONSTANTS Threads, CallsPerThread

\* two processors: one with FMA (and AVX state saved), one that has the feature bit only
Intel == <<Hex(30062, 25927), Hex(18789, 28265), Hex(27749, 29806)>>
Cpu(fma) == <<22>> \o Intel \o <<2^12 + 2^26 + (IF fma THEN 2^27 ELSE 0), 0, 0, 0, 0, IF fma THEN 7 ELSE 3>>
Class(fma) == IF fma THEN 1 ELSE 3
Report(fma) == IF fma THEN 2^6 ELSE 0

CACHE == 0
FUNC(what) == 1 + what          \* what 0: fma, 1: fmaf
Locs == 0..2

VARIABLES fma, calls, s, pc, todo, hist, view
vars == <<fma, calls, s, pc, todo, hist, view>>

Whats == [Threads -> [1..CallsPerThread -> {0, 1, 2}]]
Number(t, i) == t * CallsPerThread + i          \* a call's number
Init == /\ fma \in BOOLEAN
        /\ \E w \in Whats : calls = [k \in 1..(Cardinality(Threads) * CallsPerThread) |->
             <<(k - 1) \div CallsPerThread, w[(k - 1) \div CallsPerThread][((k - 1) % CallsPerThread) + 1], 0, 0, 0>>]
        /\ s = Start(Threads)
        /\ pc = [t \in Threads |-> "begin"]
        /\ todo = [t \in Threads |-> 1]
        /\ hist = [l \in Locs |-> <<0>>]          \* 0: not initialised
        /\ view = [t \in Threads |-> [l \in Locs |-> 1]]

What(t) == calls[Number(t, todo[t])][2]
E(kind, t, v) == s' = Event(s, Cpu(fma), calls, kind, t, v)
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Keep == UNCHANGED <<fma, calls>>

\* a relaxed load of l by t: sets the view and goes on with Use(value)
Load(t, l, Use(_)) == \E i \in view[t][l]..Len(hist[l]) :
                         /\ view' = [view EXCEPT ![t][l] = i]
                         /\ Use(hist[l][i])
                         /\ UNCHANGED hist
Write(t, l, v) == /\ hist' = [hist EXCEPT ![l] = Append(@, v)]
                  /\ view' = [view EXCEPT ![t][l] = Len(hist[l]) + 1]

Begin(t) == /\ pc[t] = "begin" /\ todo[t] <= CallsPerThread
            /\ E(CALL, t, Number(t, todo[t]) - 1)
            /\ Goto(t, IF What(t) = 2 THEN "cache" ELSE "func")
            /\ Keep /\ UNCHANGED <<todo, hist, view>>
Func(t) == /\ pc[t] = "func"
           /\ Load(t, FUNC(What(t)), LAMBDA v : Goto(t, IF v = 0 THEN "cache" ELSE IF v = 1 THEN "assert" ELSE "exec"))
           /\ Keep /\ UNCHANGED <<s, todo>>
\* the cache, from the initialiser or from the check in front of the instruction
Cache(t) == /\ pc[t] \in {"cache", "assert"}
            /\ Load(t, CACHE, LAMBDA v : Goto(t, IF v = 0 THEN (IF pc[t] = "cache" THEN "probe" ELSE "probe2")
                                                 ELSE IF pc[t] = "assert" THEN "exec"
                                                 ELSE IF What(t) = 2 THEN "exec" ELSE "setfunc"))
            /\ Keep /\ UNCHANGED <<s, todo>>
Probe(t) == /\ pc[t] \in {"probe", "probe2"}
            /\ E(PROBE, t, 0)
            /\ Goto(t, IF pc[t] = "probe" THEN "setcache" ELSE "setcache2")
            /\ Keep /\ UNCHANGED <<todo, hist, view>>
SetCache(t) == /\ pc[t] \in {"setcache", "setcache2"}
               /\ Write(t, CACHE, 1)
               /\ Goto(t, IF pc[t] = "setcache2" \/ What(t) = 2 THEN "exec" ELSE "setfunc")
               /\ Keep /\ UNCHANGED <<s, todo>>
SetFunc(t) == /\ pc[t] = "setfunc"
              /\ Write(t, FUNC(What(t)), Class(fma))
              /\ Goto(t, IF fma THEN "assert" ELSE "exec")
              /\ Keep /\ UNCHANGED <<s, todo>>
Exec(t) == /\ pc[t] = "exec"
           /\ IF What(t) = 2 THEN s' = s ELSE E(INSTR, t, Class(fma))
           /\ Goto(t, "return") /\ Keep /\ UNCHANGED <<todo, hist, view>>
Return(t) == /\ pc[t] = "return"
             /\ E(RET, t, IF What(t) = 2 THEN Report(fma) ELSE 0)
             /\ Goto(t, "begin") /\ todo' = [todo EXCEPT ![t] = @ + 1]
             /\ Keep /\ UNCHANGED <<hist, view>>

Next == \E t \in Threads : \/ Begin(t) \/ Func(t) \/ Cache(t) \/ Probe(t) \/ SetCache(t) \/ SetFunc(t) \/ Exec(t) \/ Return(t)

Sound == s.ok
Ends == (\A t \in Threads : pc[t] = "begin" /\ todo[t] > CallsPerThread) => s.returned = Len(calls)
=============================================================================
