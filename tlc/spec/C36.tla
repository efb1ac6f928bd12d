-------------------------------- MODULE C36 --------------------------------
(***************************************************************************)
(* Exported symbols.  Records:                                             *)
(*   exports target/features c > s d                                       *)
(*   object target/features c > s 0                                        *)
(* c: number of the configuration; s: number of the set of symbols the     *)
(* sources define there, or a library built from them; d: how many names   *)
(* are defined more than once.  The tables are in the generated module     *)
(* Observed; a symbol there is <<binding, name, convention, arguments,     *)
(* result>>.                                                               *)
(***************************************************************************)
EXTENDS Execute, Exports, Observed

Defined(s) == {Symbols[k] : k \in Sets[s]}
Wanted(c) == {<<Binding(c, s[1])>> \o s : s \in Exports(c)} \cup {<<"object", n, "", <<>>, "void">> : n \in Objects(c)}

Differs(have, want) == PrintT(<<"differs", want \ have, have \ want>>)

OutcomeC36(r) ==
  LET c == Configurations[r[3][1]]
      have == Defined(r[4][1])
  IN CASE r[1] = "exports" -> IF have = Wanted(c) /\ r[4][2] = 0 THEN "ok"
                              ELSE IF Differs(have, Wanted(c)) THEN "symbols differ" ELSE "symbols differ"
       [] r[1] = "object" -> LET want == {<<w[1], w[2]>> : w \in {x \in Wanted(c) : x[1] # "internal"}}
                                 got == {<<h[1], h[2]>> : h \in have}
                             IN IF got = want THEN "ok" ELSE IF Differs(got, want) THEN "symbols differ" ELSE "symbols differ"
       [] OTHER -> "unknown"
=============================================================================
