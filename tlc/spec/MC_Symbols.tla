----------------------------- MODULE MC_Symbols -----------------------------
(***************************************************************************)
(* Laws of the conditions in Symbols, for every archive of two objects     *)
(* with up to MaxSyms symbols: the order of members and symbols does not   *)
(* matter; the conditions are those of a linker that adds one object after *)
(* the other; a part of an archive without duplicates has none; giving     *)
(* stack properties up never makes an archive worse.                       *)
(***************************************************************************)
EXTENDS Symbols, FiniteSets
CONSTANT MaxSyms
VARIABLES file, laws
Foo == <<102, 111, 111>>
CoreName == <<95, 90, 78, 52, 99, 111, 114, 101, 49, 120, 69>>          \* _ZN4core1xE
Names == {Foo, CoreName, Thunk \o <<46, 97, 120>>}
Kinds == {y \in Names \X (0..2) \X {0, 1} \X {0, 2} \X {0, 1} : (y[3] = 0 => y[2] # 0) /\ (y[5] = 1 => y[3] = 1)}
Host == <<"x86_64", 0, "linux">>
Empty(sec) == [fmt |-> "elf", mach |-> 62, class |-> 64, end |-> 0, os |-> 0, abi |-> 0, ph |-> <<>>, sec |-> sec, syms |-> <<>>]
Secs == {<<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>>>, <<<<1, 1>>, <<0, 1>>>>, <<<<0, 0>>>>}

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mirrored(f) == [i \in 1..Len(f) |-> [f[Len(f) + 1 - i] EXCEPT !.syms = Reverse(@)]]
All(f) == f[1].syms \o f[2].syms
\* A linker: reads symbols one by one, keeps what is defined and what is still wanted.
RECURSIVE Link(_, _, _, _)
Link(ys, defd, want, clash) ==
  IF ys = <<>> THEN [defd |-> defd, want |-> want, clash |-> clash]
  ELSE LET y == ys[1]
           rest == SubSeq(ys, 2, Len(ys))
       IN IF y[3] = 0 THEN Link(rest, defd, want \cup {y[1]}, clash)
          ELSE IF y[2] = 0 THEN Link(rest, defd, want, clash)
          ELSE Link(rest, defd \cup {y[1]}, want, clash \cup (IF y[1] \in defd /\ ~Repeatable(y) THEN {y[1]} ELSE {}))
\* Only strictly comparable when no symbol is repeatable for its section and not for its name.
Plain(f) == \A i \in 1..Len(All(f)) : All(f)[i][5] = 0
LocalCore(f) == \E i \in 1..Len(All(f)) : All(f)[i][1] = CoreName /\ All(f)[i][2] = 0
Broken(f) ==
  LET l == Link(All(f), {}, {}, {})
      law == [order |-> FileOk(f, Host, FALSE, FALSE) = FileOk(Mirrored(f), Host, FALSE, FALSE),
              dup |-> Plain(f) => (NoDuplicates(f) = (l.clash = {})),
              core |-> ~LocalCore(f) => (CoreResolved(f) = ({n \in l.want \ l.defd : OfCore(n)} = {})),
              part |-> NoDuplicates(f) => \A i \in 1..2 : NoDuplicates(<<f[i]>>),
              giveup |-> FileOk(f, Host, FALSE, FALSE) => FileOk(f, Host, TRUE, FALSE) /\ FileOk(f, Host, FALSE, TRUE),
              target |-> ~FileOk(f, <<"aarch64", 0, "linux">>, TRUE, TRUE) /\ ~FileOk(f, <<"x86_64", 1, "linux">>, TRUE, TRUE)]
  IN {k \in DOMAIN law : ~law[k]}

Init == /\ file \in {<<Empty(a), Empty(b)>> : a \in Secs, b \in Secs}
        /\ laws = Broken(file)
Next == /\ Len(All(file)) < MaxSyms
        /\ \E i \in 1..2, y \in Kinds : file' = [file EXCEPT ![i].syms = Append(@, y)]
        /\ laws' = Broken(file')
NoLawBroken == laws = {}
=============================================================================
