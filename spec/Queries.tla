------------------------------- MODULE Queries -------------------------------
(***************************************************************************)
(* What is asked of a system between solves.  A state is the system of       *)
(* System.tla and the order in which its states are listed: order[x] is the  *)
(* label of the state at position x.  Queries take positions.                *)
(*   sort      lists the states by a list of properties: 0 energy, 1 charge, *)
(*             2 spin projection, 3 total spin; equal states stay in the     *)
(*             order of their labels; None lists them by label               *)
(* env.rank ranks the energies (equal energies have equal ranks).            *)
(* The order stays what it is when energies change later, and is forgotten   *)
(* when Fock states are removed (labels then mean other states).             *)
(***************************************************************************)
EXTENDS System
None == <<-1>>
Key(env, p, b) == IF p = 0 THEN env.rank[b+1] ELSE Qn(env, b)[p]
RECURSIVE Less(_, _, _, _)
Less(env, srt, a, b) ==
  IF srt = <<>> THEN a < b
  ELSE IF Key(env, Head(srt), a) # Key(env, Head(srt), b) THEN Key(env, Head(srt), a) < Key(env, Head(srt), b)
  ELSE Less(env, Tail(srt), a, b)
Identity(env) == [x \in Labels(env) |-> x]
Order(env, srt) ==
  IF srt = None THEN Identity(env)
  ELSE LET place == [b \in Labels(env) |-> Cardinality({a \in Labels(env) : Less(env, srt, a, b)})] IN
       [x \in Labels(env) |-> CHOOSE b \in Labels(env) : place[b] = x]
Base(k) == IF k \in {"pyPauli", "pyLindblad", "pyRedfield", "py1vN", "pyRTD", "py2vN"} THEN
             CASE k = "pyPauli" -> "Pauli" [] k = "pyLindblad" -> "Lindblad" [] k = "pyRedfield" -> "Redfield"
               [] k = "py1vN" -> "1vN" [] k = "pyRTD" -> "RTD" [] OTHER -> "2vN"
           ELSE k
Amplitudes(k) == Base(k) \in {"Redfield", "1vN", "2vN"}
Diagonal(k) == Base(k) \in {"Pauli", "RTD"}

QFresh(cf, env) == [sys |-> Fresh(cf, env), order |-> Identity(env)]
QStep(cf, q, e, env) ==
  CASE e.op = "sort" -> [q EXCEPT !.order = Order(env, e.arg)]
    [] e.op = "fock" -> [sys |-> Step(cf, q.sys, e, env), order |-> Identity(env)]
    [] OTHER -> [q EXCEPT !.sys = Step(cf, q.sys, e, env)]

(* answers: the element of a label pair, its conjugate, zero, or nothing *)
Ask0(env, q, x, y) ==
  LET b == q.order[x]  bp == q.order[y] IN
  IF <<b, bp>> \notin Pairs(env, q.sys) \/ (Diagonal(q.sys.o.kern) /\ b # bp) THEN [is |-> "zero"]
  ELSE [is |-> "element", of |-> <<b, bp>>]
Ask1(env, q, x, y) ==
  LET c == q.order[x]  b == q.order[y] IN
  IF ~Amplitudes(q.sys.o.kern) THEN [is |-> "nothing"]
  ELSE IF c \notin q.sys.kept \/ b \notin q.sys.kept THEN [is |-> "zero"]
  ELSE IF Qn(env, c)[1] = Qn(env, b)[1] + 1 THEN [is |-> "element", of |-> <<c, b>>]
  ELSE IF Qn(env, b)[1] = Qn(env, c)[1] + 1 THEN [is |-> "conjugate", of |-> <<b, c>>]
  ELSE [is |-> "zero"]

(* laws *)
Permutes(env, q) == {q.order[x] : x \in Labels(env)} = Labels(env)
Sorted(env, srt) == srt # None =>
  LET o == Order(env, srt) IN \A x \in Labels(env) : x + 1 \in Labels(env) => Less(env, srt, o[x], o[x+1])
Answers(env, q) ==
  /\ \A x, y \in Labels(env) :
       /\ Ask0(env, q, x, y).is = Ask0(env, q, y, x).is
       /\ Ask0(env, q, x, y).is = "element" => Ask0(env, q, y, x).of = <<Ask0(env, q, x, y).of[2], Ask0(env, q, x, y).of[1]>>
       /\ Ask1(env, q, x, y).is = "element" <=> Ask1(env, q, y, x).is = "conjugate"
       /\ Ask1(env, q, x, y).is = "element" => Ask1(env, q, y, x).of = Ask1(env, q, x, y).of
  \* the retained states have an occupation, and every element is asked for in exactly one way
  /\ {Ask0(env, q, x, x).is : x \in {z \in Labels(env) : q.order[z] \in q.sys.kept}} \subseteq {"element"}
  /\ \A p \in Pairs(env, q.sys) : (Diagonal(q.sys.o.kern) /\ p[1] # p[2]) \/
       Cardinality({r \in Labels(env) \X Labels(env) : Ask0(env, q, r[1], r[2]) = [is |-> "element", of |-> p]}) = 1
=============================================================================
