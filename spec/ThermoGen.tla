------------------------------ MODULE ThermoGen ------------------------------
(* Random dots of up to four states with their exact occupations and currents (one per step). *)
EXTENDS Thermo, TLC, Json, IOUtils
CONSTANT Depth
VARIABLES m, k
Out(r) == Serialize(ToJson(r) \o "\n", "thermo.ndjson",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Qs == <<<<0, 1>>, <<0, 1, 1>>, <<1, 0, 1>>, <<0, 1, 2>>, <<0, 1, 1, 2>>, <<2, 1, 1, 0>>, <<1, 1, 0, 2>>, <<0, 1, 1, 1>>, <<0, 0, 1, 1>>, <<1, 2, 2>>, <<0, 0, 1>>>>
R(S, d) == RandomElement(S)
Draw(d) ==
  \E q \in {TLCEval(Qs[R(1 .. Len(Qs), d)])} :
  \E n \in {Len(q)} : \E nl \in {TLCEval(R(1 .. (IF n = 4 THEN 2 ELSE 3), d))} :
  \E same \in {TLCEval(R(1 .. 4, d))} : \E b0 \in {TLCEval(R(1 .. 2, d))} : \E mu0 \in {TLCEval(R(-1 .. 1, d))} :
  \E top \in {IF n = 4 THEN 1 ELSE 2} :
  \E e \in {TLCEval([i \in 1 .. n |-> R(0 .. 2, <<d, i>>)])} :
  \E leads \in {TLCEval([l \in 1 .. nl |-> [b |-> IF same <= 2 THEN b0 ELSE R(1 .. 2, <<d, l>>), mu |-> IF same = 1 THEN mu0 ELSE R(-1 .. 2, <<d, l>>),
                                    g |-> [a \in 1 .. n |-> [c \in 1 .. n |-> IF q[c] = q[a] + 1 THEN R({0, 1, 1, top}, <<d, l, a, c>>) ELSE 0]]]])} :
  \E bath \in {TLCEval(R(0 .. 1, d))} :
  \E s \in {TLCEval([a \in 1 .. n |-> [c \in 1 .. n |-> IF a # c /\ q[a] = q[c] /\ e[a] # e[c] THEN R(0 .. 1, <<d, a, c>>) ELSE 0]])} :
  \E baths \in {TLCEval(IF bath = 0 THEN <<>> ELSE
                  <<[b |-> IF same <= 2 THEN b0 ELSE 1, v |-> [a \in 1 .. n |-> [c \in 1 .. n |-> IF a < c THEN s[a][c] ELSE s[c][a]]]]>>)} :
     m' = [q |-> q, e |-> e, leads |-> leads, baths |-> baths]
Put(r) == LET w == TLCEval(Occ(r)) IN
          IF Total(w) = 0 THEN TRUE
          ELSE Out([m |-> r, equal |-> Equal(r), occ |-> w, current |-> [l \in Ls(r) |-> Current(r, w, l)],
                    energy |-> [l \in Ls(r) |-> Energy(r, w, l)], heat |-> [l \in Ls(r) |-> Heat(r, w, l)], entropy |-> Entropy(r, w)])
Start == [q |-> <<0, 1>>, e |-> <<0, 0>>, leads |-> <<[b |-> 1, mu |-> 0, g |-> <<<<0, 1>>, <<0, 0>>>>]>>, baths |-> <<>>]
Init == m = Start /\ k = 0
Next == k < Depth /\ k' = k + 1 /\ Draw(k) /\ (IF Allowed(m') THEN Put(m') ELSE TRUE)
Spec == Init /\ [][Next]_<<m, k>>
Inv == Allowed(m) => Laws(m)
=============================================================================
