------------------------------ MODULE Switches -------------------------------
(***************************************************************************)
(* Corrections of the second-order kernel by coherences: they enter a solution *)
(* when they are switched on and while the coherences are part of the problem. *)
(* "kept" is whether coherences between different energies are kept, "eff" is  *)
(* the effective choice in the last solution ("none" before the first one),    *)
(* "impl" the implementation that produced it.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES on, kept, impl, eff, by
vars == <<on, kept, impl, eff, by>>
Impls == {"RTD", "pyRTD"}
Init == on \in BOOLEAN /\ kept = TRUE /\ impl \in Impls /\ eff = "none" /\ by = "none"
Eff == IF on /\ kept THEN "with" ELSE "without"
Switch == on' = ~on /\ UNCHANGED <<kept, impl, eff, by>>
Remove == kept /\ kept' = FALSE /\ UNCHANGED <<on, impl, eff, by>>
Restore == ~kept /\ kept' = TRUE /\ UNCHANGED <<on, impl, eff, by>>
(* the other implementation starts anew *)
Change == impl' = (CHOOSE i \in Impls : i # impl) /\ eff' = "none" /\ by' = "none" /\ UNCHANGED <<on, kept>>
Solve == eff' = Eff /\ by' = impl /\ UNCHANGED <<on, kept, impl>>
Next == Switch \/ Remove \/ Restore \/ Change \/ Solve
Spec == Init /\ [][Next]_vars
Sane == /\ eff = "none" <=> by = "none"
        /\ by # "none" => by = impl
=============================================================================
