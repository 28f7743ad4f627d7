------------------------------ MODULE HostGen ------------------------------
(* The texts to hand over, as sequences of numbers into the tables of the    *)
(* check: token strings of every length to MaxLen, and applications of the   *)
(* heads 1..NHeads to argument shapes, to MaxArgs arguments; and the legal   *)
(* templates 1..NTemplates with one of their parts, 1..NParts, replaced.     *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS NTokens, MaxLen, NHeads, NShapes, MaxArgs, NTemplates, NParts
VARIABLES kind, seq
Init == (kind = "tokens" /\ seq = <<>>) \/ (kind = "form" /\ seq \in {<<h>> : h \in 1..NHeads}) \/ (kind = "part" /\ seq \in {<<t, p>> : t \in 1..NTemplates, p \in 1..NParts})
Next == /\ UNCHANGED kind
        /\ \/ kind = "tokens" /\ Len(seq) < MaxLen /\ \E k \in 1..NTokens : seq' = Append(seq, k)
           \/ kind = "part" /\ Len(seq) = 2 /\ \E k \in 1..NShapes : seq' = Append(seq, k)
           \/ kind = "form" /\ Len(seq) < 1 + MaxArgs /\ \E k \in 1..NShapes : seq' = Append(seq, k)
Spec == Init /\ [][Next]_<<kind, seq>>
Show == PrintT(<<"TEXT", kind, seq>>)
=============================================================================
