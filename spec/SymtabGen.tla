----------------------------- MODULE SymtabGen ------------------------------
(* The interning mechanism explored exhaustively for a family of at most      *)
(* MaxFam interpreters: all orders of interning an ordinary name, interning   *)
(* names shaped like generated ones, generating, duplicating and cloning.     *)
(* The mechanism refines the contract in every step; the histories are        *)
(* printed and replayed on real families.                                     *)
(* Names are numbers here: 0 is an ordinary name, 10+k the name generated     *)
(* from counter value k.  Operation codes: interp*100 + {0: ordinary,         *)
(* 10+k: generated-shaped name k, 50: gen, 60: dup, 61: clone}                *)
EXTENDS Symtab, TLC
CONSTANTS Depth, MaxFam, MaxG
VARIABLES tab, next, hist, last
vars == << tab, next, hist, last >>
GName(n) == 10 + n
Init == tab = {} /\ next = << 0 >> /\ hist = << >> /\ last = << "none" >>

Make(i, nm) ==
  LET known == nm \in Names(tab)
      n == IF known THEN (CHOOSE p \in tab : p[1] = nm)[2] ELSE FreeNum(tab, next[i]) IN
  /\ tab' = Add(tab, nm, n)
  /\ next' = IF known THEN next ELSE [next EXCEPT ![i] = n + 1]
  /\ last' = << "make", nm, nm, n >>
  /\ hist' = Append(hist, 100 * i + nm)
Gen(i) ==
  LET k == FreeName(tab, GName, next[i])
      n == FreeNum(tab, k) IN
  /\ tab' = Add(tab, GName(k), n)
  /\ next' = [next EXCEPT ![i] = n + 1]
  /\ last' = << "gen", GName(k), n >>
  /\ hist' = Append(hist, 100 * i + 50)
Fork(i, code) ==
  /\ Len(next) < MaxFam
  /\ next' = Append(next, next[i])
  /\ last' = << "none" >>
  /\ hist' = Append(hist, 100 * i + code)
  /\ UNCHANGED tab
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(next) :
             \/ Make(i, 0) \/ \E g \in 0..MaxG : Make(i, GName(g))
             \/ Gen(i) \/ Fork(i, 60) \/ Fork(i, 61)
Spec == Init /\ [][Next]_vars
Inv == Bijective(tab)
Refines == [][ /\ last'[1] = "make" => MakeOK(tab, last'[2], last'[3], last'[4])
               /\ last'[1] = "gen"  => GenOK(tab, last'[2], last'[3]) ]_vars
Emit == Len(hist) = Depth => PrintT(<< "H" >> \o hist)
=============================================================================
