-------------------------------- MODULE OMap --------------------------------
(* The contract of hashes (property C14): an insertion-ordered map.          *)
(*                                                                           *)
(* A universe of key expressions 1..N is given.  Two key expressions denote  *)
(* the same key exactly when they are in the same class (the language's      *)
(* equality: a char and an integer with the same code are equal keys, a      *)
(* one-element array stands for its element), and norm[k] is the key         *)
(* expression under which k is reported back by the hash.                    *)
EXTENDS Naturals, Integers, Sequences

\* A map is a sequence of entries in first-insertion order.
Empty == << >>
Find(m, u, k) == IF \E i \in 1..Len(m) : m[i].class = u.class[k]
                 THEN CHOOSE i \in 1..Len(m) : m[i].class = u.class[k]
                 ELSE 0
Set(m, u, k, v) ==
  LET i == Find(m, u, k) IN
  IF i = 0 THEN Append(m, [key |-> u.norm[k], class |-> u.class[k], val |-> v])
           ELSE [m EXCEPT ![i].val = v]
Del(m, u, k) ==
  LET i == Find(m, u, k) IN
  IF i = 0 THEN m ELSE SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))

Lookup(m, u, k, dflt) == LET i == Find(m, u, k) IN IF i = 0 THEN dflt ELSE m[i].val

Apply(m, u, op) ==
  CASE op.name \in {"set", "seti", "setd"} -> Set(m, u, op.k, op.v)
    [] op.name = "del" -> Del(m, u, op.k)
    [] OTHER -> m
\* the constructor (hash k v k v ...) is a sequence of insertions
RECURSIVE ApplyAll(_, _, _)
ApplyAll(m, u, ops) == IF ops = << >> THEN m ELSE ApplyAll(Apply(m, u, Head(ops)), u, Tail(ops))

\* ---- what every script-level view of the hash must show
ErrorMark == -1
DefaultMark == 5
Keys(m)  == [i \in 1..Len(m) |-> m[i].key]
Vals(m)  == [i \in 1..Len(m) |-> m[i].val]
Pairs(m) == [i \in 1..Len(m) |-> << m[i].key, m[i].val >>]
Get(m, u)  == [k \in 1..u.n |-> Lookup(m, u, k, ErrorMark)]
GetD(m, u) == [k \in 1..u.n |-> Lookup(m, u, k, DefaultMark)]

View(m, u) == [len |-> Len(m), keys |-> Keys(m), pairs |-> Pairs(m), range |-> Pairs(m),
               range1 |-> Keys(m), rangem |-> Pairs(m), str |-> Vals(m), get |-> Get(m, u), getd |-> GetD(m, u),
               empty |-> IF Len(m) = 0 THEN 1 ELSE 0, oob |-> 0, strok |-> TRUE]
\* encodings (string-like keys only): members and round trips in order
EncView(m) == [json |-> Pairs(m), jsonord |-> Keys(m), rt |-> << Pairs(m), Pairs(m) >>]

WellFormed(m) == \A i, j \in 1..Len(m) : i # j => m[i].class # m[j].class
=============================================================================
