------------------------------- MODULE Record -------------------------------
(* Declared struct types and their instances (C17).                           *)
(*                                                                            *)
(* A declaration gives a name a list of typed fields; the types it names are  *)
(* looked up when it is made, and a later declaration of the same name is     *)
(* another definition.  An instance belongs to the definition in force when   *)
(* it was made.  Every way of writing ends in Put, which is guarded by        *)
(* Accepts; whatever fails leaves the state as it was.                        *)
(*                                                                            *)
(* types   <<"b", name>>, <<"slice", T>>, <<"ptr", T>>, <<"st", declaration>> *)
(* values  <<"nil">>, <<"b", name, text>>, <<"arr", values>>, <<"inst", h>>,  *)
(*         <<"pinst", h>>, <<"oth", what>>    (h: place in the heap)          *)
(* state   [decls, cur, heap, slots, snaps]                                   *)
EXTENDS Integers, Sequences

NoType == << "none" >>
RECURSIVE TypeOf(_, _)
TypeOf(heap, v) ==
  CASE v[1] = "b" -> << "b", v[2] >>
    [] v[1] = "inst" -> << "st", heap[v[2]][1] >>
    [] v[1] = "pinst" -> << "ptr", << "st", heap[v[2]][1] >> >>
    [] v[1] = "arr" -> IF v[2] = << >> THEN NoType
                       ELSE LET t == TypeOf(heap, v[2][1]) IN IF t = NoType THEN NoType ELSE << "slice", t >>
    [] OTHER -> NoType

Accepts(heap, t, v) ==
  \/ v[1] = "nil"
  \/ v[1] = "arr" /\ v[2] = << >> /\ t[1] = "slice"
  \/ TypeOf(heap, v) = t

\* ---- association lists
Find(l, k) == LET S == { i \in 1..Len(l) : l[i][1] = k } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Assign(l, k, v) == LET i == Find(l, k) IN IF i = 0 THEN Append(l, << k, v >>) ELSE [ l EXCEPT ![i] = << k, v >> ]
Without(l, k) == LET F(e) == e[1] # k IN SelectSeq(l, F)

Cur(s, name) == LET i == Find(s.cur, name) IN IF i = 0 THEN 0 ELSE s.cur[i][2]
FieldType(s, d, f) == LET i == Find(s.decls[d][2], f) IN IF i = 0 THEN NoType ELSE s.decls[d][2][i][2]
CanPut(s, heap, d, f, v) == FieldType(s, d, f) # NoType /\ Accepts(heap, FieldType(s, d, f), v)

\* ---- declarations
RECURSIVE Resolve(_, _, _)
Resolve(s, self, t) ==
  CASE t[1] = "nm" -> IF t[2] = self THEN << "st", Len(s.decls) + 1 >>
                      ELSE IF Cur(s, t[2]) = 0 THEN NoType ELSE << "st", Cur(s, t[2]) >>
    [] t[1] \in {"slice", "ptr"} -> LET u == Resolve(s, self, t[2]) IN IF u = NoType THEN NoType ELSE << t[1], u >>
    [] OTHER -> t
Declare(s, name, fields) ==
  LET fs == [ i \in 1..Len(fields) |-> << fields[i][1], Resolve(s, name, fields[i][2]) >> ] IN
  IF \E i \in 1..Len(fs) : fs[i][2] = NoType THEN << s, "err" >>
  ELSE << [ s EXCEPT !.decls = Append(@, << name, fs >>), !.cur = Assign(@, name, Len(s.decls) + 1) ], "ok" >>

\* ---- values written in a program
SlotOf(s, i) == IF i > Len(s.slots) THEN 0 ELSE s.slots[i]
RECURSIVE Value(_, _)
Value(s, v) ==
  CASE v[1] = "slot" -> IF SlotOf(s, v[2]) = 0 THEN << "bad" >> ELSE << "inst", SlotOf(s, v[2]) >>
    [] v[1] = "pslot" -> IF SlotOf(s, v[2]) = 0 THEN << "bad" >> ELSE << "pinst", SlotOf(s, v[2]) >>
    [] v[1] = "arr" -> LET w == [ i \in 1..Len(v[2]) |-> Value(s, v[2][i]) ] IN
                       IF \E i \in 1..Len(w) : w[i] = << "bad" >> THEN << "bad" >> ELSE << "arr", w >>
    [] OTHER -> v

WithSlot(s, i, h) == [ s EXCEPT !.slots = [ j \in 1..(IF Len(s.slots) > i THEN Len(s.slots) ELSE i) |-> IF j = i THEN h ELSE SlotOf(s, j) ] ]

\* a variable keeps the type of what it holds
Rebinds(s, i, d) == SlotOf(s, i) # 0 /\ s.heap[SlotOf(s, i)][1] # d

RECURSIVE PutAll(_, _, _, _, _)
\* fields one after another; << >> when one of them is refused
PutAll(s, heap, d, fields, acc) ==
  IF fields = << >> THEN << acc >>
  ELSE LET x == fields[1] IN
       IF x[1] # "sym" \/ x[3] = << "bad" >> THEN << >>
       ELSE IF ~ CanPut(s, heap, d, x[2], x[3]) THEN << >>
       ELSE PutAll(s, heap, d, SubSeq(fields, 2, Len(fields)), Assign(acc, x[2], x[3]))

New(s, i, name, fields) ==
  LET d == Cur(s, name)
      fs == [ k \in 1..Len(fields) |-> << fields[k][1], fields[k][2], Value(s, fields[k][3]) >> ]
  IN IF d = 0 THEN << s, "err" >>
     ELSE LET r == PutAll(s, s.heap, d, fs, << >>) IN
          IF r = << >> \/ Rebinds(s, i, d) THEN << s, "err" >>
          ELSE << WithSlot([ s EXCEPT !.heap = Append(@, << d, r[1] >>) ], i, Len(s.heap) + 1), "ok" >>

\* ---- writes
RECURSIVE Walk(_, _, _)
Walk(s, h, path) ==
  IF h = 0 \/ path = << >> THEN h
  ELSE LET i == Find(s.heap[h][2], path[1]) IN
       IF i = 0 THEN 0
       ELSE LET v == s.heap[h][2][i][2] IN IF v[1] \in {"inst", "pinst"} THEN Walk(s, v[2], SubSeq(path, 2, Len(path))) ELSE 0

Put(s, h, f, v) ==
  IF v = << "bad" >> \/ h = 0 THEN << s, "err" >>
  ELSE IF ~ CanPut(s, s.heap, s.heap[h][1], f, v) THEN << s, "err" >>
  ELSE << [ s EXCEPT !.heap[h][2] = Assign(@, f, v) ], "ok" >>

\* *p = v takes the place of what p points to, if it has the type
Overwrite(s, h, g) ==
  IF h = 0 \/ g = 0 THEN << s, "err" >>
  ELSE IF s.heap[h][1] # s.heap[g][1] THEN << s, "err" >>
  ELSE << [ s EXCEPT !.heap[h][2] = s.heap[g][2] ], "ok" >>

\* ---- encoding: a record, its type by name, its fields
RECURSIVE Tree(_, _)
Tree(s, v) ==
  CASE v[1] = "inst" -> LET x == s.heap[v[2]] IN << "rec", s.decls[x[1]][1], [ i \in 1..Len(x[2]) |-> << x[2][i][1], Tree(s, x[2][i][2]) >> ] >>
    [] v[1] = "arr" -> << "arr", [ i \in 1..Len(v[2]) |-> Tree(s, v[2][i]) ] >>
    [] OTHER -> v
RECURSIVE Opaque(_)
Opaque(t) == CASE t[1] = "rec" -> \E i \in 1..Len(t[3]) : Opaque(t[3][i][2])
               [] t[1] = "arr" -> \E i \in 1..Len(t[2]) : Opaque(t[2][i])
               [] t[1] \in {"nil", "b"} -> FALSE
               [] OTHER -> TRUE
RECURSIVE Unknown(_, _)
Unknown(s, t) == CASE t[1] = "rec" -> Cur(s, t[2]) = 0 \/ \E i \in 1..Len(t[3]) : Unknown(s, t[3][i][2])
                   [] t[1] = "arr" -> \E i \in 1..Len(t[2]) : Unknown(s, t[2][i])
                   [] OTHER -> FALSE
\* decoding: << heap, value >>, with the definitions in force now; << >> when something is refused
RECURSIVE Build(_, _, _)
RECURSIVE BuildSeq(_, _, _, _)
BuildSeq(s, heap, ts, acc) ==
  IF ts = << >> THEN << heap, acc >>
  ELSE LET r == Build(s, heap, ts[1]) IN
       IF r = << >> THEN << >> ELSE BuildSeq(s, r[1], SubSeq(ts, 2, Len(ts)), Append(acc, r[2]))
Build(s, heap, t) ==
  CASE t[1] = "rec" ->
         LET r == BuildSeq(s, heap, [ i \in 1..Len(t[3]) |-> t[3][i][2] ], << >>) IN
         IF r = << >> THEN << >>
         ELSE LET d == Cur(s, t[2])
                  p == PutAll(s, r[1], d, [ i \in 1..Len(t[3]) |-> << "sym", t[3][i][1], r[2][i] >> ], << >>) IN
              IF p = << >> THEN << >> ELSE << Append(r[1], << d, p[1] >>), << "inst", Len(r[1]) + 1 >> >>
    [] t[1] = "arr" -> LET r == BuildSeq(s, heap, t[2], << >>) IN IF r = << >> THEN << >> ELSE << r[1], << "arr", r[2] >> >>
    [] OTHER -> << heap, t >>
Decode(s, i, t) ==
  LET r == Build(s, s.heap, t) IN
  IF r = << >> THEN << s, "err" >>
  ELSE IF Rebinds(s, i, r[1][r[2][2]][1]) THEN << s, "err" >>
  ELSE << WithSlot([ s EXCEPT !.heap = r[1] ], i, r[2][2]), "ok" >>

Stop(s) == << s, "stop" >>

\* what an operation does: << state, "ok" | "err" | "any" | "stop" >>
Do(s, o) ==
  CASE o[1] = "decl" -> Declare(s, o[2], o[3])
    [] o[1] = "new" -> New(s, o[2], o[3], o[4])
    [] o[1] = "set" -> Put(s, Walk(s, SlotOf(s, o[2]), o[3]), o[4], Value(s, o[5]))
    [] o[1] = "setbad" -> << s, "err" >>            \* under a key that is no symbol
    [] o[1] = "del" -> IF SlotOf(s, o[2]) = 0 THEN << s, "err" >>
                       ELSE << [ s EXCEPT !.heap[SlotOf(s, o[2])][2] = Without(@, o[3]) ], "any" >>
    [] o[1] = "copy" -> Overwrite(s, Walk(s, SlotOf(s, o[2]), o[3]), SlotOf(s, o[4]))
    [] o[1] = "ptrset" ->                           \* through a pointer to what the field holds
         LET h == SlotOf(s, o[2])  v == Value(s, o[4]) IN
         IF h = 0 \/ v = << "bad" >> THEN << s, "err" >>
         ELSE IF Find(s.heap[h][2], o[3]) = 0 THEN << s, "err" >>
         ELSE IF Accepts(s.heap, FieldType(s, s.heap[h][1], o[3]), v) THEN Stop(s)
         ELSE << s, "any" >>
    [] o[1] = "snap" -> LET h == SlotOf(s, o[2]) IN
                        IF h = 0 THEN << [ s EXCEPT !.snaps = Append(@, << "oth", "none" >>) ], "any" >>
                        ELSE << [ s EXCEPT !.snaps = Append(@, Tree(s, << "inst", h >>)) ], "any" >>
    [] o[1] = "dec" -> IF o[3] > Len(s.snaps) THEN << s, "err" >>
                       ELSE IF s.snaps[o[3]] = << "oth", "none" >> THEN << s, "err" >>
                       ELSE IF Opaque(s.snaps[o[3]]) \/ Unknown(s, s.snaps[o[3]]) THEN Stop(s)
                       ELSE Decode(s, o[2], s.snaps[o[3]])
    [] o[1] = "foreign" -> IF Unknown(s, o[3]) THEN Stop(s) ELSE Decode(s, o[2], o[3])

\* ---- what one sees of an instance
RECURSIVE Same(_, _, _)
Same(s, v, x) ==
  CASE v[1] = "inst" -> /\ x[1] = "inst" /\ x[2] = s.decls[s.heap[v[2]][1]][1]
                        /\ Len(x[3]) = Len(s.heap[v[2]][2])
                        /\ \A i \in 1..Len(s.heap[v[2]][2]) :
                             LET j == Find(x[3], s.heap[v[2]][2][i][1]) IN j # 0 /\ Same(s, s.heap[v[2]][2][i][2], x[3][j][2])
    [] v[1] = "pinst" -> x[1] = "ptr"
    [] v[1] = "arr" -> x[1] = "arr" /\ Len(x[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Same(s, v[2][i], x[2][i])
    [] v[1] = "b" -> x[1] = "b" /\ x[2] = v[2] /\ x[3] = v[3]
    [] OTHER -> x[1] = v[1]
Seen(s, obs) == \A i \in 1..Len(obs) : IF SlotOf(s, i) = 0 THEN obs[i][1] = "none" ELSE Same(s, << "inst", SlotOf(s, i) >>, obs[i])

\* the property: every instance, all the time
Typed(s) == \A h \in 1..Len(s.heap) : \A i \in 1..Len(s.heap[h][2]) :
              CanPut(s, s.heap, s.heap[h][1], s.heap[h][2][i][1], s.heap[h][2][i][2])
Start == [ decls |-> << >>, cur |-> << >>, heap |-> << >>, slots |-> << >>, snaps |-> << >> ]
=============================================================================
