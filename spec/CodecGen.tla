------------------------------ MODULE CodecGen ------------------------------
(* Every value up to a shape bound: the text and the bytes of Codec.tla denote *)
(* it and nothing else, and decoding gives it back.  The same values go        *)
(* through the real encoders and decoders.                                     *)
EXTENDS Codec, TLC, Json, IOUtils, SequencesExt
RANCH == << 114, 97, 110, 99, 104 >>
Strs == { << >>, << 97 >>, << DQ >>, << BSL >>, << BSL, 110 >>, << NL >>, << 0, 7 >>, << 127 >>, << 233 >>, << 8232 >>, << 128512 >>, << SQ, cColon >>, << BT >>, << cLt, cAmp >>, << 110, 105, 108 >> }
Nums == { << "int", 0, Zero >>, << "int", 1, << 1 >> >>, << "int", 0, << 7 >> >>, << "int", 1, Two(63) >>, << "int", 0, Sub(Two(63), << 1 >>) >>, << "int", 0, Two(53) >>, << "u64", << 7 >> >>, << "u64", Sub(Two(64), << 1 >>) >>, << "u64", Two(63) >>,
          << "float", "fin", 0, << 1 >>, -1 >>, << "float", "fin", 1, << 3 >>, -3 >>, << "float", "fin", 0, << 1 >>, 0 >>, << "float", "fin", 0, << 1 >>, 70 >>, << "float", "fin", 0, Zero, 0 >> }
Atoms == Nums \cup { << "str", s >> : s \in Strs } \cup { << "bool", 1 >>, << "bool", 0 >>, << "nil" >> }
Few == { << "int", 1, << 1 >> >>, << "nil" >>, << "str", << DQ >> >>, << "str", << >> >>, << "bool", 1 >> }
Keys == { << "sym", << 97 >> >>, << "sym", << 98 >> >>, << "sym", << >> >>, << "sym", << 955 >> >>, << "sym", << DQ, BSL >> >>, << "str", << 99 >> >>, << "str", << NL, DQ >> >>, << "str", << 97, cColon >> >> }
KFew == { << "sym", << 98 >> >>, << "sym", << 97 >> >>, << "str", << DQ >> >> }
Types == { HASHs, RANCH }
Seqs(S) == { << >> } \cup { << a >> : a \in S } \cup { << a, b >> : a \in S, b \in S }
Arr(S) == { << "arr", q >> : q \in Seqs(S) }
Recs(T, K, S) == { << "rec", t, << >> >> : t \in T } \cup { << "rec", t, << << k, a >> >> >> : t \in T, k \in K, a \in S }
                 \cup { << "rec", t, << << p[1], a >>, << p[2], b >> >> >> : t \in T, p \in { q \in K \X K : q[1] # q[2] }, a \in S, b \in S }
D1 == Arr(Few) \cup Recs(Types, KFew, Few) \cup Recs(Types, Keys, { << "int", 1, << 1 >> >>, << "str", << BSL >> >> }) \cup { << "arr", << a >> >> : a \in Atoms } \cup { << "rec", HASHs, << << << "sym", << 97 >> >>, a >> >> >> : a \in Atoms }
Inner == Arr({ << "nil" >>, << "str", << DQ >> >> }) \cup Recs(Types, { << "sym", << 98 >> >>, << "sym", << 97 >> >> }, { << "int", 0, << 7 >> >> })
D2 == Arr(Inner) \cup Recs(Types, { << "sym", << 122 >> >>, << "sym", << 97 >> >> }, Inner)
Three == { << "rec", t, << << p[1], << "int", 0, << 7 >> >> >>, << p[2], << "nil" >> >>, << p[3], << "rec", RANCH, << << p[2], << "bool", 0 >> >>, << p[1], << "arr", << >> >> >> >> >> >> >> >> : t \in Types,
             p \in { q \in (KFew \cup { << "sym", << 122 >> >> }) \X (KFew \cup { << "sym", << 122 >> >> }) \X KFew : q[1] # q[2] /\ q[2] # q[3] /\ q[1] # q[3] } }
Vals == Atoms \cup D1 \cup D2 \cup Three
Out == IOEnv.ZV_OUT = "" \/ ndJsonSerialize(IOEnv.ZV_OUT, SetToSeq(Vals))
ASSUME Out
VARIABLES v, done
Init == done = FALSE /\ v \in Vals
Next == ~ done /\ done' = TRUE /\ v' = v
Spec == Init /\ [][Next]_<< v, done >>
\* string keys come back as symbols
RoundTrip == done => LET j == Parse(TextOf(v))  m == ParseM(BytesOf(v)) IN
  /\ j[1] = 1 /\ Denotes(v, j[2]) /\ Equal(v, DecodeV(j[2]))
  /\ m[1] = 1 /\ Denotes(v, m[2]) /\ Equal(v, DecodeV(m[2]))
Rivals == Atoms \cup Arr(Few) \cup Recs(Types, KFew, { << "nil" >> })
\* no text is the text of two different values
Unique == done /\ v \in Rivals => LET j == DecodeV(Parse(TextOf(v))[2]) IN \A w \in Rivals : Equal(w, j) => Equal(w, v) \/ (w[1] = "rec" /\ v[1] = "rec" /\ Names(w[3]) = Names(v[3]))
\* a text with something left out is no text, or another one
Cut == done /\ v[1] \in {"arr", "rec"} => LET t == TextOf(v) IN Parse(SubSeq(t, 1, Len(t) - 1))[1] = 0 /\ Parse(Append(t, cRC))[1] = 0 /\ Parse(Rest(t, 2))[1] = 0
=============================================================================
