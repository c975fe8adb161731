----------------------------- MODULE LogTextMC -----------------------------
(* Every format up to a length, and every message of a few pieces; printed    *)
(* for replay.                                                                *)
EXTENDS LogText, Json, FiniteSets
CONSTANTS Letters, MaxLen,    \* the formats
          Sizes, MaxPieces    \* the messages
VARIABLES f, ps, fin, what
mvars == <<tvars, f, ps, fin, what>>
M1 == [l |-> 2, s |-> <<115>>, c |-> <<99>>, o |-> <<111>>, d |-> <<100>>, f |-> <<102>>, n |-> 7, t |-> <<116>>]
M0 == [l |-> 0, s |-> <<>>, c |-> <<>>, o |-> <<>>, d |-> <<>>, f |-> <<>>, n |-> 0, t |-> <<>>]
Init == /\ tf = <<115>> /\ now = [s |-> BInt(0), n |-> 5000000] /\ pend = [x \in {} |-> 0]
        /\ f = <<>> /\ fmt = <<>> /\ ps = <<>> /\ fin = "" /\ what = ""
Formats == /\ what \in {"", "f"} /\ what' = "f" /\ Len(f) < MaxLen /\ \E c \in Letters : f' = Append(f, c) /\ fmt' = f'
           /\ UNCHANGED <<tf, now, pend, ps, fin>>
Pieces == /\ what \in {"", "p"} /\ what' = "p" /\ fin = "" /\ Len(ps) < MaxPieces /\ \E k \in Sizes : ps' = Append(ps, k)
                                                                               /\ Write(1, 2, Rep(97 + Len(ps), k))
          /\ UNCHANGED <<f, fin>>
End == /\ what = "p" /\ fin = "" /\ \E x \in {"flush", "endl"} \cup {"printf"} : fin' = x
       /\ UNCHANGED <<tvars, f, ps, what>>
Next == Formats \/ Pieces \/ End
Spec == Init /\ [][Next]_mvars

(* Nothing but what the format asks for: what a format has no field for has no influence. *)
Has(t) == \E i \in 1..Len(f) : f[i] = t
Only == what = "f" => LET x == Parsed(f, 1) IN
  /\ (~Has(Tilde) => Line(M1) = f)
  /\ (\A t \in Types : ~Has(t) => \A i \in 1..Len(x) : x[i].ty # t)
  /\ (~Has(67) => Line([M1 EXCEPT !.c = <<1>>]) = Line(M1)) /\ (~Has(79) => Line([M1 EXCEPT !.o = <<1>>]) = Line(M1))
  /\ (~Has(69) => Line([M1 EXCEPT !.t = <<1>>]) = Line(M1))
(* Fields are independent of one another: the line of a format is that of its parts. *)
Apart == what = "f" => \A i \in 1..Len(f) : f[i] = Tilde =>
           LET a == SubSeq(f, 1, i - 1)  b == SubSeq(f, i, Len(f)) IN
           (~\E j \in 1..(i - 1) : f[j] = Tilde /\ ~\E k \in j..(i - 1) : f[k] \in Types)
             => Parsed(f, 1) = Parsed(a, 1) \o Parsed(b, 1)
(* A message is a prefix of everything written, complete up to the limit, and can always be ended. *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Prefix == what = "p" => /\ Len(Msg(1, 2).t) = (IF Sum(ps) < Room THEN Sum(ps) ELSE Room)
                        /\ Len(Ended(Msg(1, 2)).t) =< Room + 1
View == <<f, ps, fin, what>>
(* What is to be replayed. *)
Out == IF what' = "f" THEN PrintT(ToJson([E |-> [e |-> [op |-> "format", f |-> f']]]))
       ELSE IF fin' # "" THEN PrintT(ToJson([E |-> [e |-> [op |-> "message", p |-> ps', x |-> fin']]])) ELSE TRUE
=============================================================================
