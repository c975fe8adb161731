---------------------------- MODULE ExitOrderMC ----------------------------
(* All programs of K singletons: kinds, uses in main, and which other singleton *)
(* each constructor and destructor uses.                                        *)
EXTENDS ExitOrder, Json
CONSTANTS MaxUse
VARIABLES ctor, dtor, uses, done, order, ended
vars == <<vars0, ctor, dtor, uses, done, order, ended>>
Ks == 1..K
MInit == /\ \E kd \in [Ks -> Kinds] : Init0(kd)
         \* a constructor uses a singleton with a greater number only
         /\ ctor \in [Ks -> 0..K] /\ (\A k \in Ks : ctor[k] = 0 \/ ctor[k] > k)
         /\ dtor \in [Ks -> 0..K] /\ (\A k \in Ks : dtor[k] # k)
         \* two destructors must not create each other's singleton forever
         /\ (\E k \in Ks : kind[k] = "newphx") => \A k \in Ks : dtor[k] = 0 \/ dtor[k] > k
         /\ uses = <<>> /\ done = {} /\ order = <<>> /\ ended = <<>>
\* What a constructor or destructor in progress still has to do
Inner(k, tab) == tab[k] # 0 /\ Len(frames) \notin done /\ Free(tab[k])
InUse(k, tab) == Inner(k, tab) /\ Use(tab[k]) /\ done' = done \cup {Len(frames)} /\ UNCHANGED <<order, ended>>
Leave == done' = done \ {Len(frames)}
Next == /\ UNCHANGED <<ctor, dtor>>
        /\ \/ \E k \in Ks : phase = "main" /\ frames = <<>> /\ Len(uses) < MaxUse /\ Use(k) /\ uses' = Append(uses, k) /\ UNCHANGED <<done, order, ended>>
           \/ UNCHANGED uses /\ \E k \in Ks :
              \/ Begin(k) /\ UNCHANGED <<done, order, ended>>
              \/ Top = <<"make", k>> /\ IF Inner(k, ctor) THEN InUse(k, ctor) ELSE End(k) /\ Leave /\ order' = Append(order, k) /\ UNCHANGED ended
              \/ (\E how \in {"old", "new", "dead"} : Give(k, how)) /\ UNCHANGED <<done, order, ended>>
              \/ Dtor(k) /\ UNCHANGED <<done, order, ended>>
              \/ Top = <<"unmake", k>> /\ IF Inner(k, dtor) THEN InUse(k, dtor) ELSE DtorEnd(k) /\ Leave /\ ended' = Append(ended, k) /\ UNCHANGED order
           \/ UNCHANGED <<uses, done, order, ended>> /\ (Exit \/ Silent \/ Over)
Spec == MInit /\ [][Next]_vars
Count(s, k) == Cardinality({i \in 1..Len(s) : s[i] = k})
\* At the end: what was created and not kept is destroyed, once for each creation; without uses in destructors in reverse order
AtEnd == phase = "over" =>
  /\ \A k \in Ks : Count(ended, k) = (IF kind[k] = "newkeep" THEN 0 ELSE Count(order, k))
  /\ (\A k \in Ks : dtor[k] = 0 /\ kind[k] # "newkeep") => ended = [i \in 1..Len(order) |-> order[Len(order) + 1 - i]]
\* What is there is complete
Complete == \A k \in Ks : up[k] /\ kind[k] \in {"newdef", "newkeep", "newphx"} => Count(order, k) > Count(ended, k)
PrintEnd == phase' = "over" => PrintT(ToJson([E |-> [s |-> 0, t |-> 0, e |-> [op |-> "prog", kind |-> kind, ctor |-> ctor, dtor |-> dtor, uses |-> uses]]]))
=============================================================================
