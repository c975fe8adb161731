------------------------------ MODULE Singleton ------------------------------
(* First uses of a singleton by several threads. At most one thread is at       *)
(* creating the instance; it calls the constructor once (an instance held in a  *)
(* static variable is constructed once for good), has its destruction scheduled *)
(* once, and everybody gets that instance, and only when it is complete.        *)
EXTENDS Conc
VARIABLES static,  \* the instance lives in a static variable of a function
          dead,    \* the instance was destroyed, and nobody has created another one since
          obj,     \* the instance (its serial number) or 0
          made,    \* the constructed instance of a static variable or 0
          mk, st,  \* the thread that creates, and how far it is: "", back (after a use of a dead one), make, made
          got      \* what the calls got: an instance, -1 (the constructor failed), -2 (destroyed)
obs == <<static, dead, obj, made, mk, st, got>>
IsGet(t) == Waiting(t) /\ pend[t].f = "get"
Give(t, v) == Done(t, TRUE) /\ got' = [got EXCEPT ![t] = v]
\* The instance exists already, or another thread has just completed it
Effect(t) ==
  /\ UNCHANGED now
  /\ \/ IsGet(t) /\ obj # 0 /\ mk # t /\ Give(t, obj) /\ UNCHANGED <<static, dead, obj, made, mk, st>>
     \* a static variable still holds the instance
     \/ /\ IsGet(t) /\ static /\ made # 0 /\ obj = 0 /\ ((mk = 0 /\ ~dead) \/ (mk = t /\ st = "back"))
        /\ obj' = made /\ mk' = t /\ st' = "made" /\ UNCHANGED <<static, dead, made, got, pend>>
\* Destroyed: the policy decides
Revive(t) == IsGet(t) /\ obj = 0 /\ dead /\ mk = 0 /\ dead' = FALSE /\ mk' = t /\ st' = "back" /\ UNCHANGED <<static, obj, made, got, pend>>
Fail(t) == IsGet(t) /\ obj = 0 /\ dead /\ mk = 0 /\ Give(t, -2) /\ UNCHANGED <<static, dead, obj, made, mk, st>>
Begin(t) == /\ IsGet(t) /\ obj = 0 /\ made = 0 /\ ((mk = 0 /\ ~dead) \/ (mk = t /\ st = "back"))
            /\ mk' = t /\ st' = "make" /\ UNCHANGED <<static, dead, obj, made, got, pend>>
\* The constructor failed: there is still no instance (whether one was destroyed before may or may not be remembered)
Throw(t, was) == /\ mk = t /\ st = "make" /\ mk' = 0 /\ st' = "" /\ Give(t, -1) /\ dead' \in {dead, was} /\ UNCHANGED <<static, obj, made>>
Complete(t, no) == /\ mk = t /\ st = "make" /\ st' = "made" /\ obj' = no /\ made' = (IF static THEN no ELSE 0)
                   /\ UNCHANGED <<static, dead, mk, got, pend>>
Schedule(t) == mk = t /\ st = "made" /\ mk' = 0 /\ st' = "" /\ Give(t, obj) /\ UNCHANGED <<static, dead, obj, made>>
\* The scheduled function
Destroy(t) == /\ Waiting(t) /\ pend[t].f = "destroy" /\ obj # 0 /\ mk = 0 /\ (\A u \in Threads \ {t} : pend[u] = NoCall)
              /\ obj' = 0 /\ dead' = TRUE /\ Done(t, TRUE) /\ UNCHANGED <<static, made, mk, st, got>>
Held(t) == IsGet(t) /\ mk # 0
Resting == \A t \in Threads : pend[t] = NoCall \/ Held(t)
=============================================================================
