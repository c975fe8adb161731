----------------------------- MODULE ExitOrder -----------------------------
(* Singletons of one thread up to the end of the program: each is created by    *)
(* its first use; at the end those whose policy says so are destroyed in the    *)
(* reverse order of their creation; using a destroyed one fails, or creates     *)
(* another one. Constructors and destructors may use other singletons.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"newdef", "newkeep", "statdef", "statkeep", "maldef", "malkeep", "newphx"}  \* phx: another one is created
CONSTANTS K
VARIABLES kind,     \* of each singleton 1..K
          up,       \* there is an instance
          dead,     \* it was destroyed
          made,     \* the static variable was constructed: "", "yes", "over"
          exits,    \* what is to be done at the end, last one first: <<"kill" or "static", k>>
          frames,   \* uses, constructors and destructors in progress, innermost first
          phase     \* main, exit, over
vars0 == <<kind, up, dead, made, exits, frames, phase>>
Static(k) == kind[k] \in {"statdef", "statkeep"}
Alloc(k) == kind[k] \in {"maldef", "malkeep"}       \* no constructor, no destructor
Keep(k) == kind[k] \in {"newkeep", "statkeep", "malkeep"}
Again(k) == dead[k] => Keep(k) \/ kind[k] = "newphx"
Push(f) == frames' = <<f>> \o frames
Top == IF frames = <<>> THEN <<"none", 0>> ELSE Head(frames)
Init0(kd) == /\ kind = kd /\ up = [k \in DOMAIN kd |-> FALSE] /\ dead = up /\ made = [k \in DOMAIN kd |-> ""]
             /\ exits = <<>> /\ frames = <<>> /\ phase = "main"
\* Nobody uses what is being constructed, destroyed or used for the first time at that moment
Free(k) == \A i \in 1..Len(frames) : frames[i][2] # k
Use(k) == Free(k) /\ Push(<<"use", k>>) /\ UNCHANGED <<kind, up, dead, made, exits, phase>>
Begin(k) == /\ Top = <<"use", k>> /\ ~up[k] /\ Again(k) /\ ~Alloc(k) /\ made[k] = ""
            /\ Push(<<"make", k>>) /\ UNCHANGED <<kind, up, dead, made, exits, phase>>
End(k) == /\ Top = <<"make", k>> /\ frames' = Tail(frames)
          /\ IF Static(k) THEN made' = [made EXCEPT ![k] = "yes"] /\ exits' = <<<<"static", k>>>> \o exits
             ELSE made' = [made EXCEPT ![k] = "new"] /\ UNCHANGED exits
          /\ UNCHANGED <<kind, up, dead, phase>>
\* The use ends: with the instance there is, with the one it has created, or in vain
Give(k, how) ==
  /\ Top = <<"use", k>> /\ frames' = Tail(frames) /\ UNCHANGED <<kind, phase>>
  /\ CASE how = "old" -> up[k] /\ UNCHANGED <<up, dead, made, exits>>
       [] how = "dead" -> ~up[k] /\ dead[k] /\ ~Again(k) /\ UNCHANGED <<up, dead, made, exits>>
       [] OTHER -> /\ ~up[k] /\ Again(k) /\ (Alloc(k) \/ made[k] # "")
                   /\ up' = [up EXCEPT ![k] = TRUE] /\ dead' = [dead EXCEPT ![k] = FALSE]
                   /\ made' = (IF Static(k) THEN made ELSE [made EXCEPT ![k] = ""])
                   /\ exits' = (IF Keep(k) THEN exits ELSE <<<<"kill", k>>>> \o exits)
Exit == phase = "main" /\ frames = <<>> /\ phase' = "exit" /\ UNCHANGED <<kind, up, dead, made, exits, frames>>
Next1 == IF exits = <<>> THEN <<"none", 0>> ELSE Head(exits)
\* Without a destructor that could be seen
Silent == /\ phase = "exit" /\ frames = <<>> /\ Next1[1] = "kill"
          /\ LET k == Next1[2] IN
             /\ Static(k) \/ Alloc(k)
             /\ up' = [up EXCEPT ![k] = FALSE] /\ dead' = [dead EXCEPT ![k] = TRUE]
             /\ exits' = Tail(exits) /\ UNCHANGED <<kind, made, frames, phase>>
Dtor(k) == /\ phase = "exit" /\ frames = <<>>
           /\ \/ Next1 = <<"kill", k>> /\ ~Static(k) /\ ~Alloc(k) /\ UNCHANGED made
              \/ Next1 = <<"static", k>> /\ made' = [made EXCEPT ![k] = "over"]
           /\ exits' = Tail(exits) /\ Push(<<"unmake", k>>) /\ UNCHANGED <<kind, up, dead, phase>>
DtorEnd(k) == /\ Top = <<"unmake", k>> /\ frames' = Tail(frames)
              /\ IF Static(k) THEN UNCHANGED <<up, dead>>
                 ELSE up' = [up EXCEPT ![k] = FALSE] /\ dead' = [dead EXCEPT ![k] = TRUE]
              /\ UNCHANGED <<kind, made, exits, phase>>
Over == phase = "exit" /\ exits = <<>> /\ frames = <<>> /\ phase' = "over" /\ UNCHANGED <<kind, up, dead, made, exits, frames>>
=============================================================================
