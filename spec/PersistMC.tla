----------------------------- MODULE PersistMC -----------------------------
(* All histories of a few objects and files under three ways to write an     *)
(* object that came from a file: "own" writes the numbers it holds, "copy"   *)
(* copies the source file after reading it completely, "truncate" opens the  *)
(* output before it reads the source.                                        *)
EXTENDS Persist
CONSTANTS Mode, MaxData
VARIABLES files, objs, made, fresh, act
vars == <<files, objs, made, fresh, act>>
Lost == 99
Fs == 1..2
Os == 1..2
Init == /\ files = [f \in Fs |-> None] /\ objs = [o \in Os |-> NoObj]
        /\ made = {} /\ fresh = [o \in Os |-> FALSE] /\ act = <<"init">>
Make(o) == /\ Cardinality(made) < MaxData
           /\ LET d == Cardinality(made) + 1 IN
              /\ made' = made \cup {d} /\ objs' = [objs EXCEPT ![o] = MadeObj(d)]
              /\ fresh' = [fresh EXCEPT ![o] = TRUE]
           /\ act' = <<"make", o>> /\ UNCHANGED files
Out(o, f) == LET ob == objs[o] IN
  IF ob.src = 0 \/ Mode = "own" THEN ob.data
  ELSE IF Mode = "truncate" /\ ob.src = f THEN Lost
  ELSE files[ob.src]
Write(o, f) == /\ objs[o].data # None
               /\ files' = [files EXCEPT ![f] = Out(o, f)]
               /\ fresh' = [p \in Os |-> fresh[p] /\ (objs[p].src # f \/ objs[p].data = Out(o, f))]
               /\ act' = <<"write", o, f>> /\ UNCHANGED <<objs, made>>
Read(o, f) == /\ files[f] # None
              /\ objs' = [objs EXCEPT ![o] = ReadObj(files, f)]
              /\ fresh' = [fresh EXCEPT ![o] = TRUE]
              /\ act' = <<"read", o, f>> /\ UNCHANGED <<files, made>>
Next == \E o \in Os : Make(o) \/ \E f \in Fs : Write(o, f) \/ Read(o, f)
Spec == Init /\ [][Next]_vars

\* nothing but complete data sets is ever in a file or an object
Integrity == /\ \A f \in Fs : files[f] \in made \cup {None}
             /\ \A o \in Os : objs[o].data \in made \cup {None}
\* a write changes only its file, to an admissible value; for an object whose
\* source is as it was read that is exactly what the object holds
WriteOK == [][act'[1] = "write" =>
                LET o == act'[2] f == act'[3] IN
                /\ \A g \in Fs \ {f} : files'[g] = files[g]
                /\ files'[f] \in WriteResults(files, objs[o])
                /\ fresh[o] => files'[f] = objs[o].data]_vars
ReadOK == [][act'[1] \in {"read", "make"} => files' = files]_vars
=============================================================================
