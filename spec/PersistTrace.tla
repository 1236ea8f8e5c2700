---------------------------- MODULE PersistTrace ----------------------------
(* Validates recorded scripts.  After every operation the driver logs what   *)
(* each object holds, what a fresh reader finds in each file, and the raw    *)
(* contents of the files before and after those readers ran; all as tokens.  *)
EXTENDS Persist, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)   \* kind, fmt, steps: [op, o, f, d, objs, files, raw, raw2]
VARIABLES t, i, files, objs, raw, verdict
vars == <<t, i, files, objs, raw, verdict>>
Fs == 1..NFiles
Os == 1..NObjs
Init == /\ t \in DOMAIN Traces /\ i = 1 /\ verdict = "ok"
        /\ files = [f \in Fs |-> None] /\ raw = [f \in Fs |-> None]
        /\ objs = [o \in Os |-> NoObj]
S == Traces[t].steps[i]
Op == /\ verdict = "ok" /\ i <= Len(Traces[t].steps)
      /\ LET s == S
             ob == IF s.op \in {"write"} THEN objs[s.o] ELSE NoObj
             want == CASE s.op = "make"  -> [objs EXCEPT ![s.o] = MadeObj(s.d)]
                       [] s.op = "read"  -> [objs EXCEPT ![s.o] = ReadObj(files, s.f)]
                       [] OTHER -> objs
         IN
         /\ Assert(s.op \in {"make", "read", "write", "plant"}, <<"driver", t, i>>)
         /\ Assert(s.op = "write" => ob.data # None, <<"driver", t, i>>)
         /\ Assert(s.op = "read" => files[s.f] # None, <<"driver", t, i>>)
         /\ objs' = want
         /\ files' = s.files /\ raw' = s.raw
         /\ verdict' =
              IF s.op = "read" /\ s.objs[s.o] # want[s.o].data THEN "read numbers differ from the written ones"
              ELSE IF \E o \in Os : s.objs[o] # want[o].data THEN "an object changed"
              ELSE IF \E f \in Fs : s.raw2[f] # s.raw[f] THEN "reading changed a file"
              ELSE IF s.op = "write" /\ s.files[s.f] \notin WriteResults(files, ob) THEN "written numbers differ from those of the object"
              ELSE IF s.op = "plant" /\ s.files[s.f] # s.d THEN "numbers read from a file differ from those in it"
              ELSE IF s.op \in {"make", "read"} /\ s.raw # raw THEN "a file changed without being written"
              ELSE IF s.op \in {"write", "plant"} /\ \E f \in Fs \ {s.f} : s.raw[f] # raw[f] THEN "a file changed without being written"
              ELSE IF \E f \in Fs : (s.op \notin {"write", "plant"} \/ f # s.f) /\ s.files[f] # files[f] THEN "an untouched file reads differently"
              ELSE "ok"
      /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Op]_vars
NoViolation == verdict = "ok"
=============================================================================
