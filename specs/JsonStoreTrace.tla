--------------------------- MODULE JsonStoreTrace ---------------------------
EXTENDS JsonStore, Json
(* texts: the files written so far, with the content each was written for, the text of its expressions, and whether it was written from a description
   that had not been read itself: casadi writes the same expressions in another way after they were read. ftext: the text in the file *)
VARIABLES tid, l, texts, ftext
Traces == ndJsonDeserialize("traces.ndjson")
vars == <<obj, file, written, loaded, read, tid, l, texts, ftext>>
Ev == Traces[tid].ev[l]

Chk(what, want, got) == IF want = got THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", want, "recorded", got>>) /\ FALSE
Fields(c) == DOMAIN c.tok \cup DOMAIN c.num
Get(c, f) == IF f \in DOMAIN c.num THEN <<"array", c.num[f]>> ELSE IF f \in DOMAIN c.tok THEN <<"value", c.tok[f]>> ELSE <<"absent">>
(* the contents agree in every field *)
Agree(what, want, got) == (\A f \in Fields(want) \cup Fields(got): Chk(<<what, f>>, Get(want, f), Get(got, f))) = TRUE

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ texts = {} /\ ftext = ""
(* the same content gives the same file, a different one another hash *)
Written(c) == /\ (\A t \in texts: t.c = c => /\ Agree("file written again", t.f, Ev.f)
                                            /\ (t.own /\ Ev.own => Chk("expressions written again", t.f.text, Ev.f.text))
                                            /\ (t.f.text = Ev.f.text => Chk("hash of the same content", t.f.hash, Ev.f.hash))) = TRUE
              /\ (\A t \in texts: t.c # c => t.f.hash # Ev.f.hash \/ Chk("hash of another content", "another", "the same")) = TRUE
              /\ texts' = texts \cup {[c |-> c, f |-> Ev.f, own |-> Ev.own]} /\ ftext' = Ev.f.text
Keep == texts' = texts /\ ftext' = ftext
(* the file is for the description in hand: required when the expressions are also written in the same way *)
Reuse == IF Ev.verdict THEN Chk("reuse", Reusable(Ev.tol), TRUE)
         ELSE IF Reusable(Ev.tol) THEN Ev.text # ftext \/ Chk("reuse", TRUE, FALSE) ELSE TRUE
Step ==
    /\ l <= Len(Traces[tid].ev)
    /\ (IF Ev.op = "new" THEN TRUE ELSE Chk("raised", "", Ev.err))
    /\ CASE Ev.op = "new" -> New(Ev.c) /\ Keep
         [] Ev.op = "set" -> Change(Ev.c) /\ Keep
         [] Ev.op = "twin" -> Change(Ev.c) /\ Keep
         [] Ev.op = "dump" -> Dump /\ Written(obj)
         [] Ev.op = "load" -> Load /\ Agree("read back", file, Ev.c) /\ Keep
         [] Ev.op = "redump" -> Redump /\ Written(loaded)
         [] Ev.op = "swap" -> Swap /\ Agree("read back, made consistent", obj', Ev.c) /\ Keep
         [] Ev.op = "reuse" -> Reuse /\ Keep /\ UNCHANGED <<obj, file, written, loaded, read>>
    /\ l' = l + 1 /\ tid' = tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][Step \/ Done]_vars
=============================================================================
