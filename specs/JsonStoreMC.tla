---------------------------- MODULE JsonStoreMC ----------------------------
(* all histories over two fields: reading gives what was written last, whatever happened to the object *)
EXTENDS JsonStore
VARIABLE hist
Contents == {[tok |-> [a |-> t], num |-> [b |-> [s |-> <<1>>, d |-> <<k>>]]]: t \in {"p", "q"}, k \in 0..2}
MCInit == Init /\ hist = <<>>
MCNext == \/ (\E c \in Contents: Change(c)) /\ hist' = hist
          \/ Dump /\ hist' = <<obj>>
          \/ Load /\ hist' = hist
          \/ Swap /\ hist' = hist
Spec == MCInit /\ [][MCNext]_<<obj, file, written, loaded, read, hist>>
FileIsLast == written => hist # <<>> /\ file = hist[Len(hist)]
ReuseIsSound == Reusable(0) => obj = file
ReuseIsMonotone == \A t \in 0..2: (Reusable(t) => Reusable(t + 1))
RoundTrip == [][(Swap /\ file = loaded) => obj' = file]_<<obj, file, written, loaded, read, hist>>
=============================================================================
