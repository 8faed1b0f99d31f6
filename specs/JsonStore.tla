------------------------------ MODULE JsonStore ------------------------------
(***************************************************************************)
(* A problem description and its JSON file.                                *)
(*                                                                         *)
(* obj     content of the description in hand                              *)
(* file    content at the last writing (written: there was one)            *)
(* loaded  content of the description last read (read: there was one)      *)
(*                                                                         *)
(* A content is [tok, num]: what is no array of numbers, and the arrays    *)
(* (shape s, entries d as integers in a fixed unit), by field.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES obj, file, written, loaded, read

NoContent == [tok |-> <<>>, num |-> <<>>]

Init == obj = NoContent /\ file = NoContent /\ written = FALSE /\ loaded = NoContent /\ read = FALSE

New(c) == obj' = c /\ UNCHANGED <<file, written, loaded, read>>
(* any consistent change of the description in hand leaves file and loaded alone *)
Change(c) == obj' = c /\ UNCHANGED <<file, written, loaded, read>>
Dump == file' = obj /\ written' = TRUE /\ UNCHANGED <<obj, loaded, read>>
Load == written /\ loaded' = file /\ read' = TRUE /\ UNCHANGED <<obj, file, written>>
(* the description that was read takes the place of the one in hand *)
Swap == read /\ obj' = loaded /\ read' = FALSE /\ loaded' = NoContent /\ UNCHANGED <<file, written>>

(* what was read is written: the file has its content *)
Redump == read /\ file' = loaded /\ UNCHANGED <<obj, written, loaded, read>>

(* equality of descriptions is equality of content, arrays up to a tolerance *)
Near(a, b, tol) == a.s = b.s /\ Len(a.d) = Len(b.d)
                   /\ (\A k \in 1..Len(a.d): LET e == a.d[k] - b.d[k] IN e <= tol /\ -e <= tol)
Same(a, b, tol) == a.tok = b.tok /\ DOMAIN a.num = DOMAIN b.num
                   /\ (\A f \in DOMAIN a.num: Near(a.num[f], b.num[f], tol))
Reusable(tol) == written /\ Same(obj, file, tol)
=============================================================================
