------------------------------ MODULE NativeMC ------------------------------
(* Small problems (recorded descriptions and points): where data act.         *)
EXTENDS Native, Json
CONSTANTS Depth, Vals
Descs == ndJsonDeserialize("descs.ndjson")     \* records [init, w]
VARIABLES w, last, n
mcVars == <<natVars, w, last, n>>
MCInit == \E q \in 1..Len(Descs) : Create(Descs[q].init) /\ w = Descs[q].w /\ last = [op |-> "none"] /\ n = 0
MCNext ==
    /\ n < Depth /\ n' = n + 1 /\ UNCHANGED w
    /\ \/ \E i \in 0..N(nlp), v \in Vals : \E k \in 1..Len(st[i + 1].p) :
            SetSparse(i, <<k - 1>>, <<v>>) /\ last' = [op |-> "sparse", i |-> i, k |-> k, v |-> v]
       \/ \E v \in Vals : LET a == Flatten1([r \in 1..Len(st) |-> [k \in 1..Len(st[r].p) |-> v + k]]) IN
            SetFlatP(a) /\ last' = [op |-> "flat", i |-> -1, k |-> 0, v |-> v]
       \/ \E v \in Vals : pg # <<>> /\ SetGlobal([pg EXCEPT ![1] = v]) /\ last' = [op |-> "pg", i |-> -1, k |-> 0, v |-> v]
MCSpec == MCInit /\ [][MCNext]_mcVars
(* a stage's parameters act at that stage only, one entry changes one entry *)
Local == [][last'.op = "sparse" =>
              \A k \in 0..N(nlp) : k # last'.i => st'[k + 1] = st[k + 1]]_mcVars
(* the data determine what is computed: nothing of the history is left *)
Written == last.op = "sparse" => st[last.i + 1].p[last.k] = last.v
(* a phase cut in two is the same problem *)
CutAt(m, k) == [m EXCEPT !.phases = <<m.phases[1], m.phases[1]>>, !.Ns = <<k, m.Ns[1] - k>>]
Concat == Len(nlp.Ns) = 1 => \A k \in 1..(nlp.Ns[1] - 1) : LET m == CutAt(nlp, k) IN
              \A i \in 0..N(nlp) : DD(m, i) = DD(nlp, i) /\ StageData(m, i) = StageData(nlp, i)
(* every stage has one phase, phases follow each other *)
Order == \A i \in 1..N(nlp) : PhaseOf(nlp, i) \in {PhaseOf(nlp, i - 1), PhaseOf(nlp, i - 1) + 1}
Lengths == \A k \in 1..Len(nlp.Ns) : Cardinality({i \in 0..(N(nlp) - 1) : PhaseOf(nlp, i) = k}) = nlp.Ns[k]
=============================================================================
