----------------------------- MODULE ParamStoreMC -----------------------------
(* all histories over two parameters, horizons up to 3 and values 0, 1, 2     *)
EXTENDS ParamStore
CONSTANT MaxN
P == <<[name |-> "a", r |-> 2, c |-> 1, def |-> <<<<0>>, <<0>>>>], [name |-> "b", r |-> 1, c |-> 1, def |-> <<<<0>>>>]>>
VARIABLE h
Init == Create(P, 1) /\ h = 0
Vals(j) == IF j = 1 THEN {<<<<1>>, <<2>>>>} ELSE {<<<<1>>>>, <<<<2>>>>}
Next == \/ \E n \in -1..MaxN : SetN(n, TRUE, n >= 0) /\ h' = h
        \/ \E j \in 1..2 : \E v \in Vals(j) : \E i \in 0..MaxN : SetVal(P[j].name, v, P[j].r, P[j].c, 2, i, i <= N) /\ h' = h
Spec == Init /\ [][Next]_<<vars, h>>
(* a write changes one parameter at one stage, a change of the horizon none of the stages that remain *)
Frame == [][/\ \A k \in 1..(IF N < N' THEN N + 1 ELSE N' + 1) : N # N' => val'[k] = val[k]
            /\ N = N' => Cardinality({q \in (1..(N + 1)) \X (1..Len(ps)) : val'[q[1]][q[2]] # val[q[1]][q[2]]}) <= 1]_vars
=============================================================================
