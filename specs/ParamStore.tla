------------------------------ MODULE ParamStore ------------------------------
(* Named matrix parameters with one value per stage (AcadosParamManager).     *)
(* ps: sequence of [name, r, c, def]; N: horizon; val[k][j]: value of the     *)
(* j-th parameter at stage k-1.  Matrices are sequences of rows.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ps, N, val
vars == <<ps, N, val>>

Flatten(ss) == LET RECURSIVE F(_) F(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o F(Tail(s)) IN F(ss)
Vec(M, r, c) == Flatten([j \in 1..c |-> [i \in 1..r |-> M[i][j]]])       \* column by column
Defaults(p) == [j \in 1..Len(p) |-> p[j].def]
Create(p, n) == ps = p /\ N = n /\ val = [k \in 1..(n + 1) |-> Defaults(p)]
Known(name) == \E j \in 1..Len(ps) : ps[j].name = name
Idx(name) == CHOOSE j \in 1..Len(ps) : ps[j].name = name

(* a negative horizon or a horizon that is no integer is refused; the stages that remain keep their values *)
SetN(n, int, ok) ==
    /\ ok = (int /\ n >= 0)
    /\ IF ok THEN N' = n /\ val' = [k \in 1..(n + 1) |-> IF k <= N + 1 THEN val[k] ELSE Defaults(ps)] /\ UNCHANGED ps
       ELSE UNCHANGED vars
(* v: value, r, c: its shape; nd: number of its dimensions: a vector or scalar may be given without the other dimension *)
ShapeOk(j, r, c, nd) == \/ nd = 2 /\ r = ps[j].r /\ c = ps[j].c
                        \/ nd < 2 /\ r * c = ps[j].r * ps[j].c /\ (ps[j].r = 1 \/ ps[j].c = 1)
Reshape(v, j) == LET w == Flatten(v) IN [a \in 1..ps[j].r |-> [b \in 1..ps[j].c |-> w[(a - 1) * ps[j].c + b]]]
SetVal(name, v, r, c, nd, i, ok) ==
    /\ ok = (i \in 0..N /\ Known(name) /\ (Known(name) => ShapeOk(Idx(name), r, c, nd)))
    /\ UNCHANGED <<ps, N>>
    /\ val' = IF ok THEN [val EXCEPT ![i + 1][Idx(name)] = Reshape(v, Idx(name))] ELSE val
StageVec(i) == Flatten([j \in 1..Len(ps) |-> Vec(val[i + 1][j], ps[j].r, ps[j].c)])
FlatVec == Flatten([k \in 1..(N + 1) |-> StageVec(k - 1)])

Np == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE ps[j].r * ps[j].c + S(j - 1) IN S(Len(ps))
TypeOK == /\ N >= 0 /\ Len(val) = N + 1
          /\ \A k \in 1..(N + 1) : Len(val[k]) = Len(ps) /\ Len(StageVec(k - 1)) = Np
          /\ Len(FlatVec) = (N + 1) * Np
=============================================================================
