-------------------------------- MODULE Store --------------------------------
(* The stores of a solver object: primal-dual iterate (it) and problem data   *)
(* (dat) per stage, and the saved copies of an iterate (slots).               *)
(* d is a problem description (OcpSem).  Values are integers that stand for   *)
(* floating point numbers one to one (the driver's table); INFB is infinity.  *)
EXTENDS OcpSem

VARIABLES d, it, dat, pg, slots
storeVars == <<d, it, dat, pg, slots>>
INFB == 1000000000

Fields == <<"x", "u", "z", "sl", "su", "pi", "lam">>
FieldSet == {"x", "u", "z", "sl", "su", "pi", "lam"}
Inner == {"u", "z", "pi"}                    \* fields without an entry at the terminal stage
NStages(dd, f) == IF f \in Inner THEN dd.N ELSE dd.N + 1
Ni(dd, i) == NCon(dd, i) + Ns(dd, i)
ItDim(dd, f, i) == CASE f = "x" -> dd.nx [] f = "u" -> Nu(dd, i) [] f = "z" -> Nz(dd, i) [] f \in {"sl", "su"} -> Ns(dd, i)
                     [] f = "pi" -> dd.nx [] f = "lam" -> 2 * Ni(dd, i)

(* problem data of stage i as the description gives it *)
ColMajor(M, nc) == Flatten1([j \in 1..nc |-> [i \in 1..Len(M) |-> M[i][j]]])
HasYref(C) == C.type \in {"LINEAR_LS", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"}
Dat0(dd, i) ==
    LET k == Kind(dd, i) C == dd.cost[k] c == dd.con[k] S == dd.slack[k] t == i < dd.N
    IN [yref |-> IF HasYref(C) THEN C.yref ELSE <<>>,
        W |-> IF C.type \in {"LINEAR_LS", "NONLINEAR_LS"} THEN ColMajor(C.W, Len(C.W)) ELSE <<>>,
        zl |-> S.zl, zu |-> S.zu, Zl |-> S.Zl, Zu |-> S.Zu,
        scaling |-> <<dd.scaling[i + 1]>>,
        lbx |-> c.lbx, ubx |-> c.ubx, lbu |-> IF t THEN c.lbu ELSE <<>>, ubu |-> IF t THEN c.ubu ELSE <<>>,
        lg |-> c.lg, ug |-> c.ug, C |-> ColMajor(c.C, dd.nx), D |-> IF t THEN ColMajor(c.D, dd.nu) ELSE <<>>,
        lh |-> c.lh, uh |-> c.uh, lphi |-> c.lphi, uphi |-> c.uphi, p |-> dd.p]
BoundFields == {"lbx", "ubx", "lbu", "ubu", "lg", "ug", "lh", "uh"}
VecFields == BoundFields \cup {"yref", "zl", "zu", "Zl", "Zu", "scaling", "p"}
(* rows and columns of a matrix-valued field *)
NyOf(dd, i) == LET C == dd.cost[Kind(dd, i)] IN IF C.type \in {"LINEAR_LS", "NONLINEAR_LS"} THEN Len(C.yref) ELSE 0
MatShape(dd, f, i) == CASE f = "W" -> <<NyOf(dd, i), NyOf(dd, i)>>
                        [] f = "C" -> <<Len(Con(dd, i).C), dd.nx>>
                        [] f = "D" -> <<Len(Con(dd, i).C), Nu(dd, i)>>

(* bounds at infinity are no constraints: their multipliers are zero *)
Mask(D_, i, ns) ==
    LET lo(v) == [j \in 1..Len(v) |-> IF v[j] <= -INFB THEN 0 ELSE 1]
        up(v) == [j \in 1..Len(v) |-> IF v[j] >= INFB THEN 0 ELSE 1]
    IN lo(D_.lbu) \o lo(D_.lbx) \o lo(D_.lg) \o lo(D_.lh) \o lo(D_.lphi) \o up(D_.ubu) \o up(D_.ubx) \o up(D_.ug) \o up(D_.uh) \o up(D_.uphi)
       \o [j \in 1..(2 * ns) |-> 1]
Masked(lam, m) == [j \in 1..Len(lam) |-> IF m[j] = 0 THEN 0 ELSE lam[j]]
MaskedAt(i, v) == Masked(v, Mask(dat[i + 1], i, Ns(d, i)))

FlatOf(traj) == Flatten1(traj)
(* the n-th piece of a flat vector *)
RECURSIVE Unflat(_, _)
Unflat(v, dims) == IF dims = <<>> THEN <<>> ELSE <<SubSeq(v, 1, dims[1])>> \o Unflat(SubSeq(v, dims[1] + 1, Len(v)), Tail(dims))
Dims(dd, f) == [k \in 1..NStages(dd, f) |-> ItDim(dd, f, k - 1)]

Zero(dd) == [f \in FieldSet |-> [k \in 1..NStages(dd, f) |-> Zeros(ItDim(dd, f, k - 1))]]
(* the initial guess x: a fixed initial state at all stages, anything else otherwise *)
It0(dd, x) == [Zero(dd) EXCEPT !["x"] = [k \in 1..(dd.N + 1) |-> IF dd.x0 THEN dd.con["0"].lbx ELSE x[k]]]
CreateStore(dd, x) ==
    /\ d = dd /\ it = It0(dd, x) /\ dat = [k \in 1..(dd.N + 1) |-> Dat0(dd, k - 1)] /\ pg = dd.pg /\ slots = <<>>

----------------------------------------------------------------------------
(* which writes are accepted *)
ItOk(f, i, n) == f \in FieldSet /\ 0 <= i /\ i < NStages(d, f) /\ n = ItDim(d, f, i)
VecOk(f, i, n) == f \in VecFields /\ 0 <= i /\ i <= d.N /\ n = Len(dat[i + 1][f])
MatOk(f, i, r, c) == f \in {"W", "C", "D"} /\ 0 <= i /\ i <= d.N /\ MatShape(d, f, i) = <<r, c>>

PutIt(f, i, v) == it' = [it EXCEPT ![f][i + 1] = IF f = "lam" THEN MaskedAt(i, v) ELSE v]
PutFlatIt(f, v) ==
    LET t == Unflat(v, Dims(d, f))
    IN it' = [it EXCEPT ![f] = IF f = "lam" THEN [k \in 1..Len(t) |-> MaskedAt(k - 1, t[k])] ELSE t]
PutDat(f, i, v) ==
    /\ dat' = [dat EXCEPT ![i + 1][f] = v]
    /\ it' = IF f \in BoundFields THEN [it EXCEPT !["lam"][i + 1] = Masked(@, Mask(dat'[i + 1], i, Ns(d, i)))] ELSE it
KeepIt == UNCHANGED <<it, dat, pg, slots, d>>

SetIt(f, i, v, ok) == /\ Chk("accepted", ok, ItOk(f, i, Len(v)))
                      /\ IF ok THEN PutIt(f, i, v) /\ UNCHANGED <<d, dat, pg, slots>> ELSE KeepIt
SetVec(f, i, v, ok) == /\ Chk("accepted", ok, VecOk(f, i, Len(v)))
                       /\ IF ok THEN PutDat(f, i, v) /\ UNCHANGED <<d, pg, slots>> ELSE KeepIt
SetMat(f, i, r, c, v, ok) == /\ Chk("accepted", ok, MatOk(f, i, r, c))
                             /\ IF ok THEN PutDat(f, i, v) /\ UNCHANGED <<d, pg, slots>> ELSE KeepIt
SetFlat(f, v, ok) == /\ Chk("accepted", ok, Len(v) = SumS(Dims(d, f)))
                     /\ IF ok THEN PutFlatIt(f, v) /\ UNCHANGED <<d, dat, pg, slots>> ELSE KeepIt
SetFlatP(v, ok) == /\ Chk("accepted", ok, Len(v) = (d.N + 1) * d.np)
                   /\ IF ok THEN /\ dat' = [k \in 1..(d.N + 1) |-> [dat[k] EXCEPT !["p"] = SubSeq(v, (k - 1) * d.np + 1, k * d.np)]]
                                 /\ UNCHANGED <<d, it, pg, slots>>
                            ELSE KeepIt
(* idx counts from zero; later entries win *)
SetSparse(i, idx, v, ok) ==
    /\ Chk("accepted", ok, 0 <= i /\ i <= d.N /\ Len(idx) = Len(v) /\ \A j \in 1..Len(idx) : 0 <= idx[j] /\ idx[j] < d.np)
    /\ IF ok THEN /\ dat' = [dat EXCEPT ![i + 1]["p"] = [k \in 1..d.np |->
                                IF Has(idx, k - 1) THEN v[CHOOSE j \in 1..Len(idx) : idx[j] = k - 1 /\ \A l \in (j + 1)..Len(idx) : idx[l] # k - 1] ELSE @[k]]]
                  /\ UNCHANGED <<d, it, pg, slots>>
             ELSE KeepIt
SetPG(v, ok) == /\ Chk("accepted", ok, Len(v) = d.npg)
                /\ IF ok THEN pg' = v /\ UNCHANGED <<d, it, dat, slots>> ELSE KeepIt

----------------------------------------------------------------------------
(* saved iterates *)
Fits(s) == \A f \in FieldSet : Len(s[f]) = NStages(d, f) /\ \A k \in 1..Len(s[f]) : Len(s[f][k]) = ItDim(d, f, k - 1)
Slot(n, v) == slots' = [m \in (DOMAIN slots) \cup {n} |-> IF m = n THEN v ELSE slots[m]]
Save(n) == Slot(n, it) /\ UNCHANGED <<d, it, dat, pg>>
Put(n, v) == Slot(n, v) /\ UNCHANGED <<d, it, dat, pg>>
(* loading an iterate that does not fit is refused; it may have been loaded in part *)
Load(n, ok, now) ==
    /\ Chk("accepted", ok, Fits(slots[n]))
    /\ it' = IF ok THEN [slots[n] EXCEPT !["lam"] = [k \in 1..(d.N + 1) |-> MaskedAt(k - 1, @[k])]] ELSE now
    /\ UNCHANGED <<d, dat, pg, slots>>
(* one record per nonempty vector, the stage number padded to the digits of N+1 *)
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
JsonSet(s) ==
    LET N == Len(s["x"]) - 1
    IN UNION {{<<f, k - 1, Digits(N + 1), s[f][k]>> : k \in {j \in 1..Len(s[f]) : Len(s[f][j]) > 0}} : f \in FieldSet}
FlatIt(s) == [f \in FieldSet |-> FlatOf(s[f])]
AddF(a, b) == [f \in FieldSet |-> VAdd(a[f], b[f])]
SubF(a, b) == [f \in FieldSet |-> VSub(a[f], b[f])]
InfNorm(a) == LET all == Flatten1([k \in 1..7 |-> a[Fields[k]]]) IN FoldLeft(LAMBDA m, v : MaxI(m, AbsI(v)), 0, all)
=============================================================================
