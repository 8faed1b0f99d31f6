------------------------------- MODULE OcpSem -------------------------------
(* What an optimal control problem means: objective, dynamics, constraints    *)
(* and their derivatives at a point, in integers.  d is a problem description *)
(* as drivers/ocpgen.py writes it.  All objective values are TWICE the value  *)
(* (so that 1/2 r'Wr is an integer).                                          *)
EXTENDS PolyLA

Kind(d, i) == IF i = d.N THEN "e" ELSE IF i = 0 THEN "0" ELSE "p"
Nu(d, i) == IF i = d.N THEN 0 ELSE d.nu
Nz(d, i) == IF i = d.N THEN 0 ELSE d.nz

(* values of all variables (x, u, z, p, pg); u and z are zero where they do not exist *)
PadTo(v, n) == IF Len(v) = n THEN v ELSE Zeros(n)
Vars(d, x, u, z, p, pg) == x \o PadTo(u, d.nu) \o PadTo(z, d.nz) \o p \o pg
XU(d) == [j \in 1..(d.nx + d.nu) |-> j]           \* positions of (x, u)
UX(d) == [j \in 1..d.nu |-> d.nx + j] \o [j \in 1..d.nx |-> j]

----------------------------------------------------------------------------
(* cost of one stage: value and derivatives with respect to the variables vs  *)
(* C is the cost description of the stage's kind, yref its reference          *)
LsRow(C, d, i, k) == C.Vx[i] \o (IF Len(C.Vu) > 0 THEN C.Vu[i] ELSE Zeros(d.nu)) \o (IF Len(C.Vz) > 0 THEN C.Vz[i] ELSE Zeros(d.nz))
Residual(d, C, v, yref) ==
    IF C.type = "LINEAR_LS"
    THEN [i \in 1..Len(C.Vx) |-> Dot(LsRow(C, d, i, 0), SubSeq(v, 1, d.nx + d.nu + d.nz)) - yref[i]]
    ELSE VSub(EvS(C.y, v), yref)
ResidualJac(d, C, v, vs) ==
    IF C.type = "LINEAR_LS"
    THEN [i \in 1..Len(C.Vx) |-> LET row == LsRow(C, d, i, 0) IN [j \in 1..Len(vs) |-> IF vs[j] <= d.nx + d.nu + d.nz THEN row[vs[j]] ELSE 0]]
    ELSE JacP(C.y, v, vs)

Cost2(d, C, v, yref) ==
    IF C.type = "NONE" THEN 0
    ELSE IF C.type \in {"LINEAR_LS", "NONLINEAR_LS"} THEN LET r == Residual(d, C, v, yref) IN Dot(r, MatVec(C.W, r))
    ELSE IF C.type = "EXTERNAL" THEN 2 * Ev(C.e, v)
    ELSE 2 * Ev(C.psi, Residual(d, C, v, yref))
Cost2Grad(d, C, v, yref, vs) ==
    IF C.type = "NONE" THEN Zeros(Len(vs))
    ELSE IF C.type \in {"LINEAR_LS", "NONLINEAR_LS"}
    THEN TMatVec(ResidualJac(d, C, v, vs), VScale(2, MatVec(C.W, Residual(d, C, v, yref))), Len(vs))
    ELSE IF C.type = "EXTERNAL" THEN VScale(2, GradP(C.e, v, vs))
    ELSE LET r == Residual(d, C, v, yref)
         IN TMatVec(ResidualJac(d, C, v, vs), VScale(2, GradP(C.psi, r, [j \in 1..Len(r) |-> j])), Len(vs))
(* the Gauss-Newton part (for EXTERNAL: the exact Hessian) *)
Cost2HessGN(d, C, v, yref, vs) ==
    LET n == Len(vs) IN
    IF C.type = "NONE" THEN ZeroMat(n, n)
    ELSE IF C.type \in {"LINEAR_LS", "NONLINEAR_LS"}
    THEN LET J == ResidualJac(d, C, v, vs) IN MScale(2, Sandwich(J, C.W, J, n, n))
    ELSE IF C.type = "EXTERNAL" THEN MScale(2, HessP(C.e, v, vs))
    ELSE LET r == Residual(d, C, v, yref) J == ResidualJac(d, C, v, vs)
         IN MScale(2, Sandwich(J, HessP(C.psi, r, [j \in 1..Len(r) |-> j]), J, n, n))
Cost2Hess(d, C, v, yref, vs) ==
    LET G == Cost2HessGN(d, C, v, yref, vs) IN
    IF C.type = "NONLINEAR_LS"
    THEN MAdd(G, WHess(C.y, VScale(2, MatVec(C.W, Residual(d, C, v, yref))), v, vs))
    ELSE IF C.type = "CONVEX_OVER_NONLINEAR"
    THEN LET r == Residual(d, C, v, yref) IN MAdd(G, WHess(C.y, VScale(2, GradP(C.psi, r, [j \in 1..Len(r) |-> j])), v, vs))
    ELSE G

(* slack penalty z's + 1/2 s'Zs, twice *)
Slack2(S, sl, su) ==
    SumS([j \in 1..Len(sl) |-> S.Zl[j] * sl[j] * sl[j] + 2 * S.zl[j] * sl[j]])
    + SumS([j \in 1..Len(su) |-> S.Zu[j] * su[j] * su[j] + 2 * S.zu[j] * su[j]])

----------------------------------------------------------------------------
(* dynamics: x+ = phi(x, u, p, pg), with sensitivities                        *)
(* explicit Runge-Kutta: coefficients in sixths; the step is a multiple of 6  *)
ErkA(s) == CASE s = 1 -> <<<<0>>>> [] s = 2 -> <<<<0, 0>>, <<3, 0>>>>
             [] s = 3 -> <<<<0, 0, 0>>, <<3, 0, 0>>, <<-6, 12, 0>>>>
             [] s = 4 -> <<<<0, 0, 0, 0>>, <<3, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 6, 0>>>>
ErkB(s) == CASE s = 1 -> <<6>> [] s = 2 -> <<0, 6>> [] s = 3 -> <<1, 4, 1>> [] s = 4 -> <<1, 2, 2, 1>>
Div6(a) == a \div 6

(* state: [x, S] with S = dx/d(x0, u); one step of length h (S = <<>>: no sensitivities) *)
RECURSIVE ErkStages(_, _, _, _, _, _, _)
ErkStages(d, f, xs, rest, h, s, ks) ==
    IF Len(ks) = s THEN ks
    ELSE LET a == ErkA(s)[Len(ks) + 1]
             xk == [i \in 1..d.nx |-> xs.x[i] + Div6(h * SumS([l \in 1..Len(ks) |-> a[l] * ks[l].k[i]]))]
             v == xk \o rest
             k == EvS(f, v)
             dk == IF xs.S = <<>> THEN <<>>
                   ELSE LET Sx == [i \in 1..d.nx |-> [j \in 1..(d.nx + d.nu) |->
                                      xs.S[i][j] + Div6(h * SumS([l \in 1..Len(ks) |-> a[l] * ks[l].dk[i][j]]))]]
                            Jx == JacP(f, v, [j \in 1..d.nx |-> j])
                            Ju == JacP(f, v, [j \in 1..d.nu |-> d.nx + j])
                            M == MatMul(Jx, Sx, d.nx + d.nu)
                        IN [i \in 1..d.nx |-> [j \in 1..(d.nx + d.nu) |-> M[i][j] + (IF j > d.nx THEN Ju[i][j - d.nx] ELSE 0)]]
         IN ErkStages(d, f, xs, rest, h, s, Append(ks, [k |-> k, dk |-> dk]))
ErkStep(d, f, xs, rest, h, s) ==
    LET ks == ErkStages(d, f, xs, rest, h, s, <<>>) b == ErkB(s)
    IN [x |-> [i \in 1..d.nx |-> xs.x[i] + Div6(h * SumS([l \in 1..s |-> b[l] * ks[l].k[i]]))],
        S |-> IF xs.S = <<>> THEN <<>>
              ELSE [i \in 1..d.nx |-> [j \in 1..(d.nx + d.nu) |-> xs.S[i][j] + Div6(h * SumS([l \in 1..s |-> b[l] * ks[l].dk[i][j]]))]]]
RECURSIVE ErkSteps(_, _, _, _, _, _, _)
ErkSteps(d, f, xs, rest, h, s, n) == IF n = 0 THEN xs ELSE ErkSteps(d, f, ErkStep(d, f, xs, rest, h, s), rest, h, s, n - 1)

(* the k-th entry (from stage i) of the per-stage lists *)
Dyn(d, i, v, sens) ==
    LET rest == SubSeq(v, d.nx + 1, Len(v))
        S0 == IF sens THEN [r \in 1..d.nx |-> [c \in 1..(d.nx + d.nu) |-> IF r = c THEN 1 ELSE 0]] ELSE <<>>
    IN IF d.dyn.type = "DISCRETE"
       THEN [x |-> EvS(d.dyn.f, v), S |-> IF sens THEN JacP(d.dyn.f, v, XU(d)) ELSE <<>>]
       ELSE ErkSteps(d, d.dyn.f, [x |-> SubSeq(v, 1, d.nx), S |-> S0], rest,
                     d.dt[i + 1] \div d.dyn.steps, d.dyn.stages, d.dyn.steps)

----------------------------------------------------------------------------
(* constraint functions of stage i: bounds on u, bounds on x, g, h, phi       *)
Con(d, i) == d.con[Kind(d, i)]
PhiVal(c, v) == LET r == EvS(c.r, v) IN EvS(c.phi, r)
GVal(d, c, i, x, u) ==
    [k \in 1..Len(c.C) |-> Dot(c.C[k], x) + (IF i < d.N THEN Dot(c.D[k], u) ELSE 0)]
ConVal(d, i, v, x, u) ==
    LET c == Con(d, i)
    IN (IF i < d.N THEN SubV(u, c.idxbu) ELSE <<>>) \o SubV(x, c.idxbx) \o GVal(d, c, i, x, u) \o EvS(c.h, v) \o PhiVal(c, v)
ConJac(d, i, v) ==
    LET c == Con(d, i) n == d.nx + d.nu
        Unit(k) == [j \in 1..n |-> IF j = k THEN 1 ELSE 0]
        rr == EvS(c.r, v)
        nr == Len(rr)
    IN (IF i < d.N THEN [k \in 1..Len(c.idxbu) |-> Unit(d.nx + c.idxbu[k] + 1)] ELSE <<>>)
       \o [k \in 1..Len(c.idxbx) |-> Unit(c.idxbx[k] + 1)]
       \o [k \in 1..Len(c.C) |-> c.C[k] \o (IF i < d.N THEN c.D[k] ELSE Zeros(d.nu))]
       \o JacP(c.h, v, XU(d))
       \o MatMul(JacP(c.phi, rr, [j \in 1..nr |-> j]), JacP(c.r, v, XU(d)), n)
NCon(d, i) == LET c == Con(d, i) IN (IF i < d.N THEN Len(c.idxbu) ELSE 0) + Len(c.idxbx) + Len(c.C) + Len(c.h) + Len(c.phi)
ConLow(d, i) == LET c == Con(d, i) IN (IF i < d.N THEN c.lbu ELSE <<>>) \o c.lbx \o c.lg \o c.lh \o c.lphi
ConUp(d, i) == LET c == Con(d, i) IN (IF i < d.N THEN c.ubu ELSE <<>>) \o c.ubx \o c.ug \o c.uh \o c.uphi
(* slack number (from one) of each constraint, 0 if hard; slacks are ordered bu, bx, g, h, phi *)
SlackOf(d, i) ==
    LET c == Con(d, i)
        nbu == IF i < d.N THEN Len(c.idxbu) ELSE 0
        nbx == Len(c.idxbx) ng == Len(c.C) nh == Len(c.h)
        all == (IF i < d.N THEN [k \in 1..Len(c.idxsbu) |-> c.idxsbu[k]] ELSE <<>>)
               \o [k \in 1..Len(c.idxsbx) |-> nbu + c.idxsbx[k]]
               \o [k \in 1..Len(c.idxsg) |-> nbu + nbx + c.idxsg[k]]
               \o [k \in 1..Len(c.idxsh) |-> nbu + nbx + ng + c.idxsh[k]]
               \o [k \in 1..Len(c.idxsphi) |-> nbu + nbx + ng + nh + c.idxsphi[k]]
    IN [k \in 1..NCon(d, i) |-> IF Has(all, k - 1) THEN IndexIn(all, k - 1) ELSE 0]
Ns(d, i) == LET c == Con(d, i) IN (IF i < d.N THEN Len(c.idxsbu) ELSE 0) + Len(c.idxsbx) + Len(c.idxsg) + Len(c.idxsh) + Len(c.idxsphi)
=============================================================================
