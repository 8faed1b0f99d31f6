-------------------------------- MODULE FunGen --------------------------------
(***************************************************************************)
(* The functions generated for a problem description: which ones there     *)
(* are, and what each returns, in the orientation and order of variables   *)
(* its consumers in the C library expect.                                  *)
(*                                                                         *)
(* d: sizes d.n, expressions as polynomials over (x,xdot,u,z,t,p,pg);      *)
(* psi over (r,t,p,pg), phi over (r,p,pg).                                 *)
(* A returned matrix is the sequence of its rows, <<>> when it is empty.   *)
(***************************************************************************)
EXTENDS PolyLA
VARIABLE d
S(k) == CASE k = "0" -> "_0" [] k = "p" -> "" [] k = "e" -> "_e"
(* ------------------------------------------------ positions of variables *)
Order == <<"x", "xdot", "u", "z", "t", "p", "pg">>
Off(q) == SumS([i \in 1..(IndexIn(Order, q) - 1) |-> d.n[Order[i]]])
V(q) == Range0(Off(q) + 1, d.n[q])
VX == V("x")
VU(k) == IF k = "e" THEN <<>> ELSE V("u")
VZ(k) == IF k = "e" THEN <<>> ELSE V("z")
UX(k) == VU(k) \o VX
(* the point of a call; controls and algebraic variables do not exist at the end of the horizon *)
Pad(a, n) == IF Len(a) = n THEN a ELSE Zeros(n)
Pt(a) == a.x \o a.xdot \o Pad(a.u, d.n.u) \o Pad(a.z, d.n.z) \o a.t \o a.p \o a.pg
(* ---------------------------------------------------------------- shapes *)
Norm(M) == IF Len(M) = 0 THEN <<>> ELSE IF Len(M[1]) = 0 THEN <<>> ELSE M
Col(v) == [i \in 1..Len(v) |-> <<v[i]>>]
Row(v) == IF Len(v) = 0 THEN <<>> ELSE <<v>>
Sc(s) == <<<<s>>>>
HC(A, B) == IF Len(A) = 0 THEN B ELSE IF Len(B) = 0 THEN A ELSE [i \in 1..Len(A) |-> A[i] \o B[i]]
T(M, nc) == Norm(Transp(M, nc))
SumP(ps, w) == Flatten1([i \in 1..Len(ps) |-> [j \in 1..Len(ps[i]) |-> <<w[i] * ps[i][j][1], ps[i][j][2]>>]])     \* weighted sum
Grad(p, v, vs) == GradP(p, v, vs)
(* rectangular second derivatives *)
Mixed(p, v, as, bs) == [i \in 1..Len(as) |-> LET q == D(p, as[i]) IN [j \in 1..Len(bs) |-> Ev(D(q, bs[j]), v)]]
TM(M, v, nc) == TMatVec(M, v, nc)
EvM(M, v) == [i \in 1..Len(M) |-> EvS(M[i], v)]
(* -------------------------------------------- composition of polynomials *)
(* outer(r(v), rest): first derivatives in v, through the inner Jacobian *)
RR(o, nr) == Range0(1, nr)
PsiPt(c, a) == VSub(EvS(c.y, Pt(a)), a.mul) \o a.t \o a.p \o a.pg
PhiPt(g, a) == EvS(g.r, Pt(a)) \o a.p \o a.pg
(* ------------------------------------------------------------- dynamics *)
F == d.dyn.f
DiscJac(v) == IF d.dyn.jac # <<>> THEN EvM(d.dyn.jac, v) ELSE JacP(F, v, UX("p"))
DiscHess(a) == IF d.dyn.hess # <<>> THEN EvM(d.dyn.hess, Pt(a)) ELSE WHess(F, a.mul, Pt(a), UX("p"))
SensForw == Has(d.sens, "forw")
SensAdj == Has(d.sens, "adj")
ValSens == Has(d.sens, "val")
(* d/dpg of <seed, d/dux (w'f)> + <seed2, f> *)
AdjPdiff(fs, a, k) == LET v == Pt(a) w == SumP(fs, a.mul) M == Mixed(w, v, UX(k), V("pg"))
                      IN VAdd(TM(M, a.sux, d.n.pg), TM(JacP(fs, v, V("pg")), a.smul, d.n.pg))
LowerByColumn(M) == Flatten1([j \in 1..Len(M) |-> [i \in 1..(Len(M) - j + 1) |-> M[i + j - 1][j]]])
ExplHess(a) == LET v == Pt(a) nx == d.n.x nu == d.n.u
                   H == WHess(F, a.mul, v, VX \o V("u"))
                   Sf == [i \in 1..(nx + nu) |-> IF i <= nx THEN a.Sx[i] \o (IF nu = 0 THEN <<>> ELSE a.Su[i])
                                                 ELSE [j \in 1..(nx + nu) |-> IF j = i THEN 1 ELSE 0]]
               IN LowerByColumn(Sandwich(Sf, H, Sf, nx + nu, nx + nu))
Vde(v, M, vs) == LET n == Len(vs) IN IF n = 0 THEN <<>> ELSE MAdd(JacP(F, v, vs), MatMul(JacP(F, v, VX), M, n))
DynFuns ==
    CASE d.N = 0 /\ d.dyn.type = "DISCRETE" -> {}
      [] d.dyn.type = "DISCRETE" ->
            {"_dyn_disc_phi_fun", "_dyn_disc_phi_fun_jac"} \cup (IF d.hess THEN {"_dyn_disc_phi_fun_jac_hess"} ELSE {})
            \cup (IF SensForw THEN {"_dyn_disc_phi_jac_p_hess_xu_p"} ELSE {}) \cup (IF SensAdj THEN {"_dyn_disc_phi_hess_ux_pdiff_adj_pdiff"} ELSE {})
            \cup (IF ValSens THEN {"_dyn_disc_phi_adj_p"} ELSE {})
      [] d.dyn.type = "ERK" ->
            {"_expl_ode_fun", "_expl_vde_forw", "_expl_vde_adj"} \cup (IF d.hess THEN {"_expl_ode_hess"} ELSE {}) \cup (IF d.sensp THEN {"_expl_vde_forw_p"} ELSE {})
      [] d.dyn.type = "IRK" ->
            {"_impl_dae_fun", "_impl_dae_fun_jac_x_xdot_z", "_impl_dae_fun_jac_x_xdot_u_z", "_impl_dae_fun_jac_x_xdot_u", "_impl_dae_jac_x_xdot_u_z"}
            \cup (IF d.hess THEN {"_impl_dae_hess"} ELSE {}) \cup (IF d.sensp THEN {"_impl_dae_jac_p"} ELSE {})
DynOut(n, a) ==
    LET v == Pt(a) f == Col(EvS(F, v)) nux == Len(UX("p")) J(q) == Norm(JacP(F, v, V(q)))
    IN CASE n = "_dyn_disc_phi_fun" -> <<f>>
         [] n = "_dyn_disc_phi_fun_jac" -> <<f, T(DiscJac(v), nux)>>
         [] n = "_dyn_disc_phi_fun_jac_hess" -> <<f, T(DiscJac(v), nux), Norm(DiscHess(a))>>
         [] n = "_dyn_disc_phi_jac_p_hess_xu_p" -> <<Norm(JacP(F, v, V("pg"))), Norm(Mixed(SumP(F, a.mul), v, UX("p"), V("pg")))>>
         [] n = "_dyn_disc_phi_hess_ux_pdiff_adj_pdiff" -> <<Col(AdjPdiff(F, a, "p"))>>
         [] n = "_dyn_disc_phi_adj_p" -> <<Col(Grad(SumP(F, a.mul), v, V("pg")))>>
         [] n = "_expl_ode_fun" -> <<f>>
         [] n = "_expl_vde_forw" -> <<f, MatMul(JacP(F, v, VX), a.Sx, d.n.x), Vde(v, a.Su, V("u"))>>
         [] n = "_expl_vde_adj" -> <<Col(Grad(SumP(F, a.mul), v, VX \o V("u")))>>
         [] n = "_expl_ode_hess" -> <<Col(Grad(SumP(F, a.mul), v, VX \o V("u"))), Col(ExplHess(a))>>
         [] n = "_expl_vde_forw_p" -> <<Vde(v, a.Sp, V("p"))>>
         [] n = "_impl_dae_fun" -> <<f>>
         [] n = "_impl_dae_fun_jac_x_xdot_z" -> <<f, J("x"), J("xdot"), J("z")>>
         [] n = "_impl_dae_fun_jac_x_xdot_u_z" -> <<f, J("x"), J("xdot"), J("u"), J("z")>>
         [] n = "_impl_dae_fun_jac_x_xdot_u" -> <<f, J("x"), J("xdot"), J("u")>>
         [] n = "_impl_dae_jac_x_xdot_u_z" -> <<J("x"), J("xdot"), J("u"), J("z")>>
         [] n = "_impl_dae_hess" -> <<WHess(F, a.mul, v, VX \o V("xdot") \o V("z") \o V("u"))>>
         [] n = "_impl_dae_jac_p" -> <<J("p")>>
(* ----------------------------------------------------------------- cost *)
CostStem(k) == CASE d.cost[k].type = "EXTERNAL" -> "_cost_ext_cost" \o S(k)
                 [] d.cost[k].type = "NONLINEAR_LS" -> "_cost_y" \o S(k)
                 [] d.cost[k].type = "CONVEX_OVER_NONLINEAR" -> "_conl_cost" \o S(k)
                 [] OTHER -> ""
CostSuffixes(k) == CASE d.cost[k].type = "EXTERNAL" ->
                          {"_fun", "_fun_jac_hess", "_fun_jac"} \cup (IF SensForw THEN {"_hess_xu_p"} ELSE {})
                          \cup (IF SensAdj THEN {"_adj_ux_pdiff"} ELSE {}) \cup (IF ValSens THEN {"_grad_p"} ELSE {})
                     [] d.cost[k].type = "NONLINEAR_LS" -> {"_fun", "_fun_jac_ut_xt", "_hess"}
                     [] d.cost[k].type = "CONVEX_OVER_NONLINEAR" -> {"_fun", "_fun_jac_hess"}
                     [] OTHER -> {}
ExtOut(s, k, a) ==
    LET c == d.cost[k] v == Pt(a) nux == Len(UX(k)) e == Sc(Ev(c.e, v))
        gr == Col(Grad(c.e, v, UX(k) \o VZ(k)))
    IN CASE s = "_fun" -> <<e>>
         [] s = "_fun_jac" -> <<e, gr>>
         [] s = "_fun_jac_hess" -> <<e, gr, IF c.hess # <<>> THEN EvM(c.hess, v) ELSE HessP(c.e, v, UX(k)), Norm(HessP(c.e, v, VZ(k))), Norm(Mixed(c.e, v, VZ(k), UX(k)))>>
         [] s = "_hess_xu_p" -> <<Norm(Mixed(c.e, v, UX(k), V("pg")))>>
         [] s = "_adj_ux_pdiff" -> <<Col(TM(Mixed(c.e, v, UX(k), V("pg")), a.sux, d.n.pg))>>
         [] s = "_grad_p" -> <<Col(Grad(c.e, v, V("pg")))>>
NlsOut(s, k, a) ==
    LET c == d.cost[k] v == Pt(a) nux == Len(UX(k)) y == Col(EvS(c.y, v))
    IN CASE s = "_fun" -> <<y>>
         [] s = "_fun_jac_ut_xt" -> <<y, T(JacP(c.y, v, UX(k)), nux), Norm(JacP(c.y, v, VZ(k)))>>
         [] s = "_hess" -> <<WHess(c.y, a.mul, v, UX(k))>>
IsDiag(H) == \A i \in 1..Len(H), j \in 1..Len(H) : i # j => H[i][j] = 0
(* the structural zeros of the Hessian of psi, known to the generator *)
PsiDiag(c) == LET m == Len(c.y) IN \A i \in 1..m, j \in 1..m : i # j => IF c.hess # <<>> THEN \A t \in 1..Len(c.hess[i][j]) : c.hess[i][j][t][1] = 0
                                                                     ELSE D(D(c.psi, i), j) = <<>>
ConlOut(s, k, a, out) ==
    LET c == d.cost[k] v == Pt(a) m == Len(c.y) q == PsiPt(c, a) rs == Range0(1, m)
        H == IF c.hess # <<>> THEN EvM(c.hess, q) ELSE HessP(c.psi, q, rs)
        diag == out[6][1][1]
    IN CASE s = "_fun" -> <<Sc(Ev(c.psi, q))>>
         [] s = "_fun_jac_hess" ->
              \* the flag "the outer Hessian is diagonal" may only be set when it is, everywhere
              <<Sc(Ev(c.psi, q)), Col(Grad(c.psi, q, rs)), T(JacP(c.y, v, UX(k)), Len(UX(k))), T(JacP(c.y, v, VZ(k)), Len(VZ(k))), H,
                Sc(IF diag = 1 /\ PsiDiag(c) /\ m > 4 THEN 1 ELSE 0)>>
(* ---------------------------------------------------------- constraints *)
ConStem(k) == CASE d.con[k].type = "h" -> "_constr_h" \o S(k) [] d.con[k].type = "phi" -> "_phi" \o S(k) \o "_constraint" [] OTHER -> ""
ConSuffixes(k) == CASE d.con[k].type = "h" ->
                          {"_fun_jac_uxt_zt", "_fun"} \cup (IF d.hess THEN {"_fun_jac_uxt_zt_hess"} ELSE {}) \cup (IF SensForw THEN {"_jac_p_hess_xu_p"} ELSE {})
                          \cup (IF SensAdj THEN {"_hess_ux_pdiff_adj_pdiff"} ELSE {}) \cup (IF ValSens THEN {"_adj_p"} ELSE {})
                    [] d.con[k].type = "phi" -> {"_fun_jac_hess", "_fun"}
                    [] OTHER -> {}
HOut(s, k, a) ==
    LET g == d.con[k] v == Pt(a) nux == Len(UX(k)) h == Col(EvS(g.h, v)) j == T(JacP(g.h, v, UX(k)), nux) jz == Norm(JacP(g.h, v, VZ(k)))
    IN CASE s = "_fun" -> <<h>>
         [] s = "_fun_jac_uxt_zt" -> <<h, j, jz>>
         [] s = "_fun_jac_uxt_zt_hess" -> <<h, j, WHess(g.h, a.mul, v, UX(k)), jz, Norm(WHess(g.h, a.mul, v, VZ(k)))>>
         [] s = "_jac_p_hess_xu_p" -> <<Norm(JacP(g.h, v, V("pg"))), Norm(Mixed(SumP(g.h, a.mul), v, UX(k), V("pg")))>>
         [] s = "_hess_ux_pdiff_adj_pdiff" -> <<Col(AdjPdiff(g.h, a, k))>>
         [] s = "_adj_p" -> <<Col(Grad(SumP(g.h, a.mul), v, V("pg")))>>
PhiOut(s, k, a) ==
    LET g == d.con[k] v == Pt(a) q == PhiPt(g, a) m == Len(g.r) rs == Range0(1, m)
        f == Col(EvS(g.phi, q)) Jr == JacP(g.phi, q, rs) nux == Len(UX(k)) nz == Len(VZ(k)) R == JacP(g.r, v, UX(k))
    IN CASE s = "_fun" -> <<f>>
         [] s = "_fun_jac_hess" -> <<f, T(MatMul(Jr, R, nux), nux), IF nz = 0 THEN <<>> ELSE T(MatMul(Jr, JacP(g.r, v, VZ(k)), nz), nz),
                                     Flatten1([i \in 1..Len(g.phi) |-> HessP(g.phi[i], q, rs)]), T(R, nux)>>
(* ------------------------------------------------------------ everything *)
CostFuns == UNION {{[n |-> CostStem(k) \o s, k |-> k, s |-> s, w |-> "cost"] : s \in CostSuffixes(k)} : k \in {d.kinds[i] : i \in 1..Len(d.kinds)}}
ConFuns == UNION {{[n |-> ConStem(k) \o s, k |-> k, s |-> s, w |-> "con"] : s \in ConSuffixes(k)} : k \in {d.kinds[i] : i \in 1..Len(d.kinds)}}
Funs == {[n |-> n, k |-> "p", s |-> n, w |-> "dyn"] : n \in DynFuns} \cup CostFuns \cup ConFuns
Names == {f.n : f \in Funs}
Out(f, a, out) == CASE f.w = "dyn" -> DynOut(f.n, a)
                    [] f.w = "cost" -> (CASE d.cost[f.k].type = "EXTERNAL" -> ExtOut(f.s, f.k, a) [] d.cost[f.k].type = "NONLINEAR_LS" -> NlsOut(f.s, f.k, a)
                                          [] OTHER -> ConlOut(f.s, f.k, a, out))
                    [] f.w = "con" -> IF d.con[f.k].type = "h" THEN HOut(f.s, f.k, a) ELSE PhiOut(f.s, f.k, a)
=============================================================================
