--------------------------------- MODULE Gnsf ---------------------------------
(* Generalised nonlinear static feedback: the structured form of an implicit system F(x, xdot, z, u, p) = 0.
   m: the system: dimensions and F, a sequence of polynomials over the variables in that order
   s: the structured form found: matrices, permutations (numbered from zero), flags
   A point is [x, xdot, z, u, p]; phi and f_LO are known by their values at points. *)
EXTENDS PolyLA
VARIABLES m, s
gnvars == <<m, s>>
Vec(q) == q.x \o q.xdot \o q.z \o q.u \o q.p
FVal(q) == EvS(m.F, Vec(q))
n == m.nx + m.nz
nv == 2 * m.nx + m.nz + m.nu + m.np
IsPerm(w, k) == Len(w) = k /\ {w[i] : i \in 1..Len(w)} = 0..(k - 1)
Take(v, idx, k) == SubV(v, SubSeq(idx, 1, k))
Drop(v, idx, k) == SubV(v, SubSeq(idx, k + 1, Len(idx)))
X1(q) == Take(q.x, s.px, s.nx1)
X2(q) == Drop(q.x, s.px, s.nx1)
K1(q) == Take(q.xdot, s.px, s.nx1) \o Take(q.z, s.pz, s.nz1)
K2(q) == Drop(q.xdot, s.px, s.nx1) \o Drop(q.z, s.pz, s.nz1)
(* the argument of phi *)
YVal(q) == LET z1 == Take(q.z, s.pz, s.nz1) x1 == X1(q) d1 == Take(q.xdot, s.px, s.nx1) IN
           TLCEval([i \in 1..s.ny |-> Dot(s.Lx[i], x1) + Dot(s.Lxdot[i], d1) + Dot(s.Lz[i], z1)])
UVal(q) == MatVec(s.Lu, q.u)
(* residuals of the structured form *)
Nsf(q, phi) == TLCEval([i \in 1..(s.nx1 + s.nz1) |-> Dot(s.A[i], X1(q)) + Dot(s.B[i], q.u) + Dot(s.C[i], phi) + s.c[i] - Dot(s.E[i], K1(q))])
Los(q, flo) == TLCEval([i \in 1..(n - s.nx1 - s.nz1) |-> Dot(s.ALO[i], X2(q)) + Dot(s.BLO[i], q.u) + flo[i] + s.cLO[i] - Dot(s.ELO[i], K2(q))])
Res(q, phi, flo) == Nsf(q, phi) \o Los(q, flo)
(* the same equations, in another order: res and f are one vector per point *)
SameEquations(res, f) ==
  LET Col(v, i) == [k \in 1..Len(v) |-> v[k][i]] IN
  \A i \in 1..n : /\ \E j \in 1..n : Col(res, i) = Col(f, j)
                  /\ \E j \in 1..n : Col(f, i) = Col(res, j)
Affine == \A i \in 1..n : \A t \in 1..Len(m.F[i]) : SumS(m.F[i][t][2]) <= 1
Regular(M, k) == k = 0 \/ Rank(M, k) = k
Sub(M, r0, k) == [i \in 1..k |-> [j \in 1..k |-> M[r0 + i][r0 + j]]]
ShapesOk == /\ IsPerm(s.px, m.nx) /\ IsPerm(s.pz, m.nz)
            /\ s.nx1 \in 0..m.nx /\ s.nz1 \in 0..m.nz
            /\ Len(s.A) = s.nx1 + s.nz1 /\ Len(s.ALO) = n - Len(s.A)
(* what the integrator needs *)
BlocksOk == Regular(Sub(s.E, 0, s.nx1), s.nx1) /\ Regular(Sub(s.E, s.nx1, s.nz1), s.nz1) /\ Regular(s.E, s.nx1 + s.nz1)
FlagsOk(flos) ==
  /\ ((\E k \in 1..Len(flos) : \E i \in 1..Len(flos[k]) : flos[k][i] # 0) => s.nontrivial)
  /\ (s.linear => (s.nx1 = 0 /\ s.nz1 = 0 /\ ~s.nontrivial))
=============================================================================
