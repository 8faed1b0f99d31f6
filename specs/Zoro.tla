--------------------------------- MODULE Zoro ---------------------------------
(* Zero-order robust optimisation: what the custom update of a zoRO problem does to covariances and bounds.
   d: the description of problem and scheme; everything is an integer. *)
EXTENDS PolyLA, TLC
VARIABLES d, mem, lin
(* mem: the matrices P0, W, S(igma_p) in use; lin: the linearisation point, <<>> before the first one *)
zvars == <<d, mem, lin>>

nx == d.nx
nu == d.nu
XU == Range0(1, nx + nu)
Xs == Range0(1, nx)
Us == Range0(nx + 1, nu)
Ps == Range0(nx + nu + 1, d.np)
At(k) == lin.xs[k + 1] \o (IF k < d.N THEN lin.us[k + 1] ELSE Zeros(nu)) \o lin.p
(* one step of explicit Euler of length one, or a discrete map *)
Am(k) == LET J == JacP(d.f, At(k), Xs) IN IF d.dyn = "ERK" THEN MAdd(J, Eye(nx)) ELSE J
Bm(k) == JacP(d.f, At(k), Us)
Sp(k) == JacP(d.f, At(k), Ps)

(* rows over (x, u) of the constraints of a node that may be tightened, by kind *)
Unit(i, n) == [j \in 1..n |-> IF j = i + 1 THEN 1 ELSE 0]
Rows(kind, k) ==
  CASE kind = "bx" -> [i \in 1..Len(d.idx.bx) |-> Unit(d.idx.bx[i], nx + nu)]
    [] kind = "bu" -> [i \in 1..Len(d.idx.bu) |-> Unit(nx + d.idx.bu[i], nx + nu)]
    [] kind = "g"  -> [i \in 1..Len(d.C) |-> d.C[i] \o d.D[i]]
    [] kind = "h"  -> JacP(d.h, At(k), XU)
    [] kind = "bxe" -> [i \in 1..Len(d.idx.bxe) |-> Unit(d.idx.bxe[i], nx + nu)]
    [] kind = "ge" -> [i \in 1..Len(d.Ce) |-> d.Ce[i] \o Zeros(nu)]
    [] kind = "he" -> [i \in 1..Len(d.he) |-> GradP(d.he[i], At(k), Xs) \o Zeros(nu)]
PathKinds == <<"bu", "bx", "g", "h">>
TermKinds == <<"bxe", "ge", "he">>

(* ---- feedback ---- *)
Tight(side, kind, i) == Has(d.t[side \o kind], i - 1)
(* Hessian over (x, u) of the barrier of the tightened constraints of a node, weights as given *)
Barrier(kinds, k) ==
  IF DOMAIN d.w = {} THEN ZeroMat(nx + nu, nx + nu)
  ELSE FoldLeft(LAMBDA M, s : FoldLeft(LAMBDA M1, kind :
         LET r == Rows(kind, k) IN
         FoldLeft(LAMBDA M2, i : IF Tight(s, kind, i)
                                 THEN [a \in 1..(nx + nu) |-> [b \in 1..(nx + nu) |-> M2[a][b] + d.w[s \o kind][i] * r[i][a] * r[i][b]]]
                                 ELSE M2, M1, Range0(1, Len(r))), M, kinds),
       ZeroMat(nx + nu, nx + nu), <<"l", "u">>)
Block(M, r0, r, c0, c) == [i \in 1..r |-> [j \in 1..c |-> M[r0 + i][c0 + j]]]
(* the gains Ks solve the recursion backwards from the end: (R + B'PB) K = S + B'PA *)
RECURSIVE RiccatiAt(_, _)
RiccatiAt(Ks, k) ==         \* <<cost-to-go of node k, all gains from k on are right>>
  IF k = d.N THEN <<MAdd(d.Rc.Qe, Block(Barrier(TermKinds, k), 0, nx, 0, nx)), TRUE>>
  ELSE LET n == RiccatiAt(Ks, k + 1)
           b == Barrier(PathKinds, k)
           A == Am(k)
           B == Bm(k)
           BP == MatMul(Transp(B, nu), n[1], nx)
           M == MAdd(MAdd(d.Rc.R, Block(b, nx, nu, nx, nu)), MatMul(BP, B, nu))
           r == MAdd(MAdd(d.Rc.S, Block(b, nx, nu, 0, nx)), MatMul(BP, A, nx))
           K == Ks[k + 1]
           KMK == MatMul(Transp(K, nx), MatMul(M, K, nx), nx)
           APA == MatMul(Transp(A, nx), MatMul(n[1], A, nx), nx)
       IN <<MAdd(MAdd(MAdd(d.Rc.Q, Block(b, 0, nx, 0, nx)), APA), MScale(-1, KMK)), n[2] /\ MatMul(M, K, nx) = r>>
GainsRight(Ks) ==
  /\ Len(Ks) = d.N
  /\ IF d.fb = "CONSTANT_FEEDBACK" THEN \A k \in 1..d.N : Ks[k] = d.K
     ELSE /\ Ks[1] = ZeroMat(nu, nx)        \* the initial state is known: no feedback there
          /\ d.N = 1 \/ RiccatiAt(Ks, 1)[2]

(* ---- covariances ---- *)
DiagM(w) == [i \in 1..Len(w) |-> [j \in 1..Len(w) |-> IF i = j THEN w[i] ELSE 0]]
CL(K, k) == MAdd(Am(k), MScale(-1, MatMul(Bm(k), K, nx)))
Prop(M, P) == MatMul(MatMul(M, P, nx), Transp(M, nx), nx)
Quad(M, S, n) == IF n = 0 THEN ZeroMat(nx, nx) ELSE MatMul(MatMul(M, S, n), Transp(M, n), nx)
(* Wadd: what is added to the diagonal of W, per node; <<>>: nothing *)
Noise(m, Wadd, k) == Quad(d.G, IF Wadd = <<>> THEN m.W ELSE MAdd(m.W, DiagM(Wadd[k + 1])), d.nw)
(* node k: P covariance, Pw its part from noise, Pi sensitivity with respect to the constant parameter error *)
NextNode(n, m, Ks, Wadd, k) ==
  LET M == CL(Ks[k + 1], k)
      Pw == MAdd(Prop(M, n.Pw), Noise(m, Wadd, k))
  IN CASE d.unc = "NONE" -> [P |-> Pw, Pw |-> Pw, Pi |-> n.Pi]
       [] d.unc = "NOISE" -> LET P == MAdd(Pw, Quad(Sp(k), m.S, d.np)) IN [P |-> P, Pw |-> P, Pi |-> n.Pi]
       [] d.unc = "CONSTANT" -> LET Pi == MAdd(MatMul(M, n.Pi, d.np), Sp(k)) IN [P |-> MAdd(Pw, Quad(Pi, m.S, d.np)), Pw |-> Pw, Pi |-> Pi]
Nodes(m, Ks, Wadd) ==
  FoldLeft(LAMBDA s, k : Append(s, NextNode(s[Len(s)], m, Ks, Wadd, k)),
           <<[P |-> m.P0, Pw |-> m.P0, Pi |-> ZeroMat(nx, d.np)]>>, Range0(0, d.N))
Covs(m, Ks, Wadd) == LET s == Nodes(m, Ks, Wadd) IN [k \in 1..Len(s) |-> s[k].P]

(* ---- squared back-offs ---- *)
(* of row r over (x, u) with u = -K x *)
Back(r, K, P) == LET a == [j \in 1..nx |-> r[j] - SumS([i \in 1..nu |-> r[nx + i] * K[i][j]])]
                 IN d.gamma * d.gamma * Dot(a, MatVec(P, a))
KAt(Ks, k) == Ks[IF k < d.N THEN k + 1 ELSE d.N]
BackOff(kind, Ks, Pk, k) == LET r == Rows(kind, k) IN [i \in 1..Len(r) |-> Back(r[i], KAt(Ks, k), Pk[k + 1])]
(* signed squares of the distance between the bounds in use and the original ones *)
Bounds(side, kind, Ks, Pk, k) ==
  LET b == BackOff(kind, Ks, Pk, k)
  IN [i \in 1..Len(b) |-> IF Tight(side, kind, i) /\ ~(k = 0 /\ kind # "bu") THEN (IF side = "l" THEN b[i] ELSE -b[i]) ELSE 0]

(* ---- payloads ---- *)
KeepDiag(M, w) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j /\ w[i] >= 0 THEN w[i] ELSE M[i][j]]]
Stream(m, g) ==
  [P0 |-> IF d.in.P0 THEN g.P0 ELSE IF d.in.P0_diag THEN KeepDiag(m.P0, g.P0d) ELSE m.P0,
   W |-> IF d.in.W_diag THEN KeepDiag(m.W, g.Wd) ELSE m.W,
   S |-> IF d.in.Sigma_p THEN g.S ELSE IF d.in.Sigma_p_diag THEN KeepDiag(m.S, g.Sd) ELSE m.S]
DataSize == (IF d.in.P0 THEN nx * nx ELSE 0) + (IF d.in.P0_diag THEN nx ELSE 0) + (IF d.in.W_diag THEN d.nw ELSE 0)
            + (IF d.in.W_add_diag THEN d.N * d.nw ELSE 0) + (IF d.in.Sigma_p_diag THEN d.np ELSE 0) + (IF d.in.Sigma_p THEN d.np * d.np ELSE 0)
            + (IF d.outP THEN nx * nx * (d.N + 1) ELSE 0) + (IF d.outT THEN 1 ELSE 0)

Create == mem = [P0 |-> d.P0, W |-> d.W, S |-> d.Sig] /\ lin = <<>>
Linearize(p) == lin' = p /\ UNCHANGED <<d, mem>>
Update(g) == mem' = Stream(mem, g) /\ UNCHANGED <<d, lin>>      \* a payload of the right length
UpdateNoData == UNCHANGED zvars                                 \* the matrices in use stay
UpdateRefused == UNCHANGED zvars                                \* a payload of another length
=============================================================================
