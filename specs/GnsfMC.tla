-------------------------------- MODULE GnsfMC --------------------------------
(* Any split of components and equations that respects the dependencies gives a structured form with the same equations.
   All affine-plus-monomial systems of two components over a small set of coefficients. *)
EXTENDS Gnsf
VARIABLES I1, eqs
(* F_i = a_i x - e_i k + b_i u + c_i + phi_i; phi_i: a monomial in (x, xdot, z) or absent. nx = 2 or nx = nz = 1 *)
Mon(es, c) == <<(<<c, es>>)>>
Unit(i) == [j \in 1..nv |-> IF i = j THEN 1 ELSE 0]
Poly(a, e, b, phi, nx, nz) ==
  [i \in 1..nx |-> <<a[i], Unit(i)>>] \o [i \in 1..(nx + nz) |-> <<-e[i], Unit(nx + i)>>] \o <<(<<b, Unit(2 * nx + nz + 1)>>)>>
  \o (IF phi = 0 THEN <<>> ELSE <<(<<1, [j \in 1..nv |-> IF j = phi THEN 2 ELSE 0]>>)>>)
Dims == {[nx |-> 2, nz |-> 0], [nx |-> 1, nz |-> 1]}
Coef == {0, 1}
Sys == UNION {[d : {q}, a : [1..2 -> [1..q.nx -> Coef]], e : [1..2 -> [1..2 -> Coef]], b : [1..2 -> {0, 1}], phi : [1..2 -> {0, 1, q.nx + 1, q.nx + 2}]] : q \in Dims}
VARIABLE y
Init == /\ y \in {w \in Sys : w.b = <<0, 1>> /\ Rank(<<(<<w.e[1][1], w.e[1][2]>>), (<<w.e[2][1], w.e[2][2]>>)>>, 2) = 2}
        /\ m = [nx |-> y.d.nx, nz |-> y.d.nz, nu |-> 1, np |-> 0, F |-> <<>>]
        /\ s = <<>> /\ I1 = {} /\ eqs = {}
(* components of (x, z) on which phi of an equation depends *)
PhiComp(i) == IF y.phi[i] = 0 THEN {} ELSE IF y.phi[i] <= y.d.nx THEN {y.phi[i]} ELSE {y.phi[i] - y.d.nx}
Legal(c, q) == /\ Cardinality(c) = Cardinality(q)
               /\ \A i \in 1..2 : PhiComp(i) \subseteq c
               /\ \A i \in q : (\A j \in 1..2 : (y.e[i][j] # 0 => j \in c)) /\ (\A j \in 1..y.d.nx : y.a[i][j] # 0 => j \in c)
Srt(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Split == /\ s = <<>>
         /\ \E c \in SUBSET (1..2), q \in SUBSET (1..2) :
            /\ Legal(c, q)
            /\ LET nx == y.d.nx
                   cs == Srt(c)
                   os == Srt((1..2) \ c)
                   qs == Srt(q)
                   rs == Srt((1..2) \ q)
                   x1 == SelectSeq(cs, LAMBDA i : i <= nx)
                   x2 == SelectSeq(os, LAMBDA i : i <= nx)
                   z1 == SelectSeq(cs, LAMBDA i : i > nx)
                   z2 == SelectSeq(os, LAMBDA i : i > nx)
                   nn == SelectSeq(qs, LAMBDA i : y.phi[i] # 0)
               IN /\ I1' = c /\ eqs' = q
                  /\ m' = [m EXCEPT !.F = [i \in 1..2 |-> Poly(y.a[i], y.e[i], y.b[i], y.phi[i], nx, y.d.nz)]]
                  /\ s' = [nx1 |-> Len(x1), nz1 |-> Len(z1), px |-> [i \in 1..nx |-> (x1 \o x2)[i] - 1], pz |-> [i \in 1..(2 - nx) |-> (z1 \o z2)[i] - nx - 1],
                           A |-> [i \in 1..Len(qs) |-> [j \in 1..Len(x1) |-> y.a[qs[i]][x1[j]]]], B |-> [i \in 1..Len(qs) |-> <<y.b[qs[i]]>>],
                           E |-> [i \in 1..Len(qs) |-> [j \in 1..Len(cs) |-> y.e[qs[i]][cs[j]]]], c |-> [i \in 1..Len(qs) |-> 0],
                           C |-> [i \in 1..Len(qs) |-> [j \in 1..Len(nn) |-> IF nn[j] = qs[i] THEN 1 ELSE 0]], nn |-> nn,
                           ALO |-> [i \in 1..Len(rs) |-> [j \in 1..Len(x2) |-> y.a[rs[i]][x2[j]]]], BLO |-> [i \in 1..Len(rs) |-> <<y.b[rs[i]]>>],
                           ELO |-> [i \in 1..Len(rs) |-> [j \in 1..Len(os) |-> y.e[rs[i]][os[j]]]], cLO |-> [i \in 1..Len(rs) |-> 0], rs |-> rs, x1 |-> x1, cs |-> cs]
         /\ UNCHANGED y
Spec == Init /\ [][Split]_<<gnvars, I1, eqs, y>>
Pts == {[x |-> IF m.nx = 2 THEN <<v[1], v[2]>> ELSE <<v[1]>>, xdot |-> IF m.nx = 2 THEN <<v[3], v[4]>> ELSE <<v[3]>>, z |-> IF m.nz = 1 THEN <<v[2]>> ELSE <<>>, u |-> <<v[4]>>, p |-> <<>>] : v \in [1..4 -> {-1, 2}]}
Phi(i, q) == IF y.phi[i] = 0 THEN 0 ELSE LET v == Vec(q) IN v[y.phi[i]] * v[y.phi[i]]
PhiV(q) == [i \in 1..Len(s.nn) |-> Phi(s.nn[i], q)]
Flo(q) == LET k == q.xdot \o q.z IN [i \in 1..Len(s.rs) |-> LET r == s.rs[i] IN
             SumS([j \in 1..Len(s.x1) |-> y.a[r][s.x1[j]] * q.x[s.x1[j]]]) + Phi(r, q) - SumS([j \in 1..Len(s.cs) |-> y.e[r][s.cs[j]] * k[s.cs[j]]])]
Same == s # <<>> => /\ ShapesOk /\ IsPerm(s.px, m.nx)
                    /\ LET ps == SetToSeq(Pts) IN SameEquations([k \in 1..Len(ps) |-> Res(ps[k], PhiV(ps[k]), Flo(ps[k]))], [k \in 1..Len(ps) |-> FVal(ps[k])])
=============================================================================
