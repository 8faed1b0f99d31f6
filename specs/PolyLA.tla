------------------------------- MODULE PolyLA -------------------------------
(* Integer linear algebra and polynomials with integer coefficients.          *)
(* A polynomial is a sequence of terms <<c, <<e1, .., en>>>>: c * prod vk^ek. *)
(* A matrix is a sequence of rows.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

(* equality that says what was expected when it fails *)
Chk(name, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", name, "expected", want, "recorded", got>>) /\ FALSE

SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VScale(c, a) == TLCEval([i \in 1..Len(a) |-> c * a[i]])
Zeros(n) == TLCEval([i \in 1..n |-> 0])
Dot(a, b) == SumS([i \in 1..Len(a) |-> a[i] * b[i]])
MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> Dot(M[i], v)])
ZeroMat(n, m) == TLCEval([i \in 1..n |-> Zeros(m)])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> VScale(c, A[i])])
(* M' v for M with nc columns *)
TMatVec(M, v, nc) == TLCEval([j \in 1..nc |-> SumS([i \in 1..Len(M) |-> M[i][j] * v[i]])])
(* A' W B, A and B with na, nb columns *)
Sandwich(A, W, B, na, nb) ==
    TLCEval([i \in 1..na |-> TLCEval([j \in 1..nb |->
        SumS([k \in 1..Len(A) |-> IF A[k][i] = 0 THEN 0 ELSE A[k][i] * SumS([l \in 1..Len(B) |-> W[k][l] * B[l][j]])])])])
MatMul(A, B, nb) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..nb |-> SumS([k \in 1..Len(B) |-> A[i][k] * B[k][j]])])])
Transp(A, nc) == TLCEval([j \in 1..nc |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
SubV(v, idx) == TLCEval([i \in 1..Len(idx) |-> v[idx[i] + 1]])          \* idx counts from zero
Flatten1(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
Range0(a, n) == [i \in 1..n |-> a + i - 1]                      \* a, a+1, .., a+n-1
Has(seq, e) == \E i \in 1..Len(seq) : seq[i] = e
IndexIn(seq, e) == CHOOSE i \in 1..Len(seq) : seq[i] = e        \* from one
Count(seq, e) == Cardinality({i \in 1..Len(seq) : seq[i] = e})

Pow(b, e) == IF e = 0 THEN 1 ELSE IF e = 1 THEN b ELSE IF e = 2 THEN b * b ELSE IF e = 3 THEN b * b * b ELSE b * b * b * b
Mono(es, v) == FoldLeft(LAMBDA a, b : a * b, 1, [k \in 1..Len(es) |-> Pow(v[k], es[k])])
Ev(p, v) == SumS([k \in 1..Len(p) |-> p[k][1] * Mono(p[k][2], v)])
EvS(ps, v) == TLCEval([i \in 1..Len(ps) |-> Ev(ps[i], v)])
(* derivative with respect to variable k *)
D(p, k) == LET q == SelectSeq(p, LAMBDA t : t[2][k] > 0)
           IN [i \in 1..Len(q) |-> <<q[i][1] * q[i][2][k], [q[i][2] EXCEPT ![k] = @ - 1]>>]
(* gradient with respect to the variables vs (numbered from one) *)
GradP(p, v, vs) == TLCEval([j \in 1..Len(vs) |-> Ev(D(p, vs[j]), v)])
JacP(ps, v, vs) == TLCEval([i \in 1..Len(ps) |-> GradP(ps[i], v, vs)])
HessP(p, v, vs) == TLCEval([i \in 1..Len(vs) |-> LET d == D(p, vs[i]) IN TLCEval([j \in 1..Len(vs) |-> Ev(D(d, vs[j]), v)])])
(* sum of w[i] * Hessian of ps[i] *)
WHess(ps, w, v, vs) ==
    LET n == Len(vs) nz == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : w[i] # 0)
    IN FoldLeft(LAMBDA a, i : MAdd(a, MScale(w[i], HessP(ps[i], v, vs))), ZeroMat(n, n), nz)
----------------------------------------------------------------------------
(* rank of an integer matrix with nc columns, by elimination without division *)
RECURSIVE RankR(_, _, _, _)
RankR(M, c, nc, r) ==
    IF c > nc \/ M = <<>> THEN r
    ELSE LET piv == {i \in 1..Len(M) : M[i][c] # 0}
         IN IF piv = {} THEN RankR(M, c + 1, nc, r)
            ELSE LET p == CHOOSE i \in piv : \A k \in piv : AbsI(M[i][c]) <= AbsI(M[k][c])
                     rest == SelectSeq([i \in 1..Len(M) |-> i], LAMBDA i : i # p)
                 IN RankR([k \in 1..Len(rest) |-> IF M[rest[k]][c] = 0 THEN M[rest[k]]
                           ELSE VSub(VScale(M[p][c], M[rest[k]]), VScale(M[rest[k]][c], M[p]))], c + 1, nc, r + 1)
Rank(M, nc) == RankR(M, 1, nc, 0)
=============================================================================
