-------------------------------- MODULE ZoroMC --------------------------------
(* Small descriptions and all histories of updates: what follows from the rules of Zoro. *)
EXTENDS Zoro
CONSTANT Depth
VARIABLES n, wadd
(* x+ = a x + b u + p (times x once more in one of them), |x| bounded at all nodes, one row g, one terminal row *)
Desc(a, b, c, K, unc, in, gamma) ==
  [fb |-> "CONSTANT_FEEDBACK", N |-> 2, gamma |-> gamma, nx |-> 1, nu |-> 1, np |-> 1, unc |-> unc, dyn |-> "DISCRETE",
   f |-> <<(<<(<<a, <<1, 0, 0>>>>), (<<b, <<0, 1, 0>>>>), (<<c, <<1, 0, 1>>>>), (<<1, <<0, 0, 1>>>>)>>)>>,
   idx |-> [bx |-> <<0>>, bu |-> <<0>>, bxe |-> <<0>>], C |-> <<<<1>>>>, D |-> <<<<-1>>>>, Ce |-> <<>>, h |-> <<>>, he |-> <<>>,
   nw |-> 1, K |-> <<<<K>>>>, G |-> <<<<1>>>>, W |-> <<<<1>>>>, P0 |-> <<<<1>>>>, Sig |-> <<<<1>>>>, in |-> in,
   outP |-> FALSE, outT |-> FALSE, w |-> [i \in {} |-> 0],
   t |-> [lbx |-> <<0>>, ubx |-> <<>>, lbu |-> <<>>, ubu |-> <<0>>, lg |-> <<>>, ug |-> <<0>>, lbxe |-> <<0>>, ubxe |-> <<0>>,
          lh |-> <<>>, uh |-> <<>>, lge |-> <<>>, uge |-> <<>>, lhe |-> <<>>, uhe |-> <<>>]]
Ins == {[P0 |-> FALSE, P0_diag |-> q, W_diag |-> w, W_add_diag |-> a, Sigma_p_diag |-> s, Sigma_p |-> FALSE] : q, w, a, s \in BOOLEAN}
Ks == [k \in 1..d.N |-> d.K]
Init == /\ \E a \in {1, 2}, b \in {0, 1}, c \in {0, 1}, K \in {0, 2}, unc \in {"NONE", "NOISE", "CONSTANT"}, in \in Ins :
             d = Desc(a, b, c, K, unc, in, 2)
        /\ mem = [P0 |-> d.P0, W |-> d.W, S |-> d.Sig] /\ lin = <<>> /\ n = 0 /\ wadd = <<>>
Points == {[xs |-> <<<<x>>, <<1>>, <<0>>>>, us |-> <<<<1>>, <<0>>>>, p |-> <<p>>] : x, p \in {-1, 1}}
V(b) == IF b THEN {<<-1>>, <<0>>} ELSE {<<>>}
Next == n < Depth /\ n' = n + 1 /\
        IF lin = <<>> THEN \E p \in Points : Linearize(p) /\ UNCHANGED wadd
        ELSE \/ \E p0 \in V(d.in.P0_diag), w \in V(d.in.W_diag), s \in V(d.in.Sigma_p_diag), a \in (IF d.in.W_add_diag THEN {<<(<<0>>), (<<2>>)>>} ELSE {<<>>}) :
                  Update([P0d |-> p0, P0 |-> <<>>, Wd |-> w, Wa |-> a, Sd |-> s, S |-> <<>>]) /\ wadd' = a
             \/ UpdateNoData /\ wadd' = <<>>
             \/ UpdateRefused /\ UNCHANGED wadd
Spec == Init /\ [][Next]_<<zvars, n, wadd>>
Now == Covs(mem, Ks, wadd)
Psd == lin # <<>> => \A k \in 1..(d.N + 1) : Now[k][1][1] >= 0
(* a bound is only ever made stricter, and only where asked for *)
Inward == lin # <<>> => \A k \in 0..d.N : \A f \in {<<s, q>> : s \in {"l", "u"}, q \in (IF k = d.N THEN {"bxe"} ELSE IF k = 0 THEN {"bu"} ELSE {"bx", "bu", "g"})} :
            LET b == Bounds(f[1], f[2], Ks, Now, k) IN
            \A i \in 1..Len(b) : (IF f[1] = "l" THEN b[i] >= 0 ELSE b[i] <= 0) /\ (~Tight(f[1], f[2], i) => b[i] = 0)
(* with more noise every covariance grows *)
MonotoneW == lin # <<>> => LET m2 == [mem EXCEPT !.W = MAdd(mem.W, <<<<1>>>>)] big == Covs(m2, Ks, wadd) IN
               \A k \in 2..(d.N + 1) : big[k][1][1] > Now[k][1][1]
(* no parameter uncertainty: all modes agree *)
ModesAgree == (lin # <<>> /\ mem.S = <<<<0>>>>) => Now = [k \in 1..(d.N + 1) |-> FoldLeft(LAMBDA P, j : MAdd(Prop(CL(d.K, j), P), Noise(mem, wadd, j)), mem.P0, Range0(0, k - 1))]
(* data that was not announced never changes a matrix *)
OnlyAnnounced == [][/\ (mem'.P0 # mem.P0 => d.in.P0_diag) /\ (mem'.W # mem.W => d.in.W_diag) /\ (mem'.S # mem.S => d.in.Sigma_p_diag)]_<<zvars, n, wadd>>
=============================================================================
