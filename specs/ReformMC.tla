------------------------------ MODULE ReformMC ------------------------------
(* histories of up to Depth reformulations of one small problem: what the reformulations promise in terms of the *)
(* original follows from their definitions at every point of a grid                                              *)
EXTENDS Reform
CONSTANT Depth
VARIABLES n, removed, orig
Ls(y) == [type |-> "NONLINEAR_LS", yref |-> <<1>>, W |-> <<<<2>>>>, Vx |-> <<>>, Vu |-> <<>>, Vz |-> <<>>, y |-> <<y>>, psi |-> <<>>, e |-> <<>>]
NoC == [idxbx |-> <<>>, idxbu |-> <<>>, C |-> <<>>, D |-> <<>>, h |-> <<>>, phi |-> <<>>, r |-> <<>>,
        lbx |-> <<>>, ubx |-> <<>>, lbu |-> <<>>, ubu |-> <<>>, lg |-> <<>>, ug |-> <<>>, lh |-> <<>>, uh |-> <<>>, lphi |-> <<>>, uphi |-> <<>>]
D0 == [N |-> 2, nx |-> 1, nu |-> 1, nz |-> 0, np |-> 1, npg |-> 0, p |-> <<0>>, pg |-> <<>>, x0 |-> TRUE, dt |-> <<1, 1>>,
       dyn |-> [type |-> "DISCRETE", f |-> <<<< <<1, <<1, 1, 0>>>> >>>>, stages |-> 1, steps |-> 1],
       cost |-> [k \in Kinds |-> IF k = "0" THEN Ls(<<<<1, <<1, 0, 0>>>>, <<1, <<0, 1, 0>>>>>>) ELSE IF k = "p" THEN Ls(<<<<1, <<1, 1, 0>>>>>>) ELSE Ls(<<<<2, <<1, 0, 0>>>>>>)],
       con |-> [k \in Kinds |-> IF k = "0" THEN [NoC EXCEPT !.idxbx = <<0>>, !.lbx = <<1>>, !.ubx = <<1>>]
                                ELSE IF k = "p" THEN [NoC EXCEPT !.idxbu = <<0>>, !.lbu = <<-1>>, !.ubu = <<1>>, !.C = <<<<1>>>>, !.D = <<<<1>>>>, !.lg = <<-NOB>>, !.ug = <<1>>,
                                                            !.h = <<<<<<-1, <<1, 0, 0>>>>>>, <<<<1, <<1, 1, 0>>>>>>, <<<<1, <<0, 1, 0>>>>>>>>, !.lh = <<-2, -1, 0>>, !.uh = <<1, NOB, 1>>]
                                ELSE [NoC EXCEPT !.h = <<<<<<1, <<2, 0, 0>>>>>>>>, !.lh = <<0>>, !.uh = <<1>>]]]
Pts == {<<<<x>>, <<u>>, <<>>, [i \in 1..np |-> IF i = 1 THEN 0 ELSE v], [i \in 1..npg |-> 1], <<0>>>>: x \in -2..2, u \in -2..2, v \in {0, 1}}
Short(pt) == <<pt[1], pt[2], pt[3], SubSeq(pt[4], 1, np), SubSeq(pt[5], 1, npg), pt[6]>>
mvars == <<rvars, n, removed, orig>>

MCInit == (\E n0 \in BOOLEAN: Create(D0, n0)) /\ n = 0 /\ removed = FALSE /\ orig = con
Pen1 == \E k \in Kinds, w \in {1, 2}, dl \in {0, 1}: Penalty(k, <<<<1, <<1, 0, 0>>>>>>, -NOB, 0, w, dl)
Ext(h, y, w) == ToExternal(h, [k \in Kinds |-> IF y /\ k = "p" /\ Types[k] \in {"NONLINEAR_LS"} THEN np ELSE -1], [k \in Kinds |-> -1], IF y /\ Types["p"] = "NONLINEAR_LS" THEN <<1>> ELSE <<>>, <<>>)
Feas == \E a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN: Feasibility(a, b, c)
MCNext == /\ n < Depth /\ n' = n + 1
          /\ \/ (Pen1 \/ ToConl \/ Copy0 \/ KeepX0) /\ UNCHANGED <<removed, orig>>
             \/ (\E h \in {"EXACT", "GAUSS_NEWTON"}: Ext(h, FALSE, FALSE)) /\ UNCHANGED <<removed, orig>>
             \/ (\E k \in Kinds: Detect(k)) /\ orig' = con' /\ UNCHANGED removed
             \/ AddLinear(<<<<1>>>>, <<<<-1>>>>, <<-1>>, <<1>>) /\ orig' = con' /\ UNCHANGED removed
             \/ Feas /\ removed' = TRUE /\ orig' = con
Spec == MCInit /\ [][MCNext]_mvars

(* a penalty is never negative, so it can only raise the objective *)
PenaltiesPositive == \A k \in Kinds, pt \in Pts: \A i \in 1..Len(cost[k].pen): Pen2(cost[k].pen[i], Short(pt)) >= 0
(* writing the objective differently leaves its value *)
SameObjective == [][(ToConl \/ (none0 /\ Copy0) \/ (\E h \in {"EXACT", "GAUSS_NEWTON"}: Ext(h, FALSE, FALSE)) \/ (\E k \in Kinds: Detect(k)))
                     => \A k \in Kinds, pt \in Pts: CostAt(k, Short(pt)) = CostAt(k, Short(pt))']_mvars
(* detection keeps the feasible set of the stage it looks at *)
DetectKeeps == [][(\E k \in Kinds: Detect(k)) => \A k \in {"p", "e"}, pt \in Pts: ConAt(k, Short(pt)) = ConAt(k, Short(pt))']_mvars
(* the feasibility problem without objective: zero exactly at the points that were feasible *)
FeasExact == [][\A a \in BOOLEAN: Feasibility(a, FALSE, FALSE) => \A k \in Kinds, pt \in Pts: (CostAt(k, Short(pt)) = 0)' = ConAt(k, Short(pt))]_mvars
(* every constraint left holds at least where it held before *)
FeasKeeps == [][Feas => \A k \in Kinds, pt \in Pts: ConAt(k, Short(pt)) => ConAt(k, Short(pt))']_mvars
=============================================================================
