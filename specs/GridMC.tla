-------------------------------- MODULE GridMC --------------------------------
(* All short histories of changes of the grid over a small set of descriptions. *)
EXTENDS Grid
CONSTANT Depth
VARIABLES n, own        \* own: stages whose scaling the user chose since the grid was set
D0(q) == [grid |-> q, W |-> 1, We |-> 2, y |-> 1, ye |-> 0, num_steps |-> [i \in 1..q.N |-> IF i = 1 THEN 1 ELSE 2], num_stages |-> [i \in 1..q.N |-> 1],
          dyn |-> "ERK", a |-> 1, b |-> 1, c |-> 1, vx |-> 1, vu |-> 1, vxe |-> 1, soft |-> TRUE, softe |-> FALSE,
          pen |-> [zl |-> 1, zu |-> 2, Zl |-> 0, Zu |-> 1], pene |-> [zl |-> 1, zu |-> 2, Zl |-> 0, Zu |-> 1]]
Short(m) == UNION {[1..k -> {2, 4}] : k \in 1..m}
Descs == {[N |-> N, tf |-> tf, steps |-> s, nodes |-> q, scaling |-> c, one |-> 4] :
            N \in {1, 2}, tf \in {NONE, 4, 6, 8}, s \in {<<>>} \cup Short(2), q \in {<<>>, <<0, 4>>, <<4, 8>>, <<0, 2, 6>>}, c \in {<<>>, <<4, 12>>, <<8, 4, 8>>}}
Init == (\E q \in Descs : GridOk(q) /\ ~(q.steps # <<>> /\ q.nodes # <<>>) /\ (q.steps = <<>> /\ q.nodes = <<>> => q.tf % q.N = 0) /\ d = D0(q)) /\ Create /\ n = 0
        /\ own = IF d.grid.scaling = <<>> THEN {} ELSE 0..g.n
Next == n < Depth /\ n' = n + 1 /\
        (\/ \E s \in Short(3) : /\ SetSteps(s)
                                /\ own' = IF s = py.ts THEN own ELSE (IF Len(s) = g.n THEN own \cap {g.n} ELSE IF d.grid.scaling = <<>> THEN {} ELSE {Len(s)})
         \/ \E k \in 0..g.n, v \in {2, 12} : SetScaling(k, v) /\ own' = own \cup {k}
         \/ \E k \in 0..g.n : SetW(k, 3) /\ UNCHANGED own
         \/ ResetValues /\ own' = IF g.n # Grid(d.grid).N THEN own ELSE IF d.grid.scaling = <<>> THEN {} ELSE 0..g.n
         \/ Keep /\ UNCHANGED own)
Spec == Init /\ [][Next]_<<gvars, n, own>>
(* the object knows the grid of the solver, and its parts agree *)
Known == py.n = g.n /\ py.ts = g.ts
Agree == /\ Len(g.ts) = g.n /\ Len(g.sc) = g.n + 1
         /\ Diffs(py.nodes) = py.ts /\ Last(py.nodes) - py.nodes[1] = py.tf /\ Sum(py.ts) = py.tf
(* weights are the time steps (one at the end) except where the user says otherwise *)
Weighted == \A k \in 0..g.n : k \notin own => g.sc[k + 1] = (IF k = g.n THEN 4 ELSE g.ts[k + 1])
(* changing the grid is building with the new grid, unless weights were chosen at run time *)
LikeBuilt == own = {} => LET q == [d.grid EXCEPT !.N = g.n, !.tf = Sum(g.ts), !.steps = g.ts, !.nodes = <<>>] IN
                         GridOk(q) /\ Grid(q).steps = g.ts /\ Grid(q).scaling = g.sc /\ Grid(q).nodes = CumSum(g.ts, 0)
(* the step size, not the number of steps, decides to first order: intervals of zero length change nothing *)
FirstOrder == \A k \in 0..(g.n - 1) : (Msteps(k) = 1 /\ Mstages(k) = 1) => QA(k) = 16384 + 4096 * g.ts[k + 1] * d.a
=============================================================================
