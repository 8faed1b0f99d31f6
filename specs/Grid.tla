--------------------------------- MODULE Grid ---------------------------------
(* Shooting grid and cost scaling of a solver, from the description to the matrices of the QP.
   Times, time steps and scalings are integers, in quarters.
   d: the description the code was generated from
   g: what the solver works with: n intervals, ts (n), sc (n + 1), per-stage numerical data of the cost, integrator settings
   py: the grid that the Python object reports *)
EXTENDS PolyLA, TLC
VARIABLES d, g, py
gvars == <<d, g, py>>

Sum(s) == FoldLeft(LAMBDA a, e : a + e, 0, s)
CumSum(s, start) == FoldLeft(LAMBDA a, e : Append(a, a[Len(a)] + e), <<start>>, s)
Diffs(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]

(* ---- description: N, tf (NONE if not given), steps, nodes, scaling: each a sequence or <<>> for "not given", one: the unit ---- *)
NONE == -1
Steps(q) == IF q.steps # <<>> THEN q.steps ELSE IF q.nodes # <<>> THEN Diffs(q.nodes) ELSE [i \in 1..q.N |-> q.tf \div q.N]
GridOk(q) ==
  /\ q.tf # NONE
  /\ (q.steps # <<>> => Len(q.steps) = q.N)
  /\ (q.steps = <<>> /\ q.nodes # <<>> => Len(q.nodes) = q.N + 1)
  /\ Sum(Steps(q)) = q.tf
  /\ (q.scaling # <<>> => Len(q.scaling) = q.N + 1)
Grid(q) == [N |-> q.N, tf |-> q.tf, steps |-> Steps(q),
            nodes |-> IF q.steps = <<>> /\ q.nodes # <<>> THEN q.nodes ELSE CumSum(Steps(q), 0),
            scaling |-> IF q.scaling # <<>> THEN q.scaling ELSE Append(Steps(q), q.one)]

(* ---- the solver ---- *)
(* entry of stage k of a per-stage option of the description; further stages take the last one *)
PerStage(s, k) == IF k <= Len(s) THEN s[k] ELSE Last(s)
Defaults(n) == [W |-> [k \in 1..(n + 1) |-> IF k = n + 1 THEN d.We ELSE d.W], y |-> [k \in 1..(n + 1) |-> IF k = n + 1 THEN d.ye ELSE d.y]]
Create ==
  /\ g = LET q == Grid(d.grid) num == Defaults(q.N) IN [n |-> q.N, ts |-> q.steps, sc |-> q.scaling, W |-> num.W, y |-> num.y]
  /\ py = LET q == Grid(d.grid) IN [n |-> q.N, ts |-> q.steps, tf |-> q.tf, nodes |-> q.nodes]
(* new time steps: the weights of the stages follow them; with another number of them the solver is built anew *)
NewSteps(s) ==
  /\ g' = IF Len(s) = g.n
          THEN [g EXCEPT !.ts = s, !.sc = Append(s, g.sc[g.n + 1])]
          ELSE LET num == Defaults(Len(s)) IN [n |-> Len(s), ts |-> s, sc |-> Append(s, Last(Grid(d.grid).scaling)), W |-> num.W, y |-> num.y]
  /\ py' = [n |-> Len(s), ts |-> s, tf |-> Sum(s), nodes |-> CumSum(s, 0)]
  /\ UNCHANGED d
SameSteps == UNCHANGED gvars         \* the same values again: nothing happens, explicit scaling stays
SetSteps(s) == IF s = py.ts THEN SameSteps ELSE NewSteps(s)
SetScaling(k, v) == g' = [g EXCEPT !.sc[k + 1] = v] /\ UNCHANGED <<d, py>>
SetW(k, v) == g' = [g EXCEPT !.W[k + 1] = v] /\ UNCHANGED <<d, py>>
SetY(k, v) == g' = [g EXCEPT !.y[k + 1] = v] /\ UNCHANGED <<d, py>>
(* numerical values as in the description; the grid too, unless the number of intervals is another one *)
ResetValues ==
  LET q == Grid(d.grid) num == Defaults(g.n) IN
  /\ g' = IF g.n = q.N THEN [n |-> q.N, ts |-> q.steps, sc |-> q.scaling, W |-> num.W, y |-> num.y]
          ELSE [g EXCEPT !.W = num.W, !.y = num.y]
  /\ py' = IF g.n = q.N THEN [n |-> q.N, ts |-> q.steps, tf |-> q.tf, nodes |-> q.nodes] ELSE py
  /\ UNCHANGED d
Keep == UNCHANGED gvars              \* resets of other things, other condensing

(* ---- the QP at a point [xs, us, sl, su] ---- *)
(* xdot = a x + b u + c; one step of the integrator is x |-> (al x + be (b u + c)) / 128; m steps per interval, explicit midpoint or Euler *)
Msteps(k) == PerStage(d.num_steps, k + 1)
Mstages(k) == PerStage(d.num_stages, k + 1)
Al(k) == LET t == g.ts[k + 1] m == Msteps(k) IN 128 + (32 \div m) * t * d.a + (IF Mstages(k) = 2 THEN (4 \div (m * m)) * t * t * d.a * d.a ELSE 0)
Be(k) == LET t == g.ts[k + 1] m == Msteps(k) IN (32 \div m) * t + (IF Mstages(k) = 2 THEN (4 \div (m * m)) * t * t * d.a ELSE 0)
(* times 128^2 *)
QA(k) == IF d.dyn = "DISCRETE" THEN 16384 * d.a ELSE IF Msteps(k) = 1 THEN 128 * Al(k) ELSE Al(k) * Al(k)
QG(k) == IF d.dyn = "DISCRETE" THEN 16384 ELSE IF Msteps(k) = 1 THEN 128 * Be(k) ELSE (Al(k) + 128) * Be(k)
QB(k) == QG(k) * d.b
Qb(k, p) == QA(k) * p.xs[k + 1] + QG(k) * (d.b * p.us[k + 1] + d.c) - 16384 * p.xs[k + 2]
(* cost of stage k: W/2 (vx x + vu u - y)^2, slack penalties z s + Z s^2 / 2; scaled values times 4 *)
Vx(k) == IF k = g.n THEN d.vxe ELSE d.vx
Vu(k) == IF k = g.n THEN 0 ELSE d.vu
Res(k, p) == Vx(k) * p.xs[k + 1] + (IF k = g.n THEN 0 ELSE d.vu * p.us[k + 1]) - g.y[k + 1]
Sc(k) == g.sc[k + 1]
Hxx(k) == Sc(k) * g.W[k + 1] * Vx(k) * Vx(k)
Huu(k) == Sc(k) * g.W[k + 1] * Vu(k) * Vu(k)
Hxu(k) == Sc(k) * g.W[k + 1] * Vx(k) * Vu(k)
Gx(k, p) == Sc(k) * g.W[k + 1] * Vx(k) * Res(k, p)
Gu(k, p) == Sc(k) * g.W[k + 1] * Vu(k) * Res(k, p)
Soft(k) == IF k = g.n THEN d.softe ELSE k > 0 /\ d.soft
Pen(k) == IF k = g.n THEN d.pene ELSE d.pen
Slack2(k, p) == IF ~Soft(k) THEN 0
                ELSE LET q == Pen(k) IN 2 * (q.zl * p.sl[k + 1] + q.zu * p.su[k + 1]) + q.Zl * p.sl[k + 1] * p.sl[k + 1] + q.Zu * p.su[k + 1] * p.su[k + 1]
(* value of the objective, times 8 *)
Cost8(p) == Sum([k1 \in 1..(g.n + 1) |-> Sc(k1 - 1) * (g.W[k1] * Res(k1 - 1, p) * Res(k1 - 1, p) + Slack2(k1 - 1, p))])
=============================================================================
