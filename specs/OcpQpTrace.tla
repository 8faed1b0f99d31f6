----------------------------- MODULE OcpQpTrace -----------------------------
(* Recorded histories of QP containers, their CasADi form and their solution. *)
EXTENDS OcpQp, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, st
vars == <<tid, l, st>>
d == Traces[tid].init
E == Traces[tid].ev[l]
N == d.N

InitSt(q) == IF q.st = <<>> THEN [k \in 1..(q.N + 1) |-> EmptyStage]
             ELSE [k \in 1..(q.N + 1) |-> [f \in Fields |-> IF f \in DOMAIN q.st[k] THEN q.st[k][f] ELSE Empty(f)]]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = InitSt(Traces[tid].init)
Keep == st' = st

Known(f, i) == f \in Fields /\ 0 <= i /\ i <= N /\ ~(f \in DynF /\ i = N)
TSet == E.op = "set"
    /\ Chk("set refused", E.raised, ~Known(E.f, E.i))
    /\ st' = IF E.raised THEN st ELSE [st EXCEPT ![E.i + 1][E.f] = E.v]
TConsistent == E.op = "consistent" /\ Keep
    /\ Chk("refused as inconsistent", E.raised, ~Consistent(N, st))
    /\ (E.raised \/ Chk("dims", E.dims, DimsOf(st)))
FullStage(s) == [f \in Fields |-> IF f \in DOMAIN s THEN s[f] ELSE Empty(f)]
Same(name, got) ==
    /\ Chk("number of stages", Len(got), N + 1)
    /\ \A k \in 1..(N + 1) : SameStage(N, k - 1, st[k], FullStage(got[k])) \/ (PrintT(<<"MISMATCH", name, k - 1, st[k], got[k]>>) /\ FALSE)
TRead == E.op = "read" /\ Keep /\ Same("read", E.st)
TDict == E.op = "dict" /\ Keep
    /\ Chk("refused", E.raised, FALSE)
    /\ Same("stored and loaded", E.st)
    /\ Chk("integer fields", E.int, TRUE)
    /\ Chk("has slacks, masks, shared slacks", E.masks, <<HasSlacks(st), HasMasks(st), HasShared(st)>>)
TSolve == E.op = "solve" /\ Keep
    /\ (E.may_fail \/ Chk("status", E.status, 0))
    /\ (E.status # 0 \/ Kkt(N, st, E.sol))
    /\ (~E.hascost \/ Chk("cost", E.cost, Obj2(N, st, E.sol)))
TLicq == E.op = "licq" /\ Keep /\ Chk("LICQ", E.v, Licq(st, E.x, E.u))
THess == E.op = "hess" /\ Keep /\ Chk("Hessian block", E.v, HessBlock(st[E.i + 1]))

Rows(F(_)) == [k \in 1..(N + 1) |-> F(k)]
NRows == SumS([k \in 1..N |-> nx(st[k + 1])])
         + SumS([k \in 1..(N + 1) |-> LET s == st[k] soft == Len(SelectSeq(s.idxs_rev, LAMBDA r : r >= 0))
                                          gh == Len(Members(s, nb(s) + 1, nb(s) + ng(s), FALSE)) IN 2 * soft + gh])
TForm == E.op = "form" /\ Keep
    /\ Chk("variables covered", E.cover, TRUE)
    /\ Chk("lengths", Rows(LAMBDA k : <<Len(E.w.x[k]), Len(E.w.u[k]), Len(E.w.sl[k]), Len(E.w.su[k])>>),
                      Rows(LAMBDA k : <<nx(st[k]), nu(st[k]), ns(st[k]), ns(st[k])>>))
    /\ Chk("objective", E.f, Obj2(N, st, E.w))
    /\ Chk("bounds of x", E.B.x, Rows(LAMBDA k : VarBounds(st[k], TRUE)))
    /\ Chk("bounds of u", E.B.u, Rows(LAMBDA k : VarBounds(st[k], FALSE)))
    /\ Chk("bounds of sl", E.B.sl, Rows(LAMBDA k : SlackBounds(st[k], st[k].lls, st[k].lls_mask)))
    /\ Chk("bounds of su", E.B.su, Rows(LAMBDA k : SlackBounds(st[k], st[k].lus, st[k].lus_mask)))
    /\ Chk("dynamics", E.dyn, [k \in 1..N |-> LET e == VSub(E.w.x[k + 1], Dynamics(st[k], E.w.x[k], E.w.u[k])) IN [j \in 1..Len(e) |-> <<e[j], 0, 0>>]])
    /\ LET V(k) == Val(st[k], E.w.x[k], E.w.u[k])
           bu(k) == Members(st[k], 1, nbu(st[k]), TRUE)
           bx(k) == Members(st[k], nbu(st[k]) + 1, nb(st[k]), TRUE)
           gs(k) == Members(st[k], nb(st[k]) + 1, nb(st[k]) + ng(st[k]), TRUE)
           gh(k) == Members(st[k], nb(st[k]) + 1, nb(st[k]) + ng(st[k]), FALSE)
       IN /\ Chk("hard rows", E.hard, Rows(LAMBDA k : HardRows(st[k], gh(k), V(k))))
          /\ Chk("soft g lower", E.gl, Rows(LAMBDA k : LowRows(st[k], gs(k), V(k), E.w.sl[k])))
          /\ Chk("soft g upper", E.gu, Rows(LAMBDA k : UpRows(st[k], gs(k), V(k), E.w.su[k])))
          /\ Chk("soft x lower", E.xl, Rows(LAMBDA k : LowRows(st[k], bx(k), V(k), E.w.sl[k])))
          /\ Chk("soft x upper", E.xu, Rows(LAMBDA k : UpRows(st[k], bx(k), V(k), E.w.su[k])))
          /\ Chk("soft u lower", E.ul, Rows(LAMBDA k : LowRows(st[k], bu(k), V(k), E.w.sl[k])))
          /\ Chk("soft u upper", E.uu, Rows(LAMBDA k : UpRows(st[k], bu(k), V(k), E.w.su[k])))
    /\ Chk("number of rows", E.ng, NRows)
TPut == E.op = "put" /\ Keep
    /\ Chk("refused", E.raised, FALSE)
    /\ \A f \in {"x", "u", "sl", "su", "pi", "lam"} : Chk(f, E.back[f], E.it[f])

Step == l <= Len(Traces[tid].ev) /\ tid' = tid /\ l' = l + 1
        /\ (TSet \/ TConsistent \/ TRead \/ TDict \/ TSolve \/ TForm \/ TPut \/ TLicq \/ THess)
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceSpec == Init /\ [][Step \/ Done]_vars
=============================================================================
