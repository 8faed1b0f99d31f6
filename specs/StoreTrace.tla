------------------------------ MODULE StoreTrace ------------------------------
EXTENDS Store, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ CreateStore(Traces[tid].init, Traces[tid].x)
Same == UNCHANGED storeVars
FLD(r, f) == r[f]
SameIt(name, got, want) == \A f \in FieldSet : Chk(<<name, f>>, got[f], want[f])
DatFields == {"yref", "W", "zl", "zu", "Zl", "Zu", "scaling", "lbx", "ubx", "lbu", "ubu", "lg", "ug", "C", "D", "lh", "uh", "p"}
TSet == IsEvent("set") /\ SetIt(E.f, E.i, E.v, E.ok)
TVec == IsEvent("vec") /\ SetVec(E.f, E.i, E.v, E.ok)
TMat == IsEvent("mat") /\ SetMat(E.f, E.i, E.r, E.c, E.v, E.ok)
TFlat == IsEvent("setflat") /\ SetFlat(E.f, E.v, E.ok)
TFlatP == IsEvent("setflatp") /\ SetFlatP(E.v, E.ok)
TSparse == IsEvent("sparse") /\ SetSparse(E.i, E.idx, E.v, E.ok)
TPG == IsEvent("pg") /\ SetPG(E.v, E.ok)
TGet == IsEvent("get") /\ Same /\ Chk(<<"get", E.f, E.i>>, E.v, it[E.f][E.i + 1])
TGetFlat == IsEvent("getflat") /\ Same /\ Chk(<<"getflat", E.f>>, E.v, FlatOf(it[E.f]))
TGetFlatP == IsEvent("getflatp") /\ Same /\ Chk("getflat p", E.v, Flatten1([k \in 1..(d.N + 1) |-> dat[k]["p"]]))
TGetPG == IsEvent("getpg") /\ Same /\ Chk("p_global", E.v, pg)
TGetDat == IsEvent("getdat") /\ Same /\ Chk(<<"getdat", E.f, E.i>>, E.v, dat[E.i + 1][E.f])
TDump == /\ IsEvent("dump") /\ Same /\ SameIt("iterate", E.it, it)
         /\ \A k \in 1..(d.N + 1) : \A f \in DatFields : Chk(<<"data", f, k - 1>>, E.dat[k][f], dat[k][f])
TDumpIt == IsEvent("dumpit") /\ Same /\ SameIt("iterate", E.it, it)
(* saved iterates *)
TSave == IsEvent("save") /\ Save(E.s)
TLoad == IsEvent("load") /\ Load(E.s, E.ok, E.now)
TNew == IsEvent("new") /\ Put(E.s, E.v)
TCopy == IsEvent("copy") /\ Put(E.t, slots[E.s])            \* a conversion there and back
TRead == IsEvent("read") /\ Same /\ SameIt("slot", E.v, slots[E.s])
TReadFlat == IsEvent("readflat") /\ Same /\ SameIt("flat", E.v, FlatIt(slots[E.s]))
TJson == IsEvent("json") /\ Same /\ Chk("json", {<<E.recs[k][1], E.recs[k][2], E.recs[k][3], E.recs[k][4]>> : k \in {j \in 1..Len(E.recs) : Len(E.recs[j][4]) > 0}}, JsonSet(slots[E.s]))
         /\ \A k \in 1..Len(E.recs) : Len(E.recs[k][4]) > 0 \/ slots[E.s][E.recs[k][1]][E.recs[k][2] + 1] = <<>>
TClose == IsEvent("allclose") /\ Same /\ Chk("allclose", E.v, \A f \in FieldSet : FlatIt(slots[E.s])[f] = FlatIt(slots[E.t])[f])
TArith == /\ IsEvent("arith") /\ Same
          /\ LET a == FlatIt(slots[E.s]) b == FlatIt(slots[E.t]) IN
             SameIt("add", E.add, AddF(a, b)) /\ SameIt("sub", E.sub, SubF(a, b)) /\ Chk("inf_norm", E.norm, InfNorm(SubF(a, b)))
TArray == IsEvent("array") /\ Same /\ Chk("as_array", E.v, [k \in 1..Len(E.list) |-> slots[E.list[k]][E.f]])
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<storeVars, tid, l>>
TraceNext == TSet \/ TVec \/ TMat \/ TFlat \/ TFlatP \/ TSparse \/ TPG \/ TGet \/ TGetFlat \/ TGetFlatP \/ TGetPG \/ TGetDat \/ TDump \/ TDumpIt
             \/ TSave \/ TLoad \/ TNew \/ TCopy \/ TRead \/ TReadFlat \/ TJson \/ TClose \/ TArith \/ TArray \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<storeVars, tid, l>>
=============================================================================
