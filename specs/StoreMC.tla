------------------------------- MODULE StoreMC -------------------------------
(* every short history of the stores of one small soft-constrained problem:   *)
(* what a write must leave alone, and that saving and restoring is the        *)
(* identity, for all interleavings of writes, saves and loads                 *)
EXTENDS Store, Json
CONSTANT DEPTH
D0 == JsonDeserialize("d.json")
VARIABLE n
Vals(k) == {[j \in 1..k |-> 7], [j \in 1..k |-> j]}
MCInit == n = 0 /\ CreateStore(D0, [k \in 1..(D0.N + 1) |-> Zeros(D0.nx)])
Ref == [x |-> 1]
MCNext ==
    /\ n < DEPTH /\ n' = n + 1
    /\ \/ \E f \in FieldSet, i \in 0..d.N : i < NStages(d, f) /\ ItDim(d, f, i) > 0 /\ \E v \in Vals(ItDim(d, f, i)) : SetIt(f, i, v, TRUE)
       \/ \E f \in BoundFields, i \in 0..d.N : Len(dat[i + 1][f]) > 0 /\
            \E b \in {-INFB, 0, INFB} : SetVec(f, i, [j \in 1..Len(dat[i + 1][f]) |-> b], TRUE)
       \/ \E f \in {"x", "lam"} : \E v \in Vals(SumS(Dims(d, f))) : SetFlat(f, v, TRUE)
       \/ Save("a")
       \/ "a" \in DOMAIN slots /\ Load("a", TRUE, it)
MCSpec == MCInit /\ [][MCNext]_<<storeVars, n>>
(* the multipliers of absent bounds are zero, always *)
InvMask == \A i \in 0..d.N : it["lam"][i + 1] = MaskedAt(i, it["lam"][i + 1])
InvDims == Fits(it)
(* a flat vector and its pieces determine each other *)
InvFlat == \A f \in FieldSet : Unflat(FlatOf(it[f]), Dims(d, f)) = it[f]
(* one step changes one field: an iterate field other than lam only together with no data, data of one stage at most *)
OneField == [][/\ (dat' # dat => \A f \in FieldSet \ {"lam"} : it'[f] = it[f])
               /\ Cardinality({i \in 1..(d.N + 1) : dat'[i] # dat[i]}) <= 1
               /\ (slots' # slots => it' = it /\ dat' = dat)]_<<storeVars, n>>
(* what is loaded without a change of the data is what was saved *)
RoundTrip == [][(slots' = slots /\ "a" \in DOMAIN slots /\ dat' = dat /\ it' # it /\ \E f, g \in FieldSet : f # g /\ it'[f] # it[f] /\ it'[g] # it[g])
                => \A f \in FieldSet \ {"lam"} : it'[f] = slots["a"][f]]_<<storeVars, n>>
=============================================================================
