----------------------------- MODULE CasadiNlpMC ------------------------------
(* What was stored as a guess comes back from a solver that returns its guess, *)
(* and storing one quantity disturbs no other (primal, dual, data).            *)
EXTENDS CasadiNlp, Json
Descs == ndJsonDeserialize("descs.ndjson")
VARIABLES hist, n
Fields == {"x", "u", "sl", "su", "pi", "lam"}
Len0(i, f) == CASE f = "x" -> d.nx [] f = "u" -> Nu(d, i) [] f \in {"sl", "su"} -> Ns(d, i)
                [] f = "pi" -> IF i < d.N THEN d.nx ELSE 0 [] f = "lam" -> NLam(d, i)
(* patterns 1..2; multipliers nonnegative and complementary between lower and upper of a hard constraint *)
Pat(i, f, k) ==
    IF f # "lam" THEN [j \in 1..Len0(i, f) |-> 10 * k + j]
    ELSE LET nc == NCon(d, i) s == SlackOf(d, i) IN
         [j \in 1..NLam(d, i) |->
            IF j <= nc THEN (IF s[j] = 0 /\ (j + k) % 2 = 0 THEN 0 ELSE 10 * k + j)
            ELSE IF j <= 2 * nc THEN (IF s[j - nc] = 0 /\ (j - nc + k) % 2 = 1 THEN 0 ELSE 10 * k + j)
            ELSE 10 * k + j]
MCInit == (\E k \in 1..Len(Descs) : Create(Descs[k])) /\ hist = [t \in {} |-> 0] /\ n = 0
MCSet == \E i \in 0..d.N, f \in Fields, k \in 1..2 :
            /\ n < 3 /\ n' = n + 1 /\ (f = "pi" => i < d.N) /\ Len0(i, f) > 0
            /\ SetGuess(i, f, Pat(i, f, k))
            /\ hist' = [t \in (DOMAIN hist) \cup {<<i, f>>} |-> IF t = <<i, f>> THEN Pat(i, f, k) ELSE hist[t]]
MCSolve == /\ Solve([x0 |-> w0, p |-> pv, lamx0 |-> lamx0, lamg0 |-> lamg0, lbx |-> lbw, ubx |-> ubw, lbg |-> lbg, ubg |-> ubg],
                    [w |-> w0, lamx |-> lamx0, lamg |-> lamg0, g |-> <<>>, f |-> 0])
           /\ n' = 9 /\ UNCHANGED hist
MCNext == (n < 9) /\ (MCSet \/ MCSolve)
MCSpec == MCInit /\ [][MCNext]_<<nlpVars, hist, n>>
RoundTrip == sol.ok => \A t \in DOMAIN hist : Get(t[1], t[2]) = hist[t]
Untouched == sol.ok => \A i \in 0..d.N, f \in Fields :
                (<<i, f>> \notin DOMAIN hist /\ (f = "pi" => i < d.N) /\ Len0(i, f) > 0) =>
                    \A j \in 1..Len0(i, f) : Get(i, f)[j] = (IF f = "x" /\ d.x0 THEN d.con["0"].lbx[j] ELSE 0)
DataKept == pv = DefaultP(d) /\ lbw = BoundW(d, TRUE) /\ ubg = BoundG(d, FALSE)
=============================================================================
