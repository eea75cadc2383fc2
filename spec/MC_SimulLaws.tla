---------------------------- MODULE MC_SimulLaws ----------------------------
(***************************************************************************)
(* Simul.tla: the covariances are those of the named processes (C22, C23). *)
(***************************************************************************)
EXTENDS Simul
CONSTANTS Hs, Ns, Lams
VARIABLES N, H, lam, L
Init == N \in Ns /\ H \in Hs /\ lam \in Lams /\ L = 0
Next == L < N /\ L' = L + 1 /\ UNCHANGED <<N, H, lam>>
near(a, b) == NNearTol(a, b, "1.0", "1.0E-11")
dt == NDiv(1, N)
sig == "1.7"
C(k) == FgnCov(k, H, sig, dt)
Fgn == L = 0 =>
    /\ near(C(0), NMul(NSq(sig), NPow(dt, NMul(2, H)))) /\ \A k \in 1..N : NEq(C(k), C(-k))
    \* fractional Brownian motion: Var B(k) = sigma^2 (k dt)^2H, and its covariance
    /\ \A k \in 1..N : near(NSum([i \in 1..(k * k) |-> C(((i - 1) \div k) - ((i - 1) % k))]), NMul(NSq(sig), NPow(NMul(k, dt), NMul(2, H))))
    /\ (NEq(H, "0.5") => \A k \in 1..N : near(C(k), 0))
    /\ (NLt("0.5", H) => \A k \in 1..N : NLt(0, C(k))) /\ (NLt(H, "0.5") => NLt(C(1), 0))
    \* self-similarity: aggregating m increments
    /\ \A m \in {2, 3} : near(NSum([i \in 1..(m * m) |-> C(((i - 1) \div m) - ((i - 1) % m) + m)]),
                              NMul(NPow(m, NMul(2, H)), C(1)))
\* Schoenberg-like necessary conditions of a covariance, for every N x N minor of order 2
Psd == L = 0 => \A k \in 1..N : NLeq(NAbs(C(k)), C(0))
LogVol == L > 0 =>
    LET K == CentredCov(N, lam, L) tol == "1.0E-11" IN
    /\ near(WCov(0, lam, L), NMul(NSq(lam), NLn(L)))
    /\ \A k \in 0..N : NLeq(0, WCov(k, lam, L)) /\ (k >= L => NEq(WCov(k, lam, L), 0)) /\ NLeq(WCov(k + 1, lam, L), WCov(k, lam, L))
    \* the centred process sums to zero, symmetric, and its diagonal is non-negative
    /\ \A a \in 1..N : /\ near(NSum(K[a]), 0) /\ NLeq("-1.0E-11", K[a][a]) /\ \A b \in 1..N : near(K[a][b], K[b][a])
    /\ \A a \in 1..N : near(K[a][a], K[N + 1 - a][N + 1 - a])                    \* stationarity seen through centring
\* the shortcut for long series
At == L > 0 =>    LET t == [i \in 1..N |-> N - i] A == CentredCovAt(N, lam, L, t) K == CentredCov(N, lam, L) IN
    \A i, k \in 1..N : near(A[i][k], K[t[i] + 1][t[k] + 1])
Skew == L > 0 => LET e == [i \in 1..(2 * N) |-> ((7 * i * i + L) % 11) - 5]
                     f == [i \in 1..(2 * N) |-> IF i <= 2 * N - 1 THEN e[i] ELSE 100]   \* the last increment has no future
                     s(x) == SkewPast(x, N, "0.3", "0.8", 1, "0.4") IN
    /\ s(e) = s(f)                                                              \* causal
    /\ NearSeqTol(s(NScaleSeq(e, -2)), NScaleSeq(s(e), -2), "10.0", "1.0E-12")
    /\ NearSeqTol(s([i \in 1..(2 * N) |-> IF i = L THEN "1.0" ELSE "0.0"]),      \* impulse at L: K0 / tau^alpha afterwards
                  [k \in 1..N |-> IF N + k - L \in 1..N THEN NDiv("0.3", NPow(N + k - L, "0.8")) ELSE "0.0"], "1.0", "1.0E-12")
    /\ Diff(NCumSum(e)) = [i \in 1..(2 * N) |-> NAdd(e[i], "0.0")]
Field == (L = 0 /\ N <= 6) => LET g == Kernel(N, H) Mod(x) == (x + N) % N IN
    /\ \A a, b \in 1..N : near(g[a][b], g[b][a])
    \* the kernel sums to the filter at zero frequency (N even: -N/2 and N/2 coincide)
    /\ near(NSum([i \in 1..N |-> NSum(g[i])]), 1)
    \* H = -1: no filtering
    /\ LET d == Kernel(N, "-1.0") IN \A a, b \in 1..N : near(d[a][b], IF a = 1 /\ b = 1 THEN 1 ELSE 0)
\* the field's log-volatility: isotropic, the 1-D one along an axis (at integer lags), decreasing to zero at L
Vol2 == L > 0 => /\ \A k \in 0..(N \div 2) : LET c == WCov2(k * k, lam, L) IN
                       near(c, IF k < L THEN NMul(NSq(lam), NLn(NDiv(L, k + 1))) ELSE 0)
                 /\ \A a, b \in 0..N : /\ Torus(a, N) = Torus(N - a, N) /\ Torus(a + N, N) = Torus(a, N) /\ 2 * Torus(a, N) <= N
                                       /\ NLeq(WCov2((a + 1) * (a + 1) + b * b, lam, L), WCov2(a * a + b * b, lam, L))
=============================================================================
