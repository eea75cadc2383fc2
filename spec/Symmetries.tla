----------------------------- MODULE Symmetries -----------------------------
(***************************************************************************)
(* How a complete univariate result must change when the analysed data are *)
(* changed.  A result A has the parts                                      *)
(*   A.coefs, A.leaders : [keys, nj, v]   (v empty when not recorded)      *)
(*   A.eta, A.j2_eff                                                       *)
(*   A.dwt, A.lwt : [present, q, logvalues, zeta, intercept, H,            *)
(*                   cond, C, c, cint, cvar, U, V, Dq, hq, hmin, hint, hurst]     *)
(* (cond: factor on the tolerances for ill-conditioned inputs, 1 normally) *)
(* with shapes q <<nq>>, logvalues <<nq,J,R>>, zeta <<nq,R>>, C <<M,J,R>>, *)
(* c <<M,R>>, U, V <<J,nq,R>>, Dq, hq <<nq,R>>, hmin <<R>> ...             *)
(* Each relation is a set of violated clauses.                             *)
(***************************************************************************)
EXTENDS Tensor

STol == "1.0E-7"
Near1(a, b) == NNearTol(a, b, "1.0", STol)
ShapesOK(P) ==
    IsT(P.q) /\ LET nq == Len(P.q.d) IN
    /\ IsT(P.logvalues) /\ Len(P.logvalues.sh) = 3 /\ IsT(P.C) /\ Len(P.C.sh) = 3
    /\ LET J == P.logvalues.sh[2] R == P.logvalues.sh[3] M == P.C.sh[1] IN
       /\ P.logvalues.sh = <<nq, J, R>> /\ P.C.sh = <<M, J, R>>
       /\ HasShape(P.zeta, <<nq, R>>) /\ HasShape(P.intercept, <<nq, R>>)
       /\ (IsVec(P.H, R) \/ IsNone(P.H))
       /\ HasShape(P.c, <<M, R>>) /\ HasShape(P.cint, <<M, R>>) /\ HasShape(P.cvar, <<M, R>>)
       /\ HasShape(P.U, <<J, nq, R>>) /\ HasShape(P.V, <<J, nq, R>>)
       /\ HasShape(P.Dq, <<nq, R>>) /\ HasShape(P.hq, <<nq, R>>)
       /\ IsVec(P.hmin, R) /\ IsVec(P.hint, R) /\ IsVec(P.hurst, R)

\* The general transformation of a part: realisation r of A is compared with
\* realisation map[r] of B, where log2 of every coefficient of scale j is
\* shifted by sh0 + sh1 * j.  (amplitude: sh0 = log2|c|; gamint: sh1 = g.)
\* H does not move with sh1 (gamint is subtracted).  Only the scales of A are
\* compared (B may have more).
Ln2 == "0.6931471805599453"
Part(tag, A, B, map, sh0, sh1) ==
    IF A.present # B.present THEN {tag \o ".present"}
    ELSE IF ~A.present THEN {}
    ELSE IF ~ShapesOK(A) \/ ~ShapesOK(B) THEN {tag \o ".shape"}
    ELSE IF ~SameSeq(A.q.d, B.q.d) \/ A.C.sh[1] # B.C.sh[1] \/ B.logvalues.sh[2] < A.logvalues.sh[2] THEN {tag \o ".scales"}
    ELSE
    LET nq == Len(A.q.d)  J == A.logvalues.sh[2]  Rs == 1..Len(map)  M == A.C.sh[1]
        sh(j) == NAdd(sh0, NMul(sh1, j))
        q(i) == A.q.d[i]
        lmag == TLCEval(NAdd("1.0", NMag(A.logvalues.d)))
        cmag(m) == NPow(NAdd(NMag(SubSeq(A.C.d, 1, J * A.C.sh[3])), NAdd("2.0", NAdd(NAbs(sh0), NAbs(NMul(sh1, J))))), m)
        near(a, b, s) == NNearTol(a, b, s, NMul(STol, A.cond))
        nearc(m, a, b) == NNearTol(a, b, cmag(m), NMul("1.0E-9", A.cond))
    IN
    Chk(tag \o ".logvalues", \A i \in 1..nq, j \in 1..J, r \in Rs :
            near(At3(B.logvalues, i, j, map[r]), NAdd(At3(A.logvalues, i, j, r), NMul(q(i), sh(j))), "1.0"))
    \cup Chk(tag \o ".zeta", \A i \in 1..nq, r \in Rs : near(At2(B.zeta, i, map[r]), NAdd(At2(A.zeta, i, r), NMul(q(i), sh1)), lmag))
    \cup Chk(tag \o ".intercept", \A i \in 1..nq, r \in Rs :
            near(At2(B.intercept, i, map[r]), NAdd(At2(A.intercept, i, r), NMul(q(i), sh0)), lmag))
    \cup Chk(tag \o ".H", IF IsNone(A.H) THEN IsNone(B.H) ELSE IsT(B.H) /\ \A r \in Rs : near(B.H.d[map[r]], A.H.d[r], lmag))
    \cup Chk(tag \o ".cumulants", \A m \in 1..M, j \in 1..J, r \in Rs :
            nearc(m, At3(B.C, m, j, map[r]), IF m = 1 THEN NAdd(At3(A.C, m, j, r), NMul(Ln2, sh(j))) ELSE At3(A.C, m, j, r)))
    \cup Chk(tag \o ".log_cumulants", \A m \in 1..M, r \in Rs :
            nearc(m, At2(B.c, m, map[r]), IF m = 1 THEN NAdd(At2(A.c, m, r), sh1) ELSE At2(A.c, m, r)))
    \cup Chk(tag \o ".cumulants.intercept", \A m \in 1..M, r \in Rs :
            nearc(m, At2(B.cint, m, map[r]), IF m = 1 THEN NAdd(At2(A.cint, m, r), NMul(Ln2, sh0)) ELSE At2(A.cint, m, r)))
    \cup Chk(tag \o ".cumulants.var", \A m \in 1..M, r \in Rs : near(At2(B.cvar, m, map[r]), At2(A.cvar, m, r), "0.0"))
    \cup Chk(tag \o ".V", \A j \in 1..J, i \in 1..nq, r \in Rs : near(At3(B.V, j, i, map[r]), NAdd(At3(A.V, j, i, r), sh(j)), lmag))
    \cup Chk(tag \o ".U", \A j \in 1..J, i \in 1..nq, r \in Rs : near(At3(B.U, j, i, map[r]), At3(A.U, j, i, r), lmag))
    \cup Chk(tag \o ".Dq", \A i \in 1..nq, r \in Rs : near(At2(B.Dq, i, map[r]), At2(A.Dq, i, r), lmag))
    \cup Chk(tag \o ".hq", \A i \in 1..nq, r \in Rs : near(At2(B.hq, i, map[r]), NAdd(At2(A.hq, i, r), sh1), lmag))
    \cup Chk(tag \o ".hmin", \A r \in Rs : near(B.hmin.d[map[r]], NAdd(A.hmin.d[r], sh1), lmag))
    \cup Chk(tag \o ".hmin.intercept", \A r \in Rs : near(B.hint.d[map[r]], NAdd(A.hint.d[r], sh0), lmag))
    \cup Chk(tag \o ".hurst", \A r \in Rs : near(B.hurst.d[map[r]], NAdd(A.hurst.d[r], sh1), lmag))

\* multiresolution quantities: same counts, values scaled by 2^(sh0 + sh1 j)
\* up to the sign s
Quantity(tag, A, B, map, sh0, sh1, s) ==
    IF A.k # B.k THEN {tag \o ".present"}
    ELSE IF A.k # "mrq" THEN Chk(tag \o ".raised", A.k = "none")
    ELSE IF Len(B.keys) < Len(A.keys) THEN {tag \o ".scales"}
    ELSE
    LET J == Len(A.keys)  Rs == 1..Len(map) IN
    Chk(tag \o ".nj", \A j \in 1..J : IsT(A.nj[j]) /\ IsT(B.nj[j]) /\ \A r \in Rs : NEq(A.nj[j].d[r], B.nj[j].d[map[r]]))
    \cup (IF Len(A.v) < J \/ Len(B.v) < J THEN {} ELSE
          Chk(tag \o ".values", \A j \in 1..J :
              LET f == NMul(s, NPow("2.0", NAdd(sh0, NMul(sh1, j))))  mag == NMag(B.v[j].d) IN
              /\ IsT(A.v[j]) /\ IsT(B.v[j]) /\ Len(A.v[j].sh) = 2 /\ Len(B.v[j].sh) = 2 /\ A.v[j].sh[1] = B.v[j].sh[1]
              /\ \A k \in 1..A.v[j].sh[1], r \in Rs :
                    NNearTol(At2(B.v[j], k, map[r]), NMul(f, At2(A.v[j], k, r)), mag, "1.0E-9")))

Eta(A, B, map) == IF ~IsT(A.eta) THEN Chk("eta.none", A.eta.k = B.eta.k)
                  ELSE Chk("eta", IsT(B.eta) /\ \A r \in 1..Len(map) : Near1(B.eta.d[map[r]], A.eta.d[r]))
IdMap(R) == [r \in 1..R |-> r]
RepsOf(A) == A.R
=============================================================================
