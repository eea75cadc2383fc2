----------------------------- MODULE Trace_Plots -----------------------------
(***************************************************************************)
(* A record: [op, raised, panels, ...the estimates the object reports]     *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

HasNumber(p, v, halfulp) == \E i \in 1..Len(p.ylab) : Printed(p.ylab[i], v, halfulp)
\* row i of a 3-d tensor (n, n_scales, 1), as the curve over the scales
Curve3(t, i) == [k \in 1..t.sh[2] |-> At3(t, i, k, 1)]

Structure(r) ==
    LET idx == SelectSeq([i \in 1..Len(r.q.d) |-> i], LAMBDA i : ~(r.ignore_q0 /\ NEq(r.q.d[i], "0.0")))
        es == [n \in 1..Len(idx) |-> [id |-> r.q.d[idx[n]], x |-> r.j.d, y |-> Curve3(r.logvalues, idx[n]),
                 slope |-> r.zeta.d[idx[n]], b |-> r.intercept.d[idx[n]], shown |-> r.zeta.d[idx[n]]]]
    IN Panels(r.panels, es, LAMBDA p, e : HasNumber(p, e.id, "0.0005"), r.j1, r.j2, "0.000005")

Scaling(r) == Chk("curve", Len(r.panels) = 1 /\ HasCurve(r.panels[1], r.q.d, r.zeta.d))

Cumulants(r) ==
    LET es == [m \in 1..Len(r.m.d) |-> [id |-> r.m.d[m], x |-> r.j.d, y |-> Curve3(r.values, m),
                 slope |-> r.slope.d[m], b |-> r.intercept.d[m], shown |-> r.log_cumulants.d[m]]]
    IN Panels(r.panels, es, LAMBDA p, e : HasNumber(p, e.id, "0.0"), r.j1, r.j2, "0.000005")

Spectrum(r) == Chk("curve", \E k \in 1..Len(r.panels) : HasCurve(r.panels[k], r.hq.d, r.Dq.d))
               \cup Chk("count", Len(r.panels) = 1)

\* pairs of exponents: matrices (n1, n2), values (n1, n2, n_scales)
BiStructure(r) ==
    LET n1 == Len(r.q1.d)  n2 == Len(r.q2.d)
        E(a, b) == [id |-> <<r.q1.d[a], r.q2.d[b]>>, x |-> r.j.d, y |-> [k \in 1..Len(r.j.d) |-> At3(r.logvalues, a, b, k)],
                    slope |-> At2(r.zeta, a, b), b |-> At2(r.intercept, a, b), shown |-> At2(r.zeta, a, b)]
        es == [i \in 1..(n1 * n2) |-> E((i - 1) \div n2 + 1, ((i - 1) % n2) + 1)]
    IN Chk("count", Len(r.panels) = n1 * n2)
       \cup UNION {IF \E k \in 1..Len(r.panels) : Shows(r.panels[k], es[i], r.j1, r.j2, "0.005") = {} THEN {} ELSE {"panel"} : i \in 1..Len(es)}

BiCumulants(r) ==
    LET M == r.M
        E(a, b) == [id |-> <<a, b>>, x |-> r.j.d, y |-> [k \in 1..Len(r.j.d) |-> At3(r.values, a + 1, b + 1, k)],
                    slope |-> At2(r.slope, a + 1, b + 1), b |-> At2(r.intercept, a + 1, b + 1), shown |-> At2(r.log_cumulants, a + 1, b + 1)]
        es == [i \in 1..M |-> E(i, 0)] \o [i \in 1..M |-> E(0, i)] \o <<E(1, 1)>>
        Named(p, e) == p.text = "$C" \o ToString(e.id[1]) \o ToString(e.id[2]) \o "$(j)"
    IN Panels(r.panels, es, Named, r.j1, r.j2, "0.005")

Hmin(r) ==
    LET e == [id |-> 0, x |-> [i \in 1..Len(r.y.d) |-> NAdd(r.j1, i - 1)], y |-> r.y.d, slope |-> Sc(r.hmin), b |-> Sc(r.intercept), shown |-> Sc(r.hmin)]
    IN Panels(r.panels, <<e>>, LAMBDA p, x : TRUE, r.j1, r.j2, "0.000005")

\* densities r.f[i], r.s[i]; optional slope r.beta over the logged band r.band
Psd(r) ==
    LET p == r.panels[1]
        C(i) == LogCurve(r.f[i].d, r.s[i].d, r.log, r.cut)
    IN IF Len(r.panels) # 1 THEN {"count"}
       ELSE UNION {Chk("curve", HasCurve(p, C(i).x, C(i).y)) : i \in 1..Len(r.f)}
            \cup Chk("extra", Len(p.lines) = Len(r.f) + Len(r.slopes) + (IF r.slope THEN 1 ELSE 0))
            \cup Chk("slopes", \A i \in 1..Len(r.slopes) : HasCurve(p, r.slopes[i].x.d, r.slopes[i].y.d))
            \cup (IF ~r.slope THEN {}
                  ELSE Chk("slope", HasCurve(p, r.band.d, [i \in 1..Len(r.band.d) |-> NAdd(NMul(Sc(r.beta), r.band.d[i]), Sc(r.logc))]))
                       \cup Chk("legend", Legend(p, Sc(r.beta), "0.005")))
            \cup (IF r.named THEN Chk("entries", Len(p.entries) >= 2 /\ p.entries[1] = "Fourier" /\ p.entries[2] = "Wavelet") ELSE {})

RECURSIVE NTotal(_)
NTotal(t) == IF t = <<>> THEN 0 ELSE Head(t) + NTotal(Tail(t))
\* segments r.segs[i] = [f, s]: frequencies and densities of each subject
Multiscale(r) ==
    LET p == r.panels[1]
        Drawn(f, s) == LET c == LogCurve(f, s, "log2", "50.0") IN HasCurve(p, c.x, c.y)
    IN IF Len(r.panels) # 1 THEN {"count"}
       ELSE UNION {LET g == r.segs[i]  a == Average(g.f, g.s) IN
                   Chk("curve", \A k \in 1..Len(g.f) : Drawn(g.f[k], g.s[k])) \cup Chk("average", Drawn(a.f, a.s)) : i \in 1..Len(r.segs)}
            \cup Chk("extra", Len(p.lines) = NTotal([i \in 1..Len(r.segs) |-> Len(r.segs[i].f) + 1]))

\* the joint spectrum: points <<h, h', L>> of the drawn surface; which axis carries h1 is left open
Surface(r) ==
    LET c == r.c
        b == NSub(NMul(c.c20, c.c02), NMul(c.c11, c.c11))
        D(h, c0) == NSub(h, c0)
        L(h1, h2) == NAdd("1.0", NDiv(NSub(NAdd(NMul(c.c02, NMul(D(h1, c.c10), D(h1, c.c10))), NMul(c.c20, NMul(D(h2, c.c01), D(h2, c.c01)))),
                                            NMul("2.0", NMul(c.c11, NMul(D(h1, c.c10), D(h2, c.c01))))), NMul("2.0", b)))
        On(h1, h2, z) == NNearTol(z, L(h1, h2), "10.0", "1.0E-9")
        P == r.points
        \* h belongs to the surface where L(h, .) >= 0 somewhere: |h - c10| <= sqrt(-2 c20)
        tol == NMul(NSub(r.support[2], r.support[1]), NAdd("0.011", NDiv("2.0", r.resolution - 1)))
        Ends(c0, v) == LET s == NSqrt(NMul("-2.0", v)) IN <<NMax(r.support[1], NSub(c0, s)), NMin(r.support[2], NAdd(c0, s))>>
        About(a, e) == /\ NLeq(NAbs(NSub(a[1], e[1])), tol) /\ NLeq(NAbs(NSub(a[2], e[2])), tol)
                       /\ NLeq(NSub(r.support[1], "1.0E-9"), a[1]) /\ NLeq(a[2], NAdd(r.support[2], "1.0E-9"))
        one == Ends(c.c10, c.c20)  two == Ends(c.c01, c.c02)
    IN Chk("figsize", r.size = r.figsize) \cup
       Chk("support", r.range # <<>> /\ (\/ (About(r.range[1], one) /\ About(r.range[2], two))
                                        \/ (About(r.range[2], one) /\ About(r.range[1], two)))) \cup
       Chk("surface", P # <<>> /\ (\/ \A i \in 1..Len(P) : On(P[i][1], P[i][2], P[i][3])
                                   \/ \A i \in 1..Len(P) : On(P[i][2], P[i][1], P[i][3])))

Judge(r) ==
    {"C26." \o r.op \o "." \o c : c \in
      IF r.raised # "" THEN {"raised." \o r.raised}
      \* a figure is saved when asked for: the one that was drawn
      ELSE IF "saved" \in DOMAIN r /\ r.saved # "none" THEN {"saved." \o r.saved}
      ELSE CASE r.op = "structure" -> Structure(r)
             [] r.op = "scaling" -> Scaling(r)
             [] r.op = "cumulants" -> Cumulants(r)
             [] r.op = "spectrum" -> Spectrum(r)
             [] r.op = "bistructure" -> BiStructure(r)
             [] r.op = "bicumulants" -> BiCumulants(r)
             [] r.op = "hmin" -> Hmin(r)
             [] r.op \in {"psd", "fractal", "logplot"} -> Psd(r)
             [] r.op = "multiscale" -> Multiscale(r)
             [] r.op = "legendre" -> Surface(r)
             [] OTHER -> {"unknown"}}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
