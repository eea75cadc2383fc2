------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* The validity domain of every public request, as classes of parameters   *)
(* on both sides of each boundary, and what the library must answer:       *)
(*   Refused(r)   the request raises                                       *)
(*   Warns(r)     the warnings that must be issued, a set of kinds;        *)
(*   Free(r)      kinds of warnings the contract leaves open               *)
(* A request that is not refused is answered, and issues exactly the       *)
(* warnings in Warns(r) (plus possibly some in Free(r)).                   *)
(* Whether eta_p or h_min are negative is a fact about the data, which the *)
(* trace supplies (see Trace_Domain); here it is part of the class.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Signs == {"neg", "zero", "pos"}

\* wavelet_analysis: the requested top scale against the number M of levels
\* the length allows, the leader type, the sign of eta_p, missing samples
J2s == {"none", "below", "at", "above1", "above", "float_at", "float_above"}
\* sizes: long enough for three levels; none (M = 0); shorter than the filter
Sizes == {"long", "short", "tiny"}
WavReq == {r \in [op : {"wavelet"}, j2 : J2s, p : {"none", "inf", "finite"}, eta : {"none", "neg", "pos", "some"},
                  gap : BOOLEAN, size : Sizes] :
             /\ (r.p = "finite") = (r.eta # "none")
             /\ r.size # "long" => /\ r.p # "finite" /\ ~r.gap
                                   /\ r.j2 \notin {"below", "at", "float_at"}}
Above(r) == r.j2 \in {"above1", "above", "float_above"}

\* quantities
FormalismNames == {"wavelet coef", "wavelet leader", "wavelet p-leader", "wavelet coefs", "wavelet p-leaders", "", "coef", "WAVELET COEF", "none", "wavelet leaders"}
ValidNames == {"wavelet coef", "wavelet leader", "wavelet p-leader"}
MrqReq == [op : {"mrq"}, name : FormalismNames]

\* exponent vectors
QlogReq == [op : {"qlog"}, lo : Signs \cup {"tiny"}, hi : Signs \cup {"tiny"}, n : {"one", "many"}]

\* synthesis
Hs == {"neg", "justneg", "zero", "low", "half", "high", "one", "justabove", "above", "nan"}
ValidH == {"zero", "low", "half", "high", "one"}
Boundary == {"zero", "one"}
Methods == {"cme", "chol", "unknown", "upper", "empty"}
ValidMethod == {"cme", "chol"}
Ls == {"one", "short", "equal", "justabove", "above", "twice"}
ValidL == {"one", "short", "equal"}
FgnReq == {r \in [op : {"fgn", "fbm"}, H : Hs, method : Methods, shape : {"int", "pair"}] :
             ~(r.H \in Boundary /\ r.method = "chol")}       \* the covariance is singular there (for mrw also when L = 1)
MrwReq == {r \in [op : {"mrw", "mrw_cumul"}, H : Hs, L : Ls, method : Methods, shape : {"int", "pair"}] :
             ~((r.H \in Boundary \/ r.L = "one") /\ r.method = "chol")}
SkewReq == [op : {"skewed_mrw"}, H : Hs, L : Ls, dt : {"one", "half"}, shape : {"int", "pair"}, mirror : BOOLEAN]

\* uniform regularity
HminReq == [op : {"hmin"}, sign : {"neg", "someneg", "zero", "pos"}, warn : {"default", "yes", "no"}, weighted : BOOLEAN,
                  via : {"direct", "return_y", "plot"}]
           \cup [op : {"hmin"}, sign : {"neg", "pos"}, warn : {"default"}, weighted : BOOLEAN, via : {"mf", "full", "Signal"}]

\* a Signal on which the wavelet analysis was not done, or failed
SignalReq == [op : {"signal"}, est : {"mf_analysis", "hurst", "hmin"}, before : {"nothing", "psd", "failed", "fractal", "wavelet"}]

\* analyses of data inside of the domain (hmin >= 0): silent
AnalysisReq == [op : {"analysis"}, fn : {"structure", "cumulants", "spectrum", "hurst", "full", "minimal", "welch", "wpsd",
                  "beta", "fractal", "bi", "bifull", "scale", "signal"}, p : {"none", "inf", "finite"}, R : {1, 2}, gap : BOOLEAN,
                  weighted : BOOLEAN]

Requests == WavReq \cup MrqReq \cup QlogReq \cup FgnReq \cup MrwReq \cup SkewReq \cup HminReq \cup SignalReq \cup AnalysisReq

Refused(r) ==
    CASE r.op = "mrq" -> r.name \notin ValidNames
      [] r.op = "qlog" -> r.lo \notin {"pos", "tiny"} \/ r.hi \notin {"pos", "tiny"}
      [] r.op \in {"fgn", "fbm"} -> r.H \notin ValidH \/ r.method \notin ValidMethod
      [] r.op \in {"mrw", "mrw_cumul"} -> r.H \notin ValidH \/ r.L \notin ValidL \/ r.method \notin ValidMethod
      [] r.op = "skewed_mrw" -> r.H \notin ValidH \/ r.L \notin ValidL
      [] r.op = "signal" -> r.before # "wavelet"
      [] OTHER -> FALSE

\* eta: the classes "neg" and "some" have a realisation with eta_p <= 0
Warns(r) ==
    CASE r.op = "wavelet" -> (IF Above(r) THEN {"level"} ELSE {}) \cup (IF r.eta \in {"neg", "some"} THEN {"eta"} ELSE {})
      [] r.op = "hmin" -> IF r.sign \in {"neg", "someneg"} /\ r.warn # "no" THEN {"hmin"} ELSE {}
      [] OTHER -> {}

\* left open: an h_min of exactly zero, rounding at the ends of [0, 1] and where the
\* log-volatility has zero covariance
Free(r) ==
    CASE r.op = "hmin" -> IF r.sign = "zero" /\ r.warn # "no" THEN {"hmin"} ELSE {}
      [] r.op \in {"fgn", "fbm"} -> IF r.H \in Boundary THEN {"embedding"} ELSE {}
      [] r.op \in {"mrw", "mrw_cumul", "skewed_mrw"} -> IF r.H \in Boundary \/ r.L = "one" THEN {"embedding"} ELSE {}
      [] OTHER -> {}

TypeOK == \A r \in Requests : /\ Refused(r) \in BOOLEAN
                              /\ Warns(r) \cap Free(r) = {}
                              /\ (Refused(r) => Warns(r) = {})
\* every boundary has requests on both sides
BothSides == \A op \in {"mrq", "qlog", "fgn", "fbm", "mrw", "mrw_cumul", "skewed_mrw", "signal"} :
                {Refused(r) : r \in {x \in Requests : x.op = op}} = BOOLEAN
\* a request is refused because of one parameter: moving that parameter
\* back inside and leaving the others answers it or leaves another culprit
Monotone == \A r \in MrwReq : Refused(r) <=>
                 \/ Refused([r EXCEPT !.L = "one", !.method = "cme"])
                 \/ Refused([r EXCEPT !.H = "half", !.method = "cme"])
                 \/ Refused([r EXCEPT !.H = "half", !.L = "one"])
=============================================================================
