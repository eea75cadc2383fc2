------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Histories of calls on a shared heap of objects.                         *)
(*                                                                         *)
(* Every public function is an operation: it takes objects of given kinds, *)
(* one of a few parameter sets, and (synthesis) the global random state,   *)
(* and yields an object.  The contract, for every history:                 *)
(*   - no call changes an object that exists already;                      *)
(*   - the result is a function of the operation, its parameters and the   *)
(*     values of its arguments (for synthesis also of the random state),   *)
(*     the same as that of the call made in a process of its own;          *)
(*   - the settings of the process (floating point error handling, warning *)
(*     filters, plot defaults, environment, ...) are the caller's: they are *)
(*     the same after the call;                                            *)
(*   - only synthesis without supplied noise changes the random state, and *)
(*     how it changes is a function of the same things.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

O(args, res) == [args |-> args, res |-> res, rng |-> FALSE]
S(res) == [args |-> <<>>, res |-> res, rng |-> TRUE]
N == ""                                   \* nothing that can be used further
Ops == [
  wavelet     |-> O(<<"sig">>, "wt"),
  wavelet2    |-> O(<<"sig2">>, "wt2"),
  coefs       |-> O(<<"wt">>, "mrq"),
  leaders     |-> O(<<"wt">>, "mrq"),
  coefs2      |-> O(<<"wt2">>, "mrq2"),
  leaders2    |-> O(<<"wt2">>, "mrq2"),
  structure   |-> O(<<"mrq", "q">>, "sf"),
  structure2  |-> O(<<"mrq2", "q">>, "sf2"),
  cumulants   |-> O(<<"mrq">>, "cum"),
  cumulants2  |-> O(<<"mrq2">>, "cum2"),
  spectrum    |-> O(<<"mrq", "q">>, "spec"),
  spectrum2   |-> O(<<"mrq2", "q">>, "spec"),
  hmin        |-> O(<<"mrq">>, N),
  hmin2       |-> O(<<"mrq2">>, N),
  hurst       |-> O(<<"mrq">>, N),
  njinterv    |-> O(<<"mrq">>, N),
  mf          |-> O(<<"wt", "q">>, "mf"),
  mf_l        |-> O(<<"wt", "ql">>, "mf"),
  minimal_l   |-> O(<<"wt", "ql">>, N),
  full_l      |-> O(<<"sig", "ql">>, N),
  bi_l        |-> O(<<"wt", "wt", "ql", "ql">>, N),
  session_l   |-> O(<<"sig", "ql">>, N),
  minimal     |-> O(<<"wt", "q">>, N),
  full        |-> O(<<"sig", "q">>, "mf"),
  full2       |-> O(<<"sig2", "q">>, N),
  bicumulants |-> O(<<"mrq", "mrq">>, "bicum"),
  bistructure |-> O(<<"mrq", "mrq", "q", "q">>, "bisf"),
  bi          |-> O(<<"wt", "wt">>, N),
  bifull      |-> O(<<"sig", "sig">>, N),
  legendre    |-> O(<<"bicum">>, N),
  attributes  |-> O(<<"cum">>, N),
  biattr      |-> O(<<"bicum">>, N),
  intercept   |-> O(<<"sf">>, N),
  welch       |-> O(<<"sig">>, "psd"),
  wpsd        |-> O(<<"sig">>, "psd"),
  beta        |-> O(<<"psd">>, "fractal"),
  fractal     |-> O(<<"sig">>, "fractal"),
  session     |-> O(<<"sig", "q">>, N),
  linreg      |-> O(<<"arr", "arr">>, N),
  power       |-> O(<<"arr">>, "arr"),
  nansum      |-> O(<<"arr">>, N),
  nanmax      |-> O(<<"arr">>, N),
  qlog        |-> O(<<>>, "q"),
  plot_sf     |-> O(<<"sf">>, N),
  plot_scal   |-> O(<<"sf">>, N),
  plot_cum    |-> O(<<"cum">>, N),
  plot_spec   |-> O(<<"spec">>, N),
  plot_hmin   |-> O(<<"mrq">>, N),
  plot_bicum  |-> O(<<"bicum">>, N),
  plot_bisf   |-> O(<<"bisf">>, N),
  plot_psd    |-> O(<<"sig">>, N),
  plot_fractal |-> O(<<"sig">>, N),
  logplot     |-> O(<<"psd", "psd">>, N),
  fgn_z       |-> O(<<"noise">>, "arr"),
  fbm_z       |-> O(<<"noise">>, "sig"),
  chol_z      |-> O(<<"white">>, "arr"),
  mrw_z       |-> O(<<"noise", "noise">>, "sig"),
  mrwchol_z   |-> O(<<"white", "white">>, "sig"),
  mrwcumul_z  |-> O(<<"noise", "noise">>, "sig"),
  skewconv    |-> O(<<"white">>, "arr"),
  skewdumb    |-> O(<<"white">>, "arr"),
  fracint     |-> O(<<"field">>, "field"),
  fgn         |-> S("sig"),
  fbm         |-> S("sig"),
  fgnchol     |-> S("sig"),
  fbm2        |-> S("sig2"),
  mrw         |-> S("sig"),
  mrwcumul    |-> S("sig"),
  mrw2        |-> S("sig2"),
  mrw_half    |-> [args |-> <<"noise">>, res |-> "sig", rng |-> TRUE],
  skewed      |-> S("sig"),
  mrw2D       |-> S("field")]
OpNames == DOMAIN Ops
\* objects the history starts with
Initial == <<"sig", "sig", "sig2", "q", "q", "arr", "arr", "noise", "noise", "white", "white", "field",
             "wt", "wt", "mrq", "mrq", "mrq2", "ql", "ql">>
Params == 1..3

(***************************************************************************)
(* The meaning of a history, as a state machine over abstract values:      *)
(*  heap : the value of every object; memo : what calls returned before.   *)
(* A step of the implementation is an event                                *)
(*   [op, p, args (object numbers), rng0, rng1, res (value), heap1]        *)
(* where heap1 are the values of the objects after the call.               *)
(***************************************************************************)
Key(e, heap) == [op |-> e.op, p |-> e.p, a |-> [i \in 1..Len(e.args) |-> heap[e.args[i]]],
                 r |-> IF Ops[e.op].rng THEN e.rng0 ELSE 0]
Unmutated(heap, e) == \A i \in 1..Len(heap) : e.heap1[i] = heap[i]
AmbientKept(e) == e.amb0 = e.amb1
RngKept(e) == Ops[e.op].rng \/ e.rng0 = e.rng1
Repeatable(memo, k, e) == k \in DOMAIN memo => /\ memo[k].res = e.res
                                               /\ Ops[e.op].rng => memo[k].rng1 = e.rng1
\* e.fresh, e.freshrng1: the same call on copies of its arguments as the first
\* call of a new process (0: not made)
FreshResult(e) == e.fresh # 0 => e.fresh = e.res
FreshRng(e) == e.fresh # 0 => e.freshrng1 = e.rng1
\* drawing noise advances the state (two draws are not the same noise)
Advances(e) == Ops[e.op].rng /\ ~e.raised => e.rng0 # e.rng1
=============================================================================
