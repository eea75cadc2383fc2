-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.                                                *)
(*                                                                         *)
(* TLC has no Reals and its Int is 32 bits wide, while pymultifracs maps   *)
(* real signals to real estimates.  A number is represented by a decimal   *)
(* string, the shortest one denoting the IEEE double ("0.1", "-3.5E-9",    *)
(* "Infinity", "NaN").  The primitive operators below are evaluated by the *)
(* Java module override Num.java (IEEE double arithmetic, StrictMath); an  *)
(* Int is accepted wherever a number is.  They are the only uninterpreted  *)
(* part of the specification: every formula of the library is written in   *)
(* TLA+ on top of them.  NumLaws.tla lets TLC check the laws of an ordered *)
(* field, logarithm and power that the specification relies on.            *)
(*                                                                         *)
(* "NaN" is the specification's "missing value"; the modules using it      *)
(* handle it explicitly (IsNaN) wherever it may occur.                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Uninterpreted == CHOOSE x \in {} : TRUE

\* Primitive operators (Java override)
NAdd(a, b) == Uninterpreted      \* a + b
NSub(a, b) == Uninterpreted      \* a - b
NMul(a, b) == Uninterpreted      \* a * b
NDiv(a, b) == Uninterpreted      \* a / b
NPow(a, b) == Uninterpreted      \* a ^ b  (a >= 0, or b integer)
NLog2(a)   == Uninterpreted      \* base 2 logarithm
NLn(a)     == Uninterpreted      \* natural logarithm
NExp(a)    == Uninterpreted      \* exponential
NSqrt(a)   == Uninterpreted      \* square root
NCos(a)    == Uninterpreted      \* cosine
NSin(a)    == Uninterpreted      \* sine
NLeq(a, b) == Uninterpreted      \* a <= b  (FALSE if either is NaN)
NLt(a, b)  == Uninterpreted      \* a < b   (FALSE if either is NaN)
NEq(a, b)  == Uninterpreted      \* a = b as numbers (FALSE for NaN)
NFloor(a)  == Uninterpreted      \* largest Int <= a (32-bit range)
NNorm(a)   == Uninterpreted      \* canonical representation of a

NaN == "NaN"
Inf == "Infinity"
NegInf == "-Infinity"
NPi == "3.141592653589793"
IsNaN(a) == NNorm(a) = NaN
IsFinite(a) == ~IsNaN(a) /\ NLt(NegInf, a) /\ NLt(a, Inf)
NNeg(a) == NSub("0.0", a)
\* (operators below with an override in Num.java: IsNaN, NAbs, NMag, NNearTol)
NAbs(a) == IF NLeq("0.0", a) THEN NAdd("0.0", a) ELSE NSub("0.0", a)
NMax(a, b) == IF NLeq(b, a) THEN a ELSE b
NMin(a, b) == IF NLeq(a, b) THEN a ELSE b
NSq(a) == NMul(a, a)

\* Operators on sequences of numbers.  The definitions are the meaning; the
\* Java overrides of NSum, NDot and NMaxSeq only make them fast.
\* (the Java NSum adds with compensation)
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN "0.0" ELSE NAdd(Head(s), NSum(Tail(s)))
RECURSIVE NDot(_, _)
NDot(s, t) == IF s = <<>> THEN "0.0"
              ELSE NAdd(NMul(Head(s), Head(t)), NDot(Tail(s), Tail(t)))
RECURSIVE NMaxSeq(_)
NMaxSeq(s) == IF Len(s) = 1 THEN Head(s) ELSE NMax(Head(s), NMaxSeq(Tail(s)))

\* Elementwise maps, again with fast overrides.
NAbsSeq(s) == [i \in 1..Len(s) |-> NAbs(s[i])]
NPowSeq(s, q) == [i \in 1..Len(s) |-> NPow(s[i], q)]
NLog2Seq(s) == [i \in 1..Len(s) |-> NLog2(s[i])]
NLnSeq(s) == [i \in 1..Len(s) |-> NLn(s[i])]
NMulSeq(s, t) == [i \in 1..Len(s) |-> NMul(s[i], t[i])]
NScaleSeq(s, a) == [i \in 1..Len(s) |-> NMul(s[i], a)]
NShiftSeq(s, a) == [i \in 1..Len(s) |-> NAdd(s[i], a)]
NStride(s, from, step) == [i \in 1..((Len(s) - from) \div step + 1) |-> s[from + (i - 1) * step]]
NCumSum(s) == [i \in 1..Len(s) |-> NSum(SubSeq(s, 1, i))]

\* The non-missing entries of a sequence, in order (Java override: fast).
NValid(s) == SelectSeq(s, LAMBDA a : ~IsNaN(a))

\* Largest magnitude of a sequence (0 for the empty one), ignoring missing.
NMag(s) == LET v == NValid(s) IN
           IF v = <<>> THEN "0.0" ELSE NMaxSeq([i \in 1..Len(v) |-> NAbs(v[i])])

\* Equality up to rounding.  `scale` is the magnitude of the quantities the
\* two numbers were computed from; Tol leaves room for any reordering of
\* floating point operations (about 1E-15 relative) amplified by cancellation.
Tol == "1.0E-8"
NNearTol(a, b, scale, tol) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b)
    ELSE \/ NEq(a, b)
         \/ /\ IsFinite(a) /\ IsFinite(b)
            /\ NLeq(NAbs(NSub(a, b)),
                    NMul(tol, NAdd(NAbs(scale), NAdd(NAbs(a), NAbs(b)))))
NNear(a, b, scale) == NNearTol(a, b, scale, Tol)
=============================================================================
