-------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* The same numbers, stored differently.                                   *)
(*                                                                         *)
(* An array is a memory (a function from addresses to cells) and a         *)
(* descriptor: the address of the first element, the shape, how far the    *)
(* addresses of neighbours along each axis are apart, and how a cell       *)
(* encodes a number.  The array it stands for is Value(mem, d).  Every     *)
(* result of the library is a function of these values:                    *)
(*   - not of the order of the cells in memory, of what lies between them, *)
(*     of their encoding, or of whether they can be written to;            *)
(*   - a scalar parameter may be a number of Python or of numpy;           *)
(*   - if the cells have fewer digits than double precision, results are   *)
(*     those of double precision up to the digits of the cells.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ------------------------------------------------ arrays of two dimensions
Index(sh) == (1..sh[1]) \X (1..sh[2])
Address(d, i) == d.first + (i[1] - 1) * d.step[1] + (i[2] - 1) * d.step[2]
\* encodings: a cell holds a pair of bytes, in one of the two orders
Decode(order, cell) == IF order = "little" THEN cell[1] + 2 * cell[2] ELSE cell[2] + 2 * cell[1]
Encode(order, v) == IF order = "little" THEN <<v % 2, v \div 2>> ELSE <<v \div 2, v % 2>>
Value(mem, d) == [i \in Index(d.sh) |-> Decode(d.order, mem[Address(d, i)])]

\* the layouts numpy can give an array of n rows and m columns, by name
Layout(name, n, m) ==
    CASE name = "C" -> [first |-> 1, step |-> <<m, 1>>]
      [] name = "F" -> [first |-> 1, step |-> <<1, n>>]
      [] name = "strided" -> [first |-> 1, step |-> <<6 * m, 2>>]
      [] name = "reversed" -> [first |-> 1 + (n - 1) * m, step |-> <<-m, 1>>]
Layouts == {"C", "F", "strided", "reversed"}
Span(n, m) == 6 * n * m

\* ---------------------------------------------- what is replayed on the code
\* the representations of an argument, by the kind of the argument
Doubles == {"F", "strided", "reversed", "readonly", "bigendian", "memmap", "transposed"}
RepsOf(kind) ==
    CASE kind \in {"sig", "sig2"} -> Doubles \cup {"int64", "int32", "longdouble", "int16", "uint16", "single"}
      \* (another rounding of the coefficients decides the sign of a variance
      \* that is zero: no wider types where such a quotient is returned)
      [] kind = "pair" -> Doubles \cup {"int64", "int32", "int16", "uint16"}
      [] kind \in {"q", "q1", "q2"} -> Doubles \cup {"int64", "int32", "short"}
      [] kind = "ql" -> Doubles \cup {"int64", "int32", "short", "list", "intlist", "mixedlist"}
      [] kind \in {"mrq", "mrq2"} -> Doubles \cup {"longdouble", "single"}
      [] kind \in {"arr", "mat", "col", "weights"} -> Doubles \cup {"longdouble", "single"}
      [] kind \in {"freq", "psd"} -> Doubles \cup {"longdouble", "single", "int64"}
      [] kind \in {"noise"} -> Doubles
      [] kind \in {"white", "field"} -> Doubles \cup {"int64", "single"}
      [] kind = "scalar" -> {"numpy", "numpy32", "float"}
\* representations with fewer digits than a double (16 bit integers are
\* handled in single precision by the spectral estimators)
Reduced(rep) == rep \in {"single", "int16", "uint16", "numpy32"}
Slots == [
  wavelet     |-> <<"sig">>,          wavelet2   |-> <<"sig2">>,
  mf          |-> <<"sig", "ql">>,    minimal    |-> <<"sig2", "ql">>,
  full        |-> <<"sig", "ql">>,    full2      |-> <<"sig2", "ql">>,
  structure   |-> <<"mrq", "q">>,     structure2 |-> <<"mrq2", "q">>,
  cumulants   |-> <<"mrq">>,          cumulants2 |-> <<"mrq2">>,
  spectrum    |-> <<"mrq", "q">>,     spectrum2  |-> <<"mrq2", "q">>,
  hmin        |-> <<"mrq2">>,         hurst      |-> <<"mrq">>,
  bistructure |-> <<"mrq", "mrq", "q1", "q2">>,
  bicumulants |-> <<"mrq", "mrq">>,   legendre   |-> <<"mrq", "mrq">>,
  bi          |-> <<"pair", "pair", "ql", "ql">>, bifull     |-> <<"pair", "pair">>,
  welch       |-> <<"sig">>,          wpsd       |-> <<"sig">>,
  beta        |-> <<"freq", "psd">>,
  fractal     |-> <<"sig">>,          session    |-> <<"sig", "ql">>,
  linreg      |-> <<"col", "col", "weights">>,
  power       |-> <<"arr">>,          nanmax     |-> <<"mat">>,
  nansum      |-> <<"mat">>,          scales     |-> <<"freq">>,
  fgn         |-> <<"noise">>,        fbm        |-> <<"noise">>,
  chol        |-> <<"white">>,        mrw        |-> <<"noise", "noise">>,
  mrwchol     |-> <<"white", "white">>, mrwcumul |-> <<"noise", "noise">>,
  skewconv    |-> <<"white">>,        fracint    |-> <<"field">>,
  drawn       |-> <<>>,               qlog       |-> <<>>]
Calls == DOMAIN Slots
\* one argument at a time in every representation ("" : the plain one), for
\* three sets of parameters
One == {[call |-> c, p |-> p, reps |-> [i \in 1..Len(Slots[c]) |-> IF i = k THEN r ELSE ""], scalar |-> ""] :
            c \in Calls, p \in 1..3, k \in 1..4, r \in UNION {RepsOf(kk) : kk \in {"sig", "q", "ql", "mrq", "arr", "freq", "noise", "white"}}}
Configs == {x \in One : \E k \in 1..Len(x.reps) : x.reps[k] # "" /\ x.reps[k] \in RepsOf(Slots[x.call][k])
                                                  /\ \A m \in 1..Len(x.reps) : m # k => x.reps[m] = ""}
           \cup {[call |-> c, p |-> p, reps |-> [i \in 1..Len(Slots[c]) |-> ""], scalar |-> s] :
                    c \in Calls, p \in 1..3, s \in RepsOf("scalar")}
=============================================================================
