-------------------------------- MODULE IEEE --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers as opaque values.  A number is the string of  *)
(* the 16 hex digits of its bit pattern, a vector is a sequence of numbers *)
(* and a matrix a sequence of rows.  For TLA+ every operator is            *)
(* uninterpreted; TLC evaluates them with java/IEEE.java (a module         *)
(* override).  Specifications state every rule; this module only computes. *)
(***************************************************************************)
LOCAL Opaque(x) == CHOOSE y : y = x

DAdd(a, b) == Opaque(<<"+", a, b>>)
DSub(a, b) == Opaque(<<"-", a, b>>)
DMul(a, b) == Opaque(<<"*", a, b>>)
DDiv(a, b) == Opaque(<<"/", a, b>>)
DNeg(a) == Opaque(<<"neg", a>>)
DAbs(a) == Opaque(<<"abs", a>>)
DSqrt(a) == Opaque(<<"sqrt", a>>)
DPow(a, b) == Opaque(<<"pow", a, b>>)
DExp(a) == Opaque(<<"exp", a>>)
DLog(a) == Opaque(<<"log", a>>)
DSin(a) == Opaque(<<"sin", a>>)
DCos(a) == Opaque(<<"cos", a>>)
DMin(a, b) == Opaque(<<"min", a, b>>)
DMax(a, b) == Opaque(<<"max", a, b>>)
DInt(i) == Opaque(<<"int", i>>)            \* the number of an integer
DRat(p, q) == Opaque(<<"rat", p, q>>)      \* nearest number to p/q
DDec(s) == Opaque(<<"dec", s>>)            \* nearest number to a decimal literal
DShow(a) == Opaque(<<"show", a>>)          \* decimal text, for messages
DLt(a, b) == Opaque(<<"<", a, b>>)
DLe(a, b) == Opaque(<<"<=", a, b>>)
DEq(a, b) == Opaque(<<"=", a, b>>)         \* numeric: -0 = +0, NaN # NaN
DIsNaN(a) == Opaque(<<"isnan", a>>)
DIsFinite(a) == Opaque(<<"isfinite", a>>)
DSame(a, b) == Opaque(<<"same", a, b>>)    \* same bits, or both NaN
DClose(a, b, rel, abs) == Opaque(<<"close", a, b, rel, abs>>)

VAdd(x, y) == Opaque(<<"v+", x, y>>)
VSub(x, y) == Opaque(<<"v-", x, y>>)
VMul(x, y) == Opaque(<<"v*", x, y>>)       \* elementwise
VDiv(x, y) == Opaque(<<"v/", x, y>>)       \* elementwise
VScale(s, x) == Opaque(<<"vs", s, x>>)
VAxpy(s, x, y) == Opaque(<<"axpy", s, x, y>>)  \* s*x + y
VDot(x, y) == Opaque(<<"dot", x, y>>)
VSum(x) == Opaque(<<"vsum", x>>)
VNorm(x) == Opaque(<<"norm", x>>)
VNormInf(x) == Opaque(<<"norminf", x>>)
VConst(n, s) == Opaque(<<"vconst", n, s>>)
VSame(x, y) == Opaque(<<"vsame", x, y>>)
VEq(x, y) == Opaque(<<"veq", x, y>>)
VFinite(x) == Opaque(<<"vfinite", x>>)
VClose(x, y, rel, abs) == Opaque(<<"vclose", x, y, rel, abs>>)
MatVec(A, x) == Opaque(<<"mv", A, x>>)
MatTVec(A, x) == Opaque(<<"mtv", A, x>>)
=============================================================================
