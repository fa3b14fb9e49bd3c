------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* The distance from a point of the plane to a surface.  A surface is a    *)
(* sequence of elements, an element the sequence of its p+1 points at      *)
(* equidistant parameters (a polynomial curve of degree p).  A surface     *)
(* keeps the shape it had when it was made: what happens to the mesh it    *)
(* was made from, and earlier questions, do not matter.                    *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences
VARIABLES shape      \* the elements, << >> when there is no surface
I(k) == DInt(k)
a ++ b == DAdd(a, b)
a -- b == DSub(a, b)
a ** b == DMul(a, b)
a // b == DDiv(a, b)
Least(S, f(_)) == CHOOSE i \in S : \A j \in S : ~DLt(f(j), f(i))
RECURSIVE SumTo(_, _)
SumTo(k, f) == IF k = 0 THEN I(0) ELSE SumTo(k - 1, f) ++ f[k]
\* the polynomial through the points of an element, in powers of its parameter
Weigh(w, el) == LET f(k) == VScale(DRat(w[k], 2), el[k]) IN
  IF Len(el) = 2 THEN VAdd(f(1), f(2)) ELSE IF Len(el) = 3 THEN VAdd(VAdd(f(1), f(2)), f(3)) ELSE VAdd(VAdd(f(1), f(2)), VAdd(f(3), f(4)))
Powers(el) ==
  IF Len(el) = 2 THEN <<el[1], Weigh(<<-2, 2>>, el)>>
  ELSE IF Len(el) = 3 THEN <<el[1], Weigh(<<-6, 8, -2>>, el), Weigh(<<4, -8, 4>>, el)>>
  ELSE <<el[1], Weigh(<<-11, 18, -9, 2>>, el), Weigh(<<18, -45, 36, -9>>, el), Weigh(<<-9, 27, -27, 9>>, el)>>
RECURSIVE Horner(_, _, _)
Horner(c, k, t) == IF k = Len(c) THEN c[k] ELSE VAxpy(t, Horner(c, k + 1, t), c[k])
At(el, t) == Horner(Powers(el), 1, t)
Far(x, y) == VNorm(VSub(x, y))
\* straight elements: the foot of the perpendicular, or the nearer end
Foot(a, b, x) == LET u == VSub(b, a) IN DMin(I(1), DMax(I(0), VDot(VSub(x, a), u) // VDot(u, u)))
\* curved elements: the best of a sequence of ever finer samples
RECURSIVE Zoom(_, _, _, _, _, _)
Zoom(c, x, mid, half, n, k) ==
  LET t(i) == DMin(I(1), DMax(I(0), mid ++ ((half ** I(i)) // I(n))))
      d == [i \in -n..n |-> Far(x, Horner(c, 1, t(i)))]
      f(i) == d[i]
      b == Least(-n..n, f)
  IN IF k = 0 THEN d[b] ELSE Zoom(c, x, t(b), half // I(n), 4, k - 1)
FromElement(el, x) == IF Len(el) = 2 THEN Far(x, At(el, Foot(el[1], el[2], x))) ELSE Zoom(Powers(el), x, DRat(1, 2), DRat(1, 2), 12, 10)
\* elements that cannot be nearest: every point is further than the size of the element allows
Length(el) == SumTo(Len(el) - 1, [i \in 1..Len(el) - 1 |-> Far(el[i], el[i + 1])])
NearNode(el, x) == LET f(i) == Far(el[i], x) IN Far(el[Least(1..Len(el), f)], x)
Distance(els, x) ==
  LET n == [e \in 1..Len(els) |-> NearNode(els[e], x)]
      fn(e) == n[e]
      top == n[Least(1..Len(els), fn)]
      C == {e \in 1..Len(els) : DLe(n[e] -- Length(els[e]), top)}
      d == [e \in C |-> FromElement(els[e], x)]
      fd(e) == d[e]
  IN d[Least(C, fd)]
\* how far a sampled minimum may lie above the true one
Slack(els) == DDec("1e-7") ** Length(els[1])

Make(els) == shape' = els
Lose == shape' = << >>
Ask == shape # << >> /\ UNCHANGED shape
=============================================================================
