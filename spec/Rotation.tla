------------------------------ MODULE Rotation ------------------------------
(* Rotations and transforms on rational numbers. A rotation is an integer   *)
(* quaternion <<w, x, y, z>> standing for the unit quaternion along it; a   *)
(* vector is <<numerators, denominator>>. Every call names the denominator  *)
(* of its result, and its result is the numerators.                         *)
EXTENDS Base
VARIABLES res
vars == <<res>>
Init == res = Ok
Norm(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Sum(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
Im(q) == <<q[2], q[3], q[4]>>
Times(p, q) == LET v == Sum(Sum(Scale(p[1], Im(q)), Scale(q[1], Im(p))), Cross(Im(p), Im(q))) IN <<p[1] * q[1] - Dot(Im(p), Im(q)), v[1], v[2], v[3]>>
\* the rotated vector, times the norm of the quaternion
Turn(q, v) == LET u == Im(q) IN Sum(Sum(Scale(q[1] * q[1] - Dot(u, u), v), Scale(2 * Dot(u, v), u)), Scale(2 * q[1], Cross(u, v)))
Rotate(q, r) == <<Turn(q, r[1]), r[2] * Norm(q)>>
Shift(r, p) == <<Sum(r[1], Scale(r[2], p)), r[2]>>
Whole(v) == <<v, 1>>
Neg(v) == Scale(-1, v)
\* a step <<kind, p, q>>: a transform or the inverse of one
Move(s, r) == IF s[1] = "inv" THEN Rotate(Conj(s[3]), Shift(r, Neg(s[2]))) ELSE Shift(Rotate(s[3], r), s[2])
RECURSIVE Moves(_, _)
Moves(ss, r) == IF ss = <<>> THEN r ELSE Move(ss[1], Moves(Tail(ss), r))       \* the last is applied first
RECURSIVE Product(_)
Product(qs) == IF Len(qs) = 1 THEN qs[1] ELSE Times(qs[1], Product(Tail(qs)))
Axes == <<"x", "y", "z">>
Single(k, a) == <<a[1], IF k = "x" THEN a[2] ELSE 0, IF k = "y" THEN a[2] ELSE 0, IF k = "z" THEN a[2] ELSE 0>>
Angle(c, k) == IF k = "x" THEN c[3] ELSE IF k = "y" THEN c[4] ELSE c[5]
Heading(k, q) == IF k = "x" THEN LET r == Turn(q, <<0, 1, 0>>) IN <<r[2], r[3]>> ELSE IF k = "y" THEN LET r == Turn(q, <<0, 0, 1>>) IN <<r[3], r[1]>> ELSE LET r == Turn(q, <<1, 0, 0>>) IN <<r[1], r[2]>>
Is(c, r, d) == r[2] = d /\ res' = OkV(r[1])
Call(c) ==
  \* a product of rotations, or one after the other; c[2]: list of <<"fwd" or "inv", q>>
  \/ c[1] \in {"product", "turns"} /\ Is(c, Rotate(Product([k \in DOMAIN c[2] |-> IF c[2][k][1] = "inv" THEN Conj(c[2][k][2]) ELSE c[2][k][2]]), Whole(c[3])), c[4])
  \* transforms: composed, applied in turn, or undone with the inverse-transform functions
  \/ c[1] \in {"composed", "applied", "composedinv"} /\ Is(c, Moves(c[2], Whole(c[3])), c[4])
  \* close to half turns, to the same and to opposite directions: the rotation is found within the precision of the arithmetic
  \/ c[1] = "axesnear" /\ (\E i \in 1..4 : c[2][i] # 0 /\ c[3][i] = 0) /\ res' = OkV(1)
  \/ c[1] = "betweennear" /\ c[2] # <<0, 0, 0, 0>> /\ c[4] >= 2 /\ c[5] # <<0, 0, 0>> /\ res' = OkV(1)
  \/ c[1] = "dirnear" /\ c[2] # <<0, 0, 0>> /\ c[4] >= 1 /\ c[5] \in {-1, 1} /\ res' = OkV(1)
  \* the rotation given by the three rotated axes; by axis and angle; by the axis and angle or rotation vector found from it
  \/ c[1] \in {"axes", "axisangle", "axisanglerad", "toaxisangle", "torotvec"} /\ Is(c, Rotate(c[2], Whole(c[3])), c[4])
  \* Euler angles, each as half angle <<cos, sin>> along it; c[2]: the order
  \/ c[1] \in {"euler", "eulervec"} /\ Is(c, Rotate(Product([k \in 1..3 |-> Single(c[2][k], Angle(c, c[2][k]))]), Whole(c[6])), c[7])
  \* pitch, yaw or roll of a rotation about a single axis
  \/ c[1] = "single" /\ Is(c, Rotate(Single(c[2], c[3]), Whole(c[4])), c[5])
  \* pitch, yaw and roll of any rotation: the angle about x, y or z at which the rotated y, z or x axis is seen along that axis
  \/ c[1] = "heading" /\ c[3] # <<0, 0, 0, 0>> /\ c[4] # <<0, 0>> /\ c[4] = Heading(c[2], c[3]) /\ res' = OkV(1)
  \* the rotation between two directions takes the one to the other and leaves what is perpendicular to both where it is
  \/ c[1] = "directions" /\ c[2] # <<0, 0, 0>> /\ c[3] # <<0, 0, 0>> /\ res' = OkV(<<c[3], Cross(c[2], c[3])>>)
  \* from one rotation to another: after the first, it makes the second
  \/ c[1] = "between" /\ Is(c, Rotate(Times(Conj(c[2]), c[3]), Whole(c[4])), c[5])
  \* a quaternion along q has length one after normalizing, and its own square root of the norm before
  \/ c[1] = "unit" /\ res' = OkV(<<Norm(c[2]), 1, 1>>)
  \/ c[1] = "identity" /\ res' = OkV(<<c[2], c[2], c[2]>>)
Observed == <<>>
=============================================================================
