------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Improvement of a palette during the first dithered remapping of an      *)
(* image (one step of K-means): every color moves to the average of pixels *)
(* that are nearest to it. Averages are of premultiplied colors in the     *)
(* working gamma, weighted by importance of the pixels.                    *)
(*                                                                         *)
(* Pixels that are about as close to two colors may have been counted for  *)
(* either, so these colors are left undecided.                             *)
(***************************************************************************)
EXTENDS Metric, FiniteSets, SequencesExt

Nearests(P, x) ==
    LET b == FoldLeft(LAMBDA acc, y : LET d == D(x, y)  t == Tol(x, y) IN IF d < acc[1] THEN <<d, MaxI(t, acc[2])>> ELSE acc, <<2147483647, 0>>, P)
    IN  {k \in DOMAIN P : LET g == x[2] - P[k][2] IN g * g <= b[1] + b[2] /\ D(x, P[k]) <= b[1] + b[2] + Tol(x, P[k])}

\* W: <<color in the working space, weight>> of the pixels. Result: [open: undecided colors, sum: <<r, g, b, a, weight>> of each color]
Assign(P, W) ==
    FoldLeft(LAMBDA acc, xw :
                LET x == xw[1]  w == xw[2]  n == Nearests(P, x) IN
                IF w = 0 THEN acc
                ELSE IF Cardinality(n) # 1 THEN [acc EXCEPT !.open = @ \cup n]
                ELSE LET k == CHOOSE k \in n : TRUE IN
                     [acc EXCEPT !.sum[k] = <<@[1] + w * x[1], @[2] + w * x[2], @[3] + w * x[3], @[4] + w * x[4], @[5] + w>>],
             [open |-> {}, sum |-> [k \in DOMAIN P |-> <<0, 0, 0, 0, 0>>]], W)

\* is c the color of the average s
IsMean(c, s, lut) ==
    LET n == s[5]
        m(j) == (s[j] + n \div 2) \div n
        A == m(4)
        dl == 50000 \div A + 2
        un(j) == IF j = 1 THEN (m(1) * 25000) \div A ELSE IF j = 2 THEN (m(2) * 12500) \div A ELSE (m(3) * 27778) \div A
        chan(j) == /\ c[j] > 0   => un(j) + dl >= lut[c[j]]          \* (tables begin with 1)
                   /\ c[j] < 255 => un(j) - dl <= lut[c[j] + 2]
    IN  \/ A < 120                                                   \* too transparent to tell
        \/ /\ c[4] * 12500 <= 256 * A + 700
           /\ (c[4] + 1) * 12500 >= 256 * A - 700
           /\ chan(1) /\ chan(2) /\ chan(3)

WeightOf(W) == FoldLeft(LAMBDA acc, xw : acc + xw[2], 0, W)
=============================================================================
