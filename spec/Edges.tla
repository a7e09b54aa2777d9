-------------------------------- MODULE Edges --------------------------------
(***************************************************************************)
(* Map of edges and noise, which weakens dithering at slow speeds.         *)
(*                                                                         *)
(* Contrast of a pixel with its neighbours gives two maps (edges, noise)   *)
(* of integers 0-255. They're smoothed (greatest and least of neighbours,  *)
(* a box blur) and combined, and then reduced where undithered remapping   *)
(* of the image has no runs of the same color.                             *)
(*                                                                         *)
(* Contrast is computed in floating point by the implementation, so there  *)
(* are two versions of the maps: the least and the greatest values         *)
(* possible. All the operations are monotonic.                             *)
(***************************************************************************)
EXTENDS Dither

Max4(x) == MaxI(MaxI(x[1], x[2]), MaxI(x[3], x[4]))
Bend(p, n, c) == LET f(k) == Abs(p[k] + n[k] - 2 * c[k]) IN Max4(<<f(1), f(2), f(3), f(4)>>)

PosAt(w, row, col) == row * w + col + 1
RowOf(w, k) == (k - 1) \div w
ColOf(w, k) == (k - 1) % w
Near(v, n) == MaxI(0, MinI(n - 1, v))

\* sequence of <<horizontal, vertical>> contrasts
Contrasts(X, w, h) ==
    TLCEval([k \in DOMAIN X |->
        LET r == RowOf(w, k)  c == ColOf(w, k)
            at(dr, dc) == X[PosAt(w, Near(r + dr, h), Near(c + dc, w))]
        IN  <<Bend(at(0, -1), at(0, 1), X[k]), Bend(at(-1, 0), at(1, 0), X[k])>>])

Byte(v) == IF v < 0 THEN 0 ELSE MinI(255, v \div Unit)
Sq(v) == MulDiv(v, v, Unit)
NoiseAt(hv, d) ==
    LET z == Abs(Unit - ((hv[1] + hv[2]) \div 2)) IN MaxI(80, Byte(Sq(Sq(z)) * 176 + 80 * Unit + d))
EdgeAt(hv, d) == LET e == MaxI(hv[1], hv[2]) IN IF e >= Unit + 16 THEN 0 ELSE Byte((Unit - e) * 256 + d)

Op3(M, w, h, op(_, _)) ==
    TLCEval([k \in DOMAIN M |->
        LET r == RowOf(w, k)  c == ColOf(w, k)
            at(dr, dc) == M[PosAt(w, Near(r + dr, h), Near(c + dc, w))]
        IN  op(M[k], op(op(at(0, -1), at(0, 1)), op(at(-1, 0), at(1, 0))))])
Max3(M, w, h) == Op3(M, w, h, MaxI)
Min3(M, w, h) == Op3(M, w, h, MinI)

BlurRows(M, w, h) == TLCEval([k \in DOMAIN M |-> LET r == RowOf(w, k)  c == ColOf(w, k)
                                                     at(d) == M[PosAt(w, r, Near(c + d, w))]
                                                 IN  (at(-2) + at(-1) + at(0) + at(1) + at(2) + at(3)) \div 6])
BlurCols(M, w, h) == TLCEval([k \in DOMAIN M |-> LET r == RowOf(w, k)  c == ColOf(w, k)
                                                     at(d) == M[PosAt(w, Near(r + d, h), c)]
                                                 IN  (at(-2) + at(-1) + at(0) + at(1) + at(2) + at(3)) \div 6])
Blur(M, w, h) == IF w < 7 \/ h < 7 THEN M ELSE BlurCols(BlurRows(M, w, h), w, h)

\* importance of pixels when the user has not given any: flat areas are 255, noisy ones at least 80
NoiseMap(C, w, h, d) ==
    LET noise == TLCEval([k \in DOMAIN C |-> NoiseAt(C[k], 10000 * d)])
        n2 == Blur(Max3(Max3(noise, w, h), w, h), w, h)
    IN  Min3(Min3(Min3(Max3(n2, w, h), w, h), w, h), w, h)

Smoothed(C, w, h, d) ==
    LET edges == TLCEval([k \in DOMAIN C |-> EdgeAt(C[k], 2500 * d)])
        n3 == NoiseMap(C, w, h, d)
        e2 == Max3(Min3(edges, w, h), w, h)
    IN  TLCEval([k \in DOMAIN C |-> MinI(n3[k], e2[k])])

\* <<>> if it can't be told exactly
KnownNoise(X, w, h) ==
    LET C == Contrasts(X, w, h)
        lo == NoiseMap(C, w, h, -1)
        hi == NoiseMap(C, w, h, 1)
    IN  IF lo = hi THEN lo ELSE <<>>

\* runs of the same index: for each column, how much of the neighbourhood of its run is the same (-1: not in a run)
RowRuns(I, w, h, row, skip) ==
    FoldLeft(LAMBDA acc, col :
        LET px == I[PosAt(w, row, col)]
            same(r, i) == r \in 0..h-1 /\ I[PosAt(w, r, i)] = acc[2]
        IN  IF px \in skip \/ (px = acc[2] /\ col # w - 1) THEN acc
            ELSE LET n == 10 * (col - acc[1]) + 15 * (Cardinality({i \in acc[1]..col-1 : same(row - 1, i)}) + Cardinality({i \in acc[1]..col-1 : same(row + 1, i)}))
                 IN  <<col + 1, px, TLCEval([i \in 0..w-1 |-> IF i \in acc[1]..col THEN n ELSE acc[3][i]])>>,
        <<0, I[PosAt(w, row, 0)], [i \in 0..w-1 |-> -1]>>, [c \in 1..w-1 |-> c])[3]

\* <<least, greatest>> value of e reduced by n
Reduced(e, n) ==
    LET q == (e + 128) * 255 * n  c == 383 * (20 + n)  rem == q % c  near == c \div 20000 + 1 IN
    IF n = -1 THEN <<e, e>> ELSE IF n = 0 THEN <<0, 0>>
    ELSE <<IF rem < near THEN MaxI(0, q \div c - 1) ELSE q \div c, IF c - rem < near THEN q \div c + 1 ELSE q \div c>>

(***************************************************************************)
(* Set of maps that the implementation may have; {} when there would be    *)
(* too many. Pixels that have the same values and the same runs are        *)
(* rounded the same way.                                                   *)
(***************************************************************************)
Maps(X, w, h, I, skip) ==
    LET C == Contrasts(X, w, h)
        lo == Smoothed(C, w, h, -1)
        hi == Smoothed(C, w, h, 1)
        runs == TLCEval([r \in 0..h-1 |-> RowRuns(I, w, h, r, skip)])
        n(k) == runs[RowOf(w, k)][ColOf(w, k)]
        val == TLCEval([k \in DOMAIN X |-> <<Reduced(lo[k], n(k))[1], Reduced(hi[k], n(k))[2]>>])
        class(k) == IF lo[k] = hi[k] THEN <<lo[k], n(k)>> ELSE <<k>>
        open == TLCEval({class(k) : k \in {j \in DOMAIN X : val[j][1] # val[j][2]}})
    IN  IF Cardinality(open) > 3 \/ \E k \in DOMAIN X : val[k][2] > val[k][1] + 1 THEN {}
        ELSE {TLCEval([k \in DOMAIN X |-> IF class(k) \in up THEN val[k][2] ELSE val[k][1]]) : up \in SUBSET open}
=============================================================================
