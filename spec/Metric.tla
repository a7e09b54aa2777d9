------------------------------- MODULE Metric -------------------------------
(***************************************************************************)
(* Perceptual color metric of the library, in integers.                    *)
(*                                                                         *)
(* A color <<r,g,b,a>> (8 bits per channel) is converted from its gamma to *)
(* working gamma, premultiplied by alpha, and channels get weights         *)
(* a: 0.625, r: 0.5, g: 1.0, b: 0.45. Everything is scaled by 20000.       *)
(* Difference of two colors is the greater of differences seen on black    *)
(* and on white background, squared and summed over r, g, b.               *)
(* The integers have rounding errors, so every comparison of differences   *)
(* allows the tolerance Tol, which is derived from the rounding.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Tables == JsonDeserialize(IOEnv.LIQ_TABLES)
Lut    == Tables.lut
Qual   == Tables.qual     \* Qual[q+1]: greatest error (x10000) that is still quality q

HasLut(g5) == ToString(g5) \in DOMAIN Lut

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

\* color to working space
F(c, lut) ==
    LET al == c[4] IN
    IF al = 0 THEN <<0, 0, 0, 0>>
    ELSE << (lut[c[1]+1] * al + 255) \div 510,
            (lut[c[2]+1] * al + 127) \div 255,
            (lut[c[3]+1] * al * 9 + 2550) \div 5100,
            (al * 12500 + 127) \div 255 >>

Chan(x, y, al) == MaxI(Abs(x - y), Abs(x - y + al))

D(x, y) == LET al == y[4] - x[4]
               cr == Chan(x[1], y[1], al)
               cg == Chan(x[2], y[2], al)
               cb == Chan(x[3], y[3], al)
           IN  cr * cr + cg * cg + cb * cb

\* greatest error of D caused by rounding of the integers
Tol(x, y) == LET al == y[4] - x[4] IN
    5 * (Chan(x[1], y[1], al) + Chan(x[2], y[2], al) + Chan(x[3], y[3], al)) + 24

\* mean square error in internal units (x 4e8), expressed as *_error() x 10000
ToErr4(m) == (m \div 10000) * 6068 + ((m % 10000) * 6068) \div 10000

\* does the reported quality q belong to the reported error e4
QualityMatches(e4, q) ==
    /\ q \in 0..100
    /\ e4 <= Qual[q+1] + 2
    /\ q < 100 => e4 + 2 >= Qual[q+2]

PostLevel(c, b) == \* 8-bit channel with b least significant bits replaced by replicated high bits
    IF b = 0 THEN c ELSE ((c \div 2^b) * 2^b) + (c \div 2^(8-b))
=============================================================================
