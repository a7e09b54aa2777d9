------------------------------- MODULE Dither -------------------------------
(***************************************************************************)
(* Error diffusion (Floyd-Steinberg, serpentine), as an automaton that     *)
(* reads the image pixel by pixel in the order of scanning, together with  *)
(* the index that the implementation has chosen for the pixel.             *)
(*                                                                         *)
(* Its state is the error carried to pixels not visited yet. The errors    *)
(* follow from the choices already made, so the automaton has to know only *)
(* the image, the palette and the choices: it accepts a choice if it is    *)
(* the color nearest to the pixel with the error added.                    *)
(*                                                                         *)
(* Numbers are integers scaled by 2^22. Comparisons with limits that are   *)
(* too close to call make the automaton nondeterministic: it is in a set   *)
(* of states, and the image is wrong when the set becomes empty.           *)
(* When there are too many states, it gives up (accepts everything).       *)
(***************************************************************************)
EXTENDS Metric, FiniteSets, SequencesExt

Unit == 4194304
Eps  == 64                        \* accumulated rounding
Fine == Tables.fine

FF(c, lut) ==
    LET al == c[4]
        g(v) == (lut[v+1] * al + 127) \div 255
    IN  IF al = 0 THEN <<0, 0, 0, 0>>
        ELSE <<(g(c[1]) + 1) \div 2, g(c[2]), (g(c[3]) * 9 + 10) \div 20, (al * 2621440 + 127) \div 255>>

Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
Part(a, n) == LET f(v) == (v * n + 8) \div 16 IN <<f(a[1]), f(a[2]), f(a[3]), f(a[4])>>
Zero4 == <<0, 0, 0, 0>>

\* v * l / 1024 without overflow
Mul1024(v, l) == (v \div 1024) * l + ((v % 1024) * l) \div 1024

\* a * b / c without overflow: 0 <= a < 2^25, 0 <= b < 2^25, 0 < c < 2^25
MulDiv(a, b, c) ==
    LET d == <<(b \div 1048576) % 32, (b \div 32768) % 32, (b \div 1024) % 32, (b \div 32) % 32, b % 32>>
        qr == FoldLeft(LAMBDA acc, x : LET y == acc[2] * 32 + a * x IN <<acc[1] * 32 + (y \div c), y % c>>, <<0, 0>>, d)
    IN  qr[1]
Sgn(x) == IF x < 0 THEN -1 ELSE 1

\* dithering strength as a fraction of 1024: response to the level (x 100000) is quadratic
LevelKnown(level) == level % 12500 = 0
Strength(level) == LET k == 8 - (level \div 12500) IN ((64 - k * k) * 15)

\* limit of error in one step, scaled by 2^26, from the palette's error (x 10000, as reported; -1 if unknown)
MaxErr(e4) == LET m == IF e4 < 0 THEN 40408 ELSE ((e4 \div 1000) * 66355) \div 100 + ((e4 % 1000) * 664) \div 1000
              IN  MaxI(66760, m)
ErrInRange(e4) == e4 < 30000000

\* is the error too small to bother with
Unnoticeable(s) ==
    LET mx == MaxI(MaxI(Abs(s[1]), Abs(s[2])), MaxI(Abs(s[3]), Abs(s[4]))) IN
    IF mx >= 65536 THEN {FALSE}
    ELSE LET f(v) == Abs(v) \div 4
             q == f(s[1]) * f(s[1]) + f(s[2]) * f(s[2]) + f(s[3]) * f(s[3]) + f(s[4]) * f(s[4])
             t == (f(s[1]) + f(s[2]) + f(s[3]) + f(s[4])) * (Eps \div 2 + 2) + 2000
         IN  IF q + t < 33554432 THEN {TRUE} ELSE IF q - t > 33554432 THEN {FALSE} ELSE {TRUE, FALSE}

Exceeds(s, m) ==
    LET f(v) == (Abs(v) + 256) \div 512
        q == f(s[1]) * f(s[1]) + f(s[2]) * f(s[2]) + f(s[3]) * f(s[3]) + f(s[4]) * f(s[4])
        t == (f(s[1]) + f(s[2]) + f(s[3]) + f(s[4])) * 2 + 4 + m \div 2000
    IN  IF q > m + t THEN {TRUE} ELSE IF q + t < m THEN {FALSE} ELSE {TRUE, FALSE}

Over  == 4613734     \* 1.1
Under == -419430     \* -0.1
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* strength l, reduced to q/255 (if q is not -1)
Scale(v, l, q) == IF q = -1 THEN Mul1024(v, l) ELSE Sgn(v) * MulDiv(Abs(v), l * q, 261120)

\* colors that the pixel x may be replaced with before the search, given the error t and the strength
WithError(x, t, l, q, m) ==
    LET s == <<Scale(t[1], l, q), Scale(t[2], l, q), Scale(t[3], l, q), Scale(t[4], l, q)>>
        part(k) == IF x[k] + s[k] > Over THEN MulDiv(Over - x[k], Unit, Abs(s[k]))
                   ELSE IF x[k] + s[k] < Under THEN MulDiv(x[k] - Under, Unit, Abs(s[k]))
                   ELSE Unit
        ratio == MinI(MinI(part(1), part(2)), part(3))
        add(k) == IF ratio = Unit THEN s[k] ELSE Sgn(s[k]) * MulDiv(Abs(s[k]), ratio, Unit)
        a == Clamp(x[4] + s[4], 0, Unit)
    IN  UNION { IF small THEN {x}
                ELSE { IF big THEN <<x[1] + (add(1) * 4) \div 5, x[2] + (add(2) * 4) \div 5, x[3] + (add(3) * 4) \div 5, a>>
                       ELSE <<x[1] + add(1), x[2] + add(2), x[3] + add(3), a>> : big \in Exceeds(s, m) }
                : small \in Unnoticeable(s) }

\* the metric, scaled by 10000
G1(v) == ((v \div 16) * 625) \div 16384
G4(x) == <<G1(x[1]), G1(x[2]), G1(x[3]), G1(x[4])>>
DTol(x, y) == LET al == y[4] - x[4] IN
    8 * (Chan(x[1], y[1], al) + Chan(x[2], y[2], al) + Chan(x[3], y[3], al)) + 48
\* is a <= b
Leq(a, b, t) == IF a + t < b THEN {TRUE} ELSE IF a > b + t THEN {FALSE} ELSE {TRUE, FALSE}

IsBest(PG, y, k) == LET d == D(y, PG[k])  t == DTol(y, PG[k]) IN
    \A j \in DOMAIN PG : LET g == y[2] - PG[j][2] IN g * g >= d \/ LET dj == D(y, PG[j]) IN d <= dj \/ d <= dj + t + DTol(y, PG[j])
BestSet(PG, y) == {k \in DOMAIN PG : IsBest(PG, y, k)}

\* state: <<1, errors of this row, errors of the next row, last match, pixels not dithered because of background>>
Unsure == <<0>>
Cap == 12

(***************************************************************************)
(* What is displayed: <<index, color, last match, undithered>> for color y *)
(* of the pixel x with the error. k is the index that has been chosen, or  *)
(* 0 if it has not been observed.                                          *)
(***************************************************************************)
Shown(env, x, y, k, b, guess, und) ==
    LET yg == G4(y) IN
    IF ~env.bgOn
    THEN IF k > 0 THEN (IF IsBest(env.PG, yg, k) THEN {<<k, env.P[k], k, 0>>} ELSE {})
         ELSE {<<j, env.P[j], j, 0>> : j \in BestSet(env.PG, yg)}
    ELSE LET xg == G4(x)  bg == G4(b)
             max == D(xg, bg)  mt == DTol(xg, bg)
             kept(j, dd) == {<<j, env.P[j], j, und>>}
             undithered(j) ==
                LET ud == D(xg, env.PG[guess])  t == mt + DTol(xg, env.PG[guess]) IN
                UNION {IF worse THEN {<<j, env.P[j], j, und>>} ELSE {<<guess, env.P[guess], j, und + 1>>} : worse \in Leq(max, ud, t)}
             of(j) == LET dj == D(yg, env.PG[j])  db == D(yg, bg) IN
                UNION {IF bgWins THEN {<<tr, b, j, und>> : tr \in env.tr}
                       ELSE IF und > 1 THEN {<<j, env.P[j], j, 0>>}
                       ELSE LET dd == D(xg, env.PG[j])  t == mt + DTol(xg, env.PG[j]) IN
                            UNION {IF fine THEN {<<j, env.P[j], j, und>>} ELSE undithered(j) : fine \in Leq(dd, max, t)}
                       : bgWins \in Leq(db, dj, DTol(yg, bg) + DTol(yg, env.PG[j]))}
         IN  {o \in UNION {of(j) : j \in BestSet(env.PG, yg)} : k = 0 \/ o[1] = k}

Diffuse(E, N, c, even, err) ==   \* c: position of the pixel in the sequences
    IF even THEN <<[E EXCEPT ![c + 1] = Plus(@, Part(err, 7))],
                   [N EXCEPT ![c - 1] = Plus(@, Part(err, 3)), ![c] = Plus(@, Part(err, 5)), ![c + 1] = Part(err, 1)]>>
    ELSE         <<[E EXCEPT ![c - 1] = Plus(@, Part(err, 7))],
                   [N EXCEPT ![c + 1] = Plus(@, Part(err, 3)), ![c] = Plus(@, Part(err, 5)), ![c - 1] = Part(err, 1)]>>

\* n: position in the image (from 0), k: index chosen (from 1) or 0
PixelStep(env, s, n, k) ==
    LET w == env.w
        row == n \div w
        even == row % 2 = 0
        first == n % w = 0
        col == IF even THEN n % w ELSE w - 1 - (n % w)
        at == row * w + col + 1
        blank == [j \in 1..w + 2 |-> Zero4]
        E == IF first THEN s[3] ELSE s[2]
        N == IF first THEN blank ELSE s[3]
        guess == IF first THEN 1 ELSE s[4]
        und == IF first THEN 0 ELSE s[5]
        x == env.X[at]
        b == IF env.bgOn THEN env.B[at] ELSE Zero4
        c == col + 2
    IN  UNION { UNION { LET e0 == <<y[1] - o[2][1], y[2] - o[2][2], y[3] - o[2][3], y[4] - o[2][4]>> IN
                        { LET err == IF much THEN <<(e0[1] * 3) \div 4, (e0[2] * 3) \div 4, (e0[3] * 3) \div 4, (e0[4] * 3) \div 4>> ELSE e0
                              d == Diffuse(E, N, c, even, err)
                          IN  <<1, d[1], d[2], o[3], o[4]>> : much \in Exceeds(e0, env.m) }
                        : o \in Shown(env, x, y, IF k = 0 THEN 0 ELSE env.out[at] + 1, b, guess, und) }
                : y \in WithError(x, E[c], env.l, IF env.map = <<>> THEN -1 ELSE env.map[at], env.m) }

Steps(env, S, n, k) ==
    IF S = {} \/ Unsure \in S THEN S
    ELSE LET S2 == TLCEval(UNION {PixelStep(env, s, n, k) : s \in S}) IN IF Cardinality(S2) > Cap THEN {Unsure} ELSE S2

\* states after pixels from..to-1; watched: whether the choices have been observed
RunFrom(env, S, from, to, watched) ==
    FoldLeft(LAMBDA acc, n : Steps(env, acc, n, IF watched THEN 1 ELSE 0), S, [j \in 1..to - from |-> from + j - 1])

DitherStart(env) == {<<1, [j \in 1..env.w + 2 |-> Zero4], [j \in 1..env.w + 2 |-> Zero4], 1, 0>>}

\* tall images may be processed in two parts. The second one begins with two rows that are not displayed.
Accepts(env, tall) ==
    LET w == env.w  h == env.h
        half == (h + 1) \div 2
        top == RunFrom(env, DitherStart(env), 0, half * w, TRUE)
        whole == RunFrom(env, top, half * w, h * w, TRUE)
        lead == RunFrom(env, DitherStart(env), (half - 2) * w, half * w, FALSE)
    IN  \/ whole # {}
        \/ tall /\ top # {} /\ RunFrom(env, lead, half * w, h * w, TRUE) # {}

\* first pixel that is not accepted (for reports)
FirstBad(env) ==
    FoldLeft(LAMBDA acc, n : IF acc[2] = {} THEN acc ELSE <<n, Steps(env, acc[2], n, 1)>>, <<-1, DitherStart(env)>>, [j \in 1..env.w * env.h |-> j - 1])[1]
=============================================================================
