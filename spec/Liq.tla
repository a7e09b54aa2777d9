-------------------------------- MODULE Liq --------------------------------
(***************************************************************************)
(* Specification of libimagequant's observable behaviour.                  *)
(*                                                                         *)
(* The state is the user's view of all live objects: Attributes (A),       *)
(* Images (I), Histograms (H), Results (R), and a memo of everything that  *)
(* has been computed so far, keyed by a term that describes what the       *)
(* outcome is allowed to depend on.                                        *)
(*                                                                         *)
(* An event is one API call with everything the caller can observe about   *)
(* it. Apply(st, e) is the transition function. Judge(st, e) is the set of *)
(* clauses <<property, clause>> that the observed outcome violates; a step *)
(* of the system is a step for which Judge is empty.                       *)
(*                                                                         *)
(* The same two operators are used by MCLiq (exhaustive exploration of     *)
(* all allowed behaviours of a small instance), by GenLiq (generation of   *)
(* programs to replay in the implementation) and by TraceLiq (validation   *)
(* of behaviours recorded from the implementation).                        *)
(***************************************************************************)
EXTENDS Metric, Dither, Edges, Refine, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NoFn == <<>>

InitSt == [ px |-> NoFn, maps |-> NoFn, A |-> NoFn, I |-> NoFn, H |-> NoFn, R |-> NoFn,
            memo |-> NoFn, freed |-> {}, api |-> "rust", direct |-> FALSE, build |-> "", large |-> FALSE, vc |-> 0, n |-> 0 ]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == Restrict(f, DOMAIN f \ {k})

\* property under check, or ALL
Prop == IF "LIQ_PROP" \in DOMAIN IOEnv THEN IOEnv.LIQ_PROP ELSE "ALL"
Memo == "LIQ_MEMO" \in DOMAIN IOEnv /\ IOEnv.LIQ_MEMO = "1"
Want(id) == Prop = "ALL" \/ id = Prop \/ id = "CRASH" \/ (Memo /\ id = "MEMO")

\* clause of a property; clauses of other properties are left to checks of those properties
\* properties are independent, so one observation may violate several of them
VV(ok, ids, clause) == UNION {IF ~Want(id) THEN {} ELSE IF ok THEN {} ELSE {<<id, clause>>} : id \in ids}
V(ok, id, clause) == IF ~Want(id) THEN {} ELSE IF ok THEN {} ELSE {<<id, clause>>}
When(c, s) == IF c THEN s ELSE {}

T(x) == ToString(x)
Nan == -777777
DefGamma == 45455

Has(e, f) == f \in DOMAIN e
Frees(e) == IF Has(e, "frees") THEN e.frees ELSE <<>>

MaxPal(st) == IF st.large THEN 2048 ELSE 256

(***************************************************************************)
(* Colors                                                                  *)
(***************************************************************************)
Transparent == <<0, 0, 0, 0>>
Norm(c) == IF c[4] = 0 THEN Transparent ELSE <<c[1], c[2], c[3], c[4]>>
RGBAof(x) == <<x[1], x[2], x[3], x[4]>>
SameColors(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Norm(p[k]) = Norm(q[k])
NormSet(s) == {Norm(s[k]) : k \in DOMAIN s}
PostColor(c, b) == <<PostLevel(c[1], b), PostLevel(c[2], b), PostLevel(c[3], b), PostLevel(c[4], b)>>
Mask(c, b) == IF c[4] = 0 THEN Transparent ELSE <<c[1] \div 2^b, c[2] \div 2^b, c[3] \div 2^b, c[4] \div 2^b>>
Collide(S, b) == b > 0 /\ Cardinality({Mask(c, b) : c \in S}) < Cardinality(S)

(***************************************************************************)
(* Weights are pairs <<millions, rest>>, because they do not fit in TLC's  *)
(* integers. Weight of one color stops growing at 2^32-1.                  *)
(***************************************************************************)
M6 == 1000000
W0 == <<0, 0>>
MaxW == <<4294, 967295>>
LtW(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PlusW(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + (lo \div M6), lo % M6>>
MinusW(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + M6 - b[2]>>
AddW(a, b) == LET x == PlusW(a, b) IN IF LtW(MaxW, x) THEN MaxW ELSE x
SumW(s) == FoldLeft(AddW, W0, s)
\* n pixels of importance v
PixW(n, v) == LET lo == (n % M6) * v  x == <<(n \div M6) * v + (lo \div M6), lo % M6>> IN IF LtW(MaxW, x) THEN MaxW ELSE x

EffGamma(g5) == IF g5 = 0 THEN DefGamma ELSE g5
\* gammas for which 8-bit colors survive conversion to the working space and back
SafeGamma(g5) == g5 >= 20000 /\ g5 <= 100000

(***************************************************************************)
(* Attributes                                                              *)
(***************************************************************************)
NewAttr(st) == [ max |-> MaxPal(st), qset |-> FALSE, min |-> 0, target |-> 100, speed |-> 4, post |-> 0,
                 lit |-> FALSE, prog |-> "", log |-> "", flush |-> "" ]

AttrGets(a) == <<a.max, a.min, a.target, a.speed, a.post>>

SetAllowed(what, v1, v2) ==
    CASE what = "max"   -> v1 \in 2..256
      [] what = "q"     -> v1 >= 0 /\ v2 >= 0 /\ v2 <= 100 /\ v1 <= v2
      [] what = "speed" -> v1 \in 1..10
      [] what = "post"  -> v1 \in 0..4
      [] OTHER -> TRUE

AttrSet(a, what, v1, v2) ==
    CASE what = "max"   -> [a EXCEPT !.max = v1]
      [] what = "q"     -> [a EXCEPT !.qset = TRUE, !.min = v1, !.target = v2]
      [] what = "speed" -> [a EXCEPT !.speed = v1]
      [] what = "post"  -> [a EXCEPT !.post = v1]
      [] what = "lit"   -> [a EXCEPT !.lit = (v1 # 0)]

Bits(a) == MaxI(a.post, IF a.speed >= 8 THEN 1 ELSE 0)
Contrast(a) == a.speed <= 7
DitherMapSpeed(s) == s <= 6

AttrTerm(a) == "a" \o T(<<a.max, a.qset, a.min, a.target, a.speed, a.post, a.lit>>)

\* every attribute object reads back exactly what was last accepted for that object
GetsOk(A, gets) ==
    /\ {gets[k][1] : k \in DOMAIN gets} = DOMAIN A
    /\ \A k \in DOMAIN gets : SubSeq(gets[k], 2, 6) = AttrGets(A[gets[k][1]])

(***************************************************************************)
(* Images                                                                  *)
(***************************************************************************)
\* user: name of user's importance map, auto: library made its own importance map,
\* dm: what the dithering map has been made from, dmu: it's not certain if it has been made, rel: source pixels may be gone,
\* rows, pixels: caller's buffers the image has been made from, own: buffers the image has to free
NewImage(e) == [ px |-> e.px, g |-> EffGamma(e.g), fixed |-> <<>>, user |-> "", zdig |-> "", udig |-> "",
                 auto |-> FALSE, bg |-> "", bgg |-> 0, dm |-> "", dmu |-> FALSE, dmap |-> {}, rel |-> FALSE,
                 rows |-> IF Has(e, "rows") THEN e.rows ELSE "", pixels |-> IF Has(e, "pixels") THEN e.pixels ELSE "",
                 own |-> {} ]

Px(st, im) == st.px[im.px]
Small(st, im) == LET p == Px(st, im) IN p.w <= 2000 /\ p.h <= 2000
CanMap(st, im) == Px(st, im).w >= 4 /\ Px(st, im).h >= 4
AfterMaps(st, im, a) == IF im.user = "" /\ Contrast(a) /\ CanMap(st, im) THEN [im EXCEPT !.auto = TRUE] ELSE im

MapKnown(st, im) == im.user = "" \/ (Len(st.maps[im.user].v) > 0 /\ Len(Px(st, im).px) > 0)
ColsKnown(st, im) == IF im.user = "" THEN Len(Px(st, im).cols) > 0 ELSE MapKnown(st, im)

\* colors that have influence on the palette
EffCols(st, im) ==
    IF im.user = "" THEN {Norm(RGBAof(c)) : c \in Range(Px(st, im).cols)}
    ELSE LET p == Px(st, im).px  v == st.maps[im.user].v IN
         {Norm(p[k]) : k \in {j \in DOMAIN p : v[j] > 0}}

AllZero(st, im) == im.user # "" /\ LET m == st.maps[im.user] IN
    IF MapKnown(st, im) THEN \A k \in DOMAIN Px(st, im).px : m.v[k] = 0 ELSE m.maxv = 0

\* importance follows from noise in the image, if the user has not set any (and the speed is slow)
AutoUsed(st, im, a) == im.user = "" /\ CanMap(st, im) /\ (im.auto \/ Contrast(a))
NoiseOf(st, im) ==
    LET p == Px(st, im) IN
    IF Len(p.px) # p.w * p.h \/ p.w * p.h > 400 \/ T(im.g) \notin DOMAIN Fine THEN <<>>
    ELSE KnownNoise(TLCEval([k \in DOMAIN p.px |-> FF(p.px[k], Fine[T(im.g)])]), p.w, p.h)

\* total importance of each color
Weights(st, im, auto) ==
    IF im.user = "" /\ ~auto THEN
        LET cs == Px(st, im).cols IN
        [c \in {Norm(RGBAof(x)) : x \in Range(cs)} |->
            SumW([k \in DOMAIN cs |-> IF Norm(RGBAof(cs[k])) = c THEN PixW(cs[k][5], 255) ELSE W0])]
    ELSE LET p == Px(st, im).px  v == IF auto THEN TLCEval(NoiseOf(st, im)) ELSE st.maps[im.user].v IN
        [c \in EffCols(st, im) |-> SumW([k \in DOMAIN p |-> IF Norm(p[k]) = c THEN <<0, v[k]>> ELSE W0])]

\* does the weight of pixels follow from what the user has set, or from a noise map that can be told exactly
\* (popularity is visible only in palettes that have all the colors)
WeightsKnown(st, im, a) == Px(st, im).nc <= 300 /\ (AutoUsed(st, im, a) => Px(st, im).nc <= MinI(a.max, 64) /\ NoiseOf(st, im) # <<>>)

\* maximal importance of all pixels is the same as no map
AllMax(st, im) == im.user # "" /\ st.maps[im.user].minv = 255

ImgTermQ(st, im, a) ==
    "i" \o T(<<Px(st, im).w, Px(st, im).h, im.g>>) \o (IF im.user # "" /\ ~AllMax(st, im) THEN "z" \o im.zdig ELSE Px(st, im).dig)
        \o T(im.fixed) \o (IF AfterMaps(st, im, a).auto /\ im.user = "" THEN "auto" ELSE "")

\* background is used only if there is a color to show it through
Clear(pal) == \E k \in DOMAIN pal : pal[k][4] <= 1

ImgTermM(st, im, clear) ==
    "i" \o T(<<Px(st, im).w, Px(st, im).h, im.g>>) \o Px(st, im).dig
        \o (IF im.user # "" THEN "u" \o im.udig ELSE IF im.auto THEN "auto" ELSE "")
        \o (IF im.bg = "" \/ ~clear THEN "" ELSE "bg" \o st.px[im.bg].dig \o T(im.bgg)) \o (IF im.dm = "" THEN "" ELSE "dm(" \o im.dm \o ")")

\* all fully transparent colors are the same color
Distinct(s) == FoldLeft(LAMBDA acc, x : LET c == Norm(x) IN IF c \in Range(acc) THEN acc ELSE Append(acc, c), <<>>, s)

(***************************************************************************)
(* Creation of images from raw parameters                                  *)
(***************************************************************************)
GammaOk01(g) == g # Nan /\ g >= 0 /\ g <= 100000
GammaOkHist(g) == g # Nan /\ g >= 0 /\ g < 100000
GammaOkOut(g) == g # Nan /\ g > 0 /\ g < 100000

RawVerdict(e) ==
    LET stride == IF e.rep \in {"owned", "borrowed"} THEN e.w ELSE e.stride
        sx == IF e.rep \in {"owned", "borrowed"} THEN e.wx ELSE e.sx
        badSize == e.w = 0 \/ e.h = 0 \/ e.wx \/ e.hx \/ e.ax
        badStride == e.rep # "fn" /\ (sx \/ stride < e.w)
        badGamma == ~GammaOk01(e.g)
        short == e.rep # "fn" /\ ~badSize /\ ~badStride /\
                   ~(e.len >= e.w /\ e.h - 1 <= (e.len - e.w) \div stride)
    IN  IF ~badSize /\ e.rep # "fn" /\ sx /\ e.h = 1 /\ e.len >= e.w /\ ~badGamma THEN {"Ok", "ValueOutOfRange"}
        ELSE IF badSize \/ badStride THEN {"ValueOutOfRange", "BufferTooSmall"}
        ELSE IF short /\ badGamma THEN {"ValueOutOfRange", "BufferTooSmall"}
        ELSE IF short THEN {"BufferTooSmall"}
        ELSE IF badGamma THEN {"ValueOutOfRange"}
        ELSE {"Ok"}

(***************************************************************************)
(* Histograms                                                              *)
(***************************************************************************)
\* w: total weight per color, wk: weights are known exactly, ck: set of colors is known,
\* nsrc: number of sources of fixed colors
NewHist(a) == [ w |-> NoFn, wk |-> TRUE, auto |-> FALSE, ck |-> TRUE, bits |-> Bits(a), fixed |-> <<>>, nsrc |-> 0, g |-> -1,
                any |-> FALSE, term |-> "h" \o T(<<Bits(a), a.speed>>) ]

AddWeights(w, S, f(_)) == TLCEval([c \in (DOMAIN w) \cup S |->
    AddW(IF c \in DOMAIN w THEN w[c] ELSE W0, IF c \in S THEN f(c) ELSE W0)])

\* entries are <<r, g, b, a, millions, rest>>
EntSet(ents) == {Norm(RGBAof(x)) : x \in {y \in Range(ents) : y[5] > 0 \/ y[6] > 0}}
EntW(ents, c) == SumW([k \in DOMAIN ents |-> IF Norm(RGBAof(ents[k])) = c THEN <<ents[k][5], ents[k][6]>> ELSE W0])

(***************************************************************************)
(* Palette clauses common to everything that makes or shows a palette      *)
(***************************************************************************)
PalSane(e) == /\ e.psame /\ e.plen = Len(e.pal) /\ e.plen >= 1
PostOk(pal, b) == \A k \in DOMAIN pal : pal[k][4] = 0 \/ PostColor(pal[k], b) = RGBAof(pal[k])

Opaque(c) == c[4] = 255
OrderOk(pal, lit) ==
    LET n == Len(pal) IN
    IF ~lit THEN \A k \in 1..n-1 : Opaque(pal[k]) => Opaque(pal[k+1])
    ELSE /\ \A k \in 1..n-1 : ~Opaque(pal[k]) => ~Opaque(pal[k+1])
         /\ \A k \in 1..n : pal[n][4] <= pal[k][4]

LastOk(pal, lit) == lit => \A k \in DOMAIN pal : pal[Len(pal)][4] <= pal[k][4]

FixedExpected(fixed, max, post) ==
    LET d == Distinct(fixed) IN {Norm(PostColor(d[k], post)) : k \in 1..MinI(Len(d), max)}
FixedOk(pal, want, post) ==
    LET have == {Norm(pal[k]) : k \in DOMAIN pal} IN want \subseteq have

\* colors in the palette are mixes of input colors, so no channel may leave their range
GamutOk(pal, S, post) ==
    LET V4 == {c \in S : c[4] > 0}
        lo(j) == Min({c[j] : c \in V4})
        hi(j) == Max({c[j] : c \in V4})
        loA == Min({c[4] : c \in S})
        hiA == Max({c[4] : c \in S})
    IN  IF V4 = {} THEN \A k \in DOMAIN pal : pal[k][4] = 0
        ELSE LET l == TLCEval([j \in 1..3 |-> PostLevel(lo(j), post)])
                 h == TLCEval([j \in 1..3 |-> PostLevel(hi(j), post)])
             IN \A k \in DOMAIN pal :
                    /\ pal[k][4] >= PostLevel(loA, post) /\ pal[k][4] <= PostLevel(hiA, post)
                    /\ pal[k][4] > 0 => \A j \in 1..3 : pal[k][j] >= l[j] /\ pal[k][j] <= h[j]

\* in a lossless palette colors of each opacity class are sorted by their weight.
\* Weight of a single color is limited to 10% of the total.
PopularityOk(pal, w, fx, lit) ==
    LET wsum == TLCEval(FoldSet(LAMBDA c, acc : PlusW(acc, IF c \in fx THEN W0 ELSE w[c]), W0, DOMAIN w))
        capLo == ((wsum[1] * 99) % 1000) * 1000 + (wsum[2] * 99) \div 1000
        cap == TLCEval(<<(wsum[1] * 99) \div 1000 + (capLo \div M6), MaxI((capLo % M6) - 1, 0)>>)
        wt(c) == IF Norm(c) \in DOMAIN w THEN w[Norm(c)] ELSE W0
        \* more than by rounding
        muchLess(x, y) == LtW(x, y) /\ LtW(<<0, x[1] * 10 + (x[2] \div 100000)>>, MinusW(y, x))
        cmp(i) == (lit => Opaque(pal[i]))
    IN  \A i \in DOMAIN pal : \A j \in DOMAIN pal :
            (i < j /\ cmp(i) /\ cmp(j) /\ Opaque(pal[i]) = Opaque(pal[j])) =>
                /\ ~(Norm(pal[i]) \notin fx /\ Norm(pal[j]) \in fx)
                /\ (Norm(pal[i]) \notin fx /\ Norm(pal[j]) \notin fx) =>
                    ~(LtW(wt(pal[i]), cap) /\ muchLess(wt(pal[i]), wt(pal[j])))

Broke(e) == \E k \in DOMAIN e.prog : e.prog[k][2] = 1
ProgOk(e) == \A k \in DOMAIN e.prog : e.prog[k][1] >= 0 /\ e.prog[k][1] <= 10000

(***************************************************************************)
(* Making of a palette (from an image or from a histogram)                 *)
(*   a: attributes, S: influential colors, known: S is known               *)
(*   fixed: sequence of fixed colors, bits: posterization of the input     *)
(***************************************************************************)
Lossless(a, S, known, fixed, bits, g) ==
    /\ known /\ a.target = 100 /\ a.post = 0 /\ SafeGamma(g)
    /\ Cardinality(S \cup NormSet(fixed)) <= a.max
    /\ ~Collide(S \cup NormSet(fixed), bits)

\* Colors that differ only in ignored bits are one color, which has the sum of their weights: the same,
\* when some of the colors are merged that way.
Merged(a, S, known, fixed, bits, g) ==
    /\ known /\ a.target = 100 /\ a.post = 0 /\ SafeGamma(g) /\ Len(fixed) = 0
    /\ Cardinality({Mask(c, bits) : c \in S}) <= a.max
    /\ Collide(S, bits)
MergedWeights(pal, w, bits) ==
    TLCEval([c \in NormSet(pal) |-> FoldSet(LAMBDA x, acc : AddW(acc, w[x]), W0, {x \in DOMAIN w : Mask(x, bits) = Mask(c, bits)})])

PalF(pal, g) == LET lut == Lut[T(g)] IN TLCEval([k \in DOMAIN pal |-> F(pal[k], lut)])

\* best possible difference for the source color, and its tolerance
Nearest(P, x) ==
    LET best == FoldLeft(LAMBDA acc, y : LET g == x[2] - y[2] IN IF g * g >= acc[1] THEN acc ELSE LET d == D(x, y) IN IF d < acc[1] THEN <<d, y>> ELSE acc, <<2000000000, <<>> >>, P)
    IN  <<best[1], Tol(x, best[2])>>
\* integer mean of n(k)*d(k) over N (up to 20 million), in numbers that fit in TLC's integers:
\* the sum is <<h, m, l>>, meaning h*10^8 + m*10^4 + l
MeanOf(gs, N, d(_)) ==
    LET K == 10000
        add(acc, n, v) ==
            LET n1 == n \div K  n0 == n % K  v1 == v \div K  v0 == v % K
                l == acc[3] + n0 * v0
                m == acc[2] + n1 * v0 + n0 * v1 + (l \div K)
            IN  <<acc[1] + n1 * v1 + (m \div K), m % K, l % K>>
        sum == FoldLeft(LAMBDA acc, gr : add(acc, gr[10], d(gr)), <<0, 0, 0>>, gs)
        digits == <<sum[2] \div 100, sum[2] % 100, sum[3] \div 100, sum[3] % 100>>
        qr == FoldLeft(LAMBDA acc, x : LET y == acc[2] * 100 + x IN <<acc[1] * 100 + (y \div N), y % N>>,
                       <<sum[1] \div N, sum[1] % N>>, digits)
    IN  qr[1]

(***************************************************************************)
(* Error of a palette for a weighted set of colors: mean difference of     *)
(* the colors from the nearest color of the palette. One color counts for  *)
(* at most 10% of the total.                                               *)
(***************************************************************************)
WInt(x) == x[1] * M6 + x[2]
ErrorKnown(w) == DOMAIN w # {} /\ LET t == FoldSet(LAMBDA c, acc : PlusW(acc, w[c]), W0, DOMAIN w) IN t[1] < 20
WeightedItems(w, lut) ==
    LET total == FoldSet(LAMBDA c, acc : acc + WInt(w[c]), 0, DOMAIN w)
    IN  TLCEval([k \in 1..Cardinality(DOMAIN w) |-> LET c == SetToSeq(DOMAIN w)[k] IN F(c, lut) \o <<0, 0, 0, 0, 0, MinI(WInt(w[c]), total \div 10 + 1)>>])
\* what rounding of the palette to 8 bits may add: channel k stands for k/256 to (k+1)/256, and differences from averages of the colors are squared
RoundingNoise(pal, g) ==
    LET l == Lut[T(g)]
        step(k) == MaxI(IF k < 255 THEN l[k + 2] - l[k + 1] ELSE 0, IF k > 0 THEN l[k + 1] - l[k] ELSE 0)
        dev(k, pct) == (step(k) * MaxI(k, 255 - k) * pct) \div 25600 + 2
        noise(c) == LET r == dev(c[1], 50)  gr == dev(c[2], 100)  b == dev(c[3], 45) IN r * r + gr * gr + b * b
    IN  ToErr4(Max({noise(c) : c \in Range(pal)})) + 60
PaletteError(pal, w, g) ==
    LET P == PalF(pal, g)
        items == WeightedItems(w, Lut[T(g)])
        n == FoldLeft(LAMBDA acc, x : acc + x[10], 0, items)
    IN  MeanOf(items, n, LAMBDA x : Nearest(P, x)[1])

MakeStatus(a, e, empty, rel, lossless) ==
    IF Broke(e) THEN {"Aborted"}
    ELSE (IF rel THEN {"Unsupported"} ELSE {})
         \cup (IF empty THEN {"Unsupported"}
               ELSE IF a.min > 0 /\ ~lossless THEN {"Ok", "QualityTooLow"} ELSE {"Ok"})

\* which guarantees are broken by an unexpected status
BadStatus(e, allowed) ==
    (IF e.st = "QualityTooLow" THEN {"C05"} ELSE {})
    \cup (IF e.st = "Aborted" \/ "Aborted" \in allowed THEN {"C14"} ELSE {})
    \cup (IF e.st # "Ok" THEN {"C20"} ELSE {})
    \cup (IF e.st = "Ok" /\ "Aborted" \notin allowed THEN {"C20"} ELSE {})

JudgeMake(a, e, S, known, fixed, single, bits, g, empty, rel, popKnown, w, auto) ==
    LET fxN == NormSet(fixed)
        ll == Lossless(a, S, known, fixed, bits, g)
        nd == Cardinality(S \cup fxN)
        ok == e.st = "Ok"
        want == IF single \/ Len(Distinct(fixed)) <= a.max THEN FixedExpected(fixed, a.max, a.post) ELSE {}
        allowed == MakeStatus(a, e, empty, rel, ll)
    IN
    VV(e.st \in allowed \/ (e.st = "Null" /\ allowed # {"Ok"}), BadStatus(e, allowed), "status")
    \cup V(Has(e, "outok") => e.outok, "C19", "output-pointer")
    \cup V(ll /\ e.st = "QualityTooLow" => FALSE, "C03", "lossless-refused")
    \cup V(ProgOk(e), "C14", "progress-range")
    \cup V(a.prog = "" => Len(e.prog) = 0, "C14", "callback-not-set")
    \cup V((a.prog # "" /\ ok) => Len(e.prog) > 0, "C14", "callback-not-called")
    \cup When(ok,
        V(PalSane(e), "C01", "palette-reads-agree")
        \cup V(e.plen <= a.max, "C01", "max-colors")
        \cup V(known => e.plen <= nd, "C01", "more-than-distinct")
        \cup V(e.og = g, "C26", "default-output-gamma")
        \cup V(PostOk(e.pal, a.post), "C13", "levels")
        \cup V(IF a.post = 0 THEN OrderOk(e.pal, a.lit) ELSE LastOk(e.pal, a.lit), "C12", "order")
        \cup V(SafeGamma(g) => FixedOk(e.pal, want, a.post), "C04", "fixed-in-palette")
        \cup V((known /\ SafeGamma(g)) => GamutOk(e.pal, S \cup fxN, a.post), "C23", "gamut")
        \cup V(e.rerr = e.qerr /\ e.rq = e.qq, "C08", "not-remapped-yet")
        \cup V(e.qerr # -2 /\ (e.qerr = -1) = (e.qq = -1), "C08", "error-sane")
        \cup V(e.qerr >= 0 => QualityMatches(e.qerr, e.qq), "C08", "quality-of-error")
        \cup V(a.min > 0 => e.qq >= a.min, "C05", "below-minimum")
        \* (without repeated search colors have their own weights, and moving the palette to the averages of opaque colors can't make it worse)
        \cup When(popKnown /\ a.speed >= 7 /\ (\A c \in S : c[4] = 255) /\ e.qerr >= 0 /\ fixed = <<>> /\ a.post = 0 /\ ~Collide(S, bits) /\ HasLut(g) /\ ErrorKnown(w),
            VV(ToErr4(PaletteError(e.pal, w, g)) <= e.qerr + e.qerr \div 100 + RoundingNoise(e.pal, g), {"C08"} \cup (IF a.min > 0 THEN {"C05"} ELSE {}), "error-understated"))
        \cup When(ll,
            VV(NormSet(e.pal) = S \cup fxN, {"C03"} \cup (IF e.op = "hquant" THEN {"C22"} ELSE {}), "exact-palette")
            \cup VV(Len(e.pal) = Cardinality(S \cup fxN), {"C03"} \cup (IF fxN # {} THEN {"C04"} ELSE {}) \cup (IF e.op = "hquant" THEN {"C22"} ELSE {}), "no-duplicates")
            \cup V(e.qerr = 0 /\ e.qq = 100, "C03", "error-zero")
            \cup VV((popKnown /\ a.post = 0) => PopularityOk(e.pal, w, fxN, a.lit), IF auto THEN {"C28"} ELSE {"C22", "C10"}, "popularity"))
        \cup When(Merged(a, S, known, fixed, bits, g),
            V(/\ NormSet(e.pal) \subseteq S
              /\ {Mask(c, bits) : c \in NormSet(e.pal)} = {Mask(c, bits) : c \in S}
              /\ Len(e.pal) = Cardinality({Mask(c, bits) : c \in S}), "C22", "merged-colors")
            \cup V((popKnown /\ NormSet(e.pal) \subseteq S) => PopularityOk(e.pal, MergedWeights(e.pal, w, bits), {}, a.lit), IF auto THEN "C28" ELSE "C22", "merged-popularity")))

NewResult(st, a, e, term, frozen, fixed, single, S, ll, g, exactable) ==
    [ term |-> term, pal |-> e.pal, cur |-> e.pal, frozen |-> frozen, g0 |-> g, g |-> g, dith |-> 100000, speed |-> a.speed,
      post |-> a.post, lit |-> a.lit, fixed |-> fixed, single |-> single, max |-> a.max, ll |-> ll,
      qerr |-> e.qerr, qq |-> e.qq, rerr |-> e.rerr, rq |-> e.rq, prog |-> "", rm |-> FALSE, fin |-> FALSE ]

MemoOk(st, key, out) == key \in DOMAIN st.memo => st.memo[key] = out
Remember(st, key, out) == IF key \in DOMAIN st.memo THEN st ELSE [st EXCEPT !.memo = Put(st.memo, key, out)]
MakeOut(e) == <<e.st, e.pal, e.qerr, e.qq>>

QKey(st, a, im) == "Q(" \o AttrTerm(a) \o ImgTermQ(st, im, a) \o ")"
HQKey(a, h) == "HQ(" \o AttrTerm(a) \o h.term \o ")"

(***************************************************************************)
(* Remapping                                                               *)
(***************************************************************************)
BuildTag(st, r, p) == IF r.dith > 0 /\ p.h > 128 /\ r.speed > 1 THEN st.build ELSE ""
MKey(st, r, im, pal) == "M(" \o r.term \o T(<<r.dith, r.g>>) \o ImgTermM(st, im, Clear(r.pal) \/ Clear(pal)) \o BuildTag(st, r, Px(st, im)) \o ")"

\* pixels of no importance have no part in improvement of the palette either
NormPal(pal) == [k \in DOMAIN pal |-> Norm(pal[k])]
HasZKey(im) == im.user # "" /\ im.bg = "" /\ ~im.dmu
ZKey(st, r, im) == "Z(" \o r.term \o T(<<r.dith > 0, r.g, Px(st, im).w, Px(st, im).h, im.g, im.dm # "">>) \o im.zdig \o ")"

\* (difference in one channel is at most the whole difference, which is cheaper to see)
IsNearest(P, x, k) == LET d == D(x, P[k])  t == Tol(x, P[k]) IN
    \A j \in DOMAIN P : LET y == P[j]  g == x[2] - y[2]  r == x[1] - y[1] IN
        g * g >= d \/ r * r >= d \/ LET dj == D(x, y) IN d <= dj \/ d <= dj + MaxI(t, Tol(x, y))

TransparentIdx(pal) == {k \in DOMAIN pal : pal[k][4] = 0}

\* pixel (group) without a background
GroupOk(P, gr, lut) == IsNearest(P, F(gr, lut), gr[9] + 1)

\* pixel on a background: shows the background if it is at least as good as the best color of the palette
GroupBgOk(P, pal, gr, lut, blut) ==
    LET x == F(gr, lut)
        b == F(<<gr[5], gr[6], gr[7], gr[8]>>, blut)
        k == gr[9] + 1
        db == D(x, b)  tb == Tol(x, b)
        nr == Nearest(P, x)
        showsBg == pal[k][4] = 0
    IN  IF db + tb + nr[2] < nr[1] THEN showsBg
        ELSE IF db > nr[1] + tb + nr[2] THEN IsNearest(P, x, k)
        ELSE showsBg \/ IsNearest(P, x, k)

\* difference between the pixel and what will be displayed
GroupDiff(P, pal, gr, lut, blut, bg) ==
    LET x == F(gr, lut)
        k == gr[9] + 1
        dp == D(x, P[k])
        b == F(<<gr[5], gr[6], gr[7], gr[8]>>, blut)
    IN  IF bg /\ pal[k][4] = 0 THEN MinI(dp, D(x, b)) ELSE dp
GroupTol(P, pal, gr, lut, blut, bg) ==
    LET x == F(gr, lut)
        k == gr[9] + 1
        b == F(<<gr[5], gr[6], gr[7], gr[8]>>, blut)
    IN  IF bg /\ pal[k][4] = 0 THEN Tol(x, b) + Tol(x, P[k]) ELSE Tol(x, P[k])

\* search over the whole palette is expensive to check, so only some pixels of large images are checked
NearLimit == IF "LIQ_NEAR" \in DOMAIN IOEnv THEN atoi(IOEnv.LIQ_NEAR) ELSE 600
Sampled(gs) == LET step == Len(gs) \div NearLimit + 1 IN {k \in DOMAIN gs : k % step = 0 \/ step = 1}

\* error diffusion is the same for all pixels, unless the library has maps of edges and noise of the image
DitherEven(st, r, im) == r.speed >= 7 \/ ~CanMap(st, im)
DitherKnown(st, r, im, e) ==
    LET p == Px(st, im) IN
    /\ r.dith > 0 /\ LevelKnown(r.dith)
    /\ Has(e, "raw") /\ Len(e.raw) = p.w * p.h /\ Len(p.px) = p.w * p.h /\ p.w * p.h < 500000
    /\ ErrInRange(e.rerr)
    /\ T(im.g) \in DOMAIN Fine /\ T(r.g) \in DOMAIN Fine
    /\ im.bg # "" => T(im.bgg) \in DOMAIN Fine /\ Len(st.px[im.bg].px) = p.w * p.h
\* maps of edges and noise that the image may have. When there is none yet, it follows from undithered remapping to the palette as it was.
DitherMaps(st, r, im, e) ==
    LET p == Px(st, im)
        P == TLCEval(PalF(r.pal, r.g))
        near == TLCEval([k \in DOMAIN p.px |-> Nearests(P, F(p.px[k], Lut[T(im.g)]))])
        I == [k \in DOMAIN p.px |-> CHOOSE j \in near[k] : TRUE]
        lut == Fine[T(im.g)]
    IN  IF im.dm # "" \/ im.dmu THEN im.dmap
        ELSE IF ~(r.fin /\ Small(st, im) /\ Len(e.pal) = Len(r.pal) /\ HasLut(im.g) /\ HasLut(r.g) /\ p.w * p.h <= 400 /\ p.w < 60) THEN {}
        ELSE IF \E k \in DOMAIN near : Cardinality(near[k]) # 1 THEN {}
        ELSE Maps(TLCEval([k \in DOMAIN p.px |-> FF(p.px[k], lut)]), p.w, p.h, TLCEval(I), IF im.bg = "" THEN {} ELSE TransparentIdx(e.pal))
DitherEnv(st, r, im, e) ==
    LET p == Px(st, im)
        lut == Fine[T(im.g)]
        tr == TransparentIdx(e.pal)
        on == im.bg # "" /\ tr # {}
        P == TLCEval([k \in DOMAIN e.pal |-> FF(e.pal[k], Fine[T(r.g)])])
    IN  TLCEval([ w |-> p.w, h |-> p.h, l |-> Strength(r.dith), map |-> <<>>, m |-> MaxErr(e.rerr), out |-> e.raw, bgOn |-> on, tr |-> tr,
          X |-> [k \in DOMAIN p.px |-> FF(p.px[k], lut)],
          B |-> IF on THEN LET q == st.px[im.bg].px IN [k \in DOMAIN q |-> FF(q[k], Fine[T(im.bgg)])] ELSE <<>>,
          P |-> P, PG |-> [k \in DOMAIN P |-> G4(P[k])] ])

\* the first dithered remapping improves the palette, if it is not shared
MayRefine(st, r, im) == r.dith > 0 /\ DitherMapSpeed(r.speed) /\ (im.dm = "" \/ im.dmu)
Refines(st, r, im) == r.dith > 0 /\ DitherMapSpeed(r.speed) /\ im.dm = "" /\ ~im.dmu /\ Small(st, im)
RefineKnown(st, r, im) ==
    LET p == Px(st, im) IN
    /\ Refines(st, r, im) /\ r.fin
    /\ (im.user = "" /\ im.auto) => NoiseOf(st, im) # <<>>
    /\ MapKnown(st, im) /\ Len(p.px) = p.w * p.h /\ p.w * p.h <= 500
    /\ HasLut(im.g) /\ HasLut(r.g) /\ (r.g = r.g0 \/ r.fixed = <<>>)
PixelWeights(st, im) ==
    LET px == Px(st, im).px  lut == Lut[T(im.g)]
        v == IF im.user # "" THEN st.maps[im.user].v ELSE IF im.auto THEN TLCEval(NoiseOf(st, im)) ELSE [k \in DOMAIN px |-> 1]
    IN  TLCEval([k \in DOMAIN px |-> <<F(px[k], lut), v[k]>>])
JudgeRefine(st, r, im, e) ==
    LET P == PalF(r.pal, r.g)
        W == PixelWeights(st, im)
        a == TLCEval(Assign(P, W))
        fx == {PostColor(c, r.post) : c \in NormSet(r.fixed)}
        stays(k) == r.frozen \/ r.pal[k][4] = 0 \/ a.sum[k][5] = 0
        lut == Lut[T(r.g)]
        near == TLCEval([k \in DOMAIN W |-> Nearest(P, W[k][1])])
        one(d) == [k \in DOMAIN W |-> <<0, 0, 0, 0, 0, 0, 0, 0, d[k], 1>>]
        m == ToErr4(MeanOf(one([k \in DOMAIN W |-> near[k][1]]), Len(W), LAMBDA x : x[9]))
        t == ToErr4(MeanOf(one([k \in DOMAIN W |-> near[k][2]]), Len(W), LAMBDA x : x[9]))
    IN  V(Abs(e.rerr - m) <= t + m \div 500 + 20, "C27", "error-before-dithering")
        \cup When(WeightOf(W) <= 100000 /\ SafeGamma(r.g),
            V(\A k \in DOMAIN P : (stays(k) /\ k \notin a.open) => Norm(e.pal[k]) = Norm(r.pal[k]), "C27", "color-without-pixels-moved")
            \cup VV(r.post = 0 => \A k \in DOMAIN P : (~stays(k) /\ k \notin a.open /\ Norm(r.pal[k]) \notin fx) => IsMean(e.pal[k], a.sum[k], lut), IF im.user = "" /\ im.auto THEN {"C27", "C28"} ELSE {"C27"}, "average-of-nearest"))

RemapStatus(r, e) ==
    IF e.how = "small" THEN {"BufferTooSmall"}
    ELSE IF Broke(e) THEN {"Aborted"}
    ELSE IF Len(r.pal) > 256 THEN {"Unsupported"}
    ELSE {"Ok"}

JudgeRemap(st, e) ==
    LET r == st.R[e.r]
        im == st.I[e.i]
        p == Px(st, im)
        hasBg == im.bg # ""
        ok == e.st = "Ok"
        allowed == RemapStatus(r, e)
        transp == TransparentIdx(e.pal)
        bgOn == hasBg /\ transp # {}
        metric == HasLut(im.g) /\ HasLut(r.g) /\ (~hasBg \/ HasLut(im.bgg))
        lut == Lut[T(im.g)]
        blut == IF hasBg THEN Lut[T(im.bgg)] ELSE lut
        P == PalF(e.pal, r.g)
        palset == NormSet(e.pal)
        inRange == \A k \in DOMAIN e.groups : e.groups[k][9] < Len(e.pal)
        exact == r.ll /\ r.g = r.g0 /\ im.g = r.g /\ Len(p.cols) > 0
                    /\ \A k \in DOMAIN p.cols : Norm(p.cols[k]) \in NormSet(r.pal)
        bgSame == hasBg /\ im.bgg = im.g /\ \A k \in DOMAIN e.groups : Norm(SubSeq(e.groups[k], 1, 4)) = Norm(SubSeq(e.groups[k], 5, 8))
        want == IF r.single \/ Len(Distinct(r.fixed)) <= r.max THEN FixedExpected(r.fixed, r.max, r.post) ELSE {}
    IN
    VV(e.st \in allowed, IF "BufferTooSmall" \in allowed \/ "Unsupported" \in allowed THEN {"C02"} \cup (IF e.st = "Aborted" THEN {"C14"} ELSE {})
                        ELSE BadStatus(e, allowed), "remap-status")
    \cup V(ProgOk(e), "C14", "progress-range")
    \cup V(r.prog = "" => Len(e.prog) = 0, "C14", "callback-not-set")
    \cup V((r.prog # "" /\ ok) => Len(e.prog) > 0, "C14", "callback-not-called")
    \cup V(e.touched = 0, "C02", "written-outside")
    \cup V(e.cbbad = 0, "C15", "row-callback-arguments")
    \cup When(~ok, V(e.pal = r.cur /\ e.rerr = r.rerr /\ e.qerr = r.qerr, "C14", "failed-remap-changed-result"))
    \cup When(ok,
        V(e.n = e.need /\ (Has(e, "unwritten") => e.unwritten = 0), "C02", "complete")
        \cup V(e.maxi < Len(e.pal) /\ e.maxi >= 0, "C02", "index-in-palette")
        \cup V(PalSane(e) /\ e.rpsame, "C01", "palette-reads-agree")
        \cup V(Len(e.pal) = Len(r.pal), "C01", "remap-changes-size")
        \cup V(r.frozen => SameColors(e.pal, r.pal), "C11", "frozen")
        \cup V(PostOk(e.pal, r.post), "C13", "levels")
        \cup V((r.frozen \/ r.dith = 0) => IF r.post = 0 THEN OrderOk(e.pal, r.lit) ELSE LastOk(e.pal, r.lit), "C12", "order-after-remap")
        \cup V((r.g = r.g0 /\ SafeGamma(r.g)) => FixedOk(e.pal, want, r.post), "C04", "fixed-after-remap")
        \cup V(e.qerr = r.qerr /\ e.qq = r.qq, "C08", "quantization-error-changed")
        \cup V(e.rerr # -2 /\ (e.rerr = -1) = (e.rq = -1), "C08", "error-sane")
        \cup V(e.rerr >= 0 => QualityMatches(e.rerr, e.rq), "C08", "quality-of-error")
        \cup V(~MayRefine(st, r, im) => NormPal(e.pal) = NormPal(r.pal), "C27", "palette-moved")
        \cup V((r.dith > 0 /\ ~MayRefine(st, r, im)) => e.rerr = r.qerr, "C27", "error-of-dithered")
        \cup When(Len(e.pal) = Len(r.pal) /\ RefineKnown(st, r, im), JudgeRefine(st, r, im, e))
        \cup When(inRange /\ DitherKnown(st, r, im, e),
            LET env == DitherEnv(st, r, im, e)
                maps == TLCEval(DitherMaps(st, r, im, e))
            IN  IF DitherEven(st, r, im) THEN V(Accepts(env, p.h > 128 /\ r.speed > 1), "C24", "error-diffusion")
                ELSE V(maps = {} \/ \E m \in maps : Accepts([env EXCEPT !.map = m], p.h > 128 /\ r.speed > 1), "C24", "error-diffusion-with-map"))
        \cup When(inRange,
            When(exact /\ ~hasBg,
                V(\A k \in DOMAIN e.groups : Norm(e.pal[e.groups[k][9] + 1]) = Norm(e.groups[k]), "C03", "exact-pixels")
                \cup V(palset \subseteq NormSet(r.pal), "C03", "exact-palette-after-remap"))
            \cup When(exact /\ bgOn /\ im.bgg = im.g,
                V(\A k \in DOMAIN e.groups :
                    LET gr == e.groups[k]  src == Norm(gr)  c == e.pal[gr[9] + 1] IN
                    IF src = Norm(SubSeq(gr, 5, 8)) THEN c[4] = 0 ELSE Norm(c) = src, "C09", "exact-on-background"))
            \cup When(exact /\ hasBg /\ ~bgOn,
                V(\A k \in DOMAIN e.groups : Norm(e.pal[e.groups[k][9] + 1]) = Norm(e.groups[k]), "C09", "no-transparent-color"))
            \cup When(bgOn /\ bgSame,
                V(\A k \in DOMAIN e.groups : e.pal[e.groups[k][9] + 1][4] = 0, "C09", "same-as-background"))
            \cup When(r.dith = 0 /\ metric,
                (IF bgOn
                 THEN V(\A k \in Sampled(e.groups) : GroupBgOk(P, e.pal, e.groups[k], lut, blut), "C09", "background-or-nearest")
                 ELSE V(\A k \in Sampled(e.groups) : GroupOk(P, e.groups[k], lut), IF hasBg THEN "C09" ELSE "C07", "nearest"))
                \cup When(e.full /\ e.n < 20000000,
                    LET m == MeanOf(e.groups, e.n, LAMBDA gr : GroupDiff(P, e.pal, gr, lut, blut, bgOn))
                        t == MeanOf(e.groups, e.n, LAMBDA gr : GroupTol(P, e.pal, gr, lut, blut, bgOn))
                        want4 == ToErr4(m)
                    IN  V(Abs(e.rerr - want4) <= ToErr4(t) + want4 \div 500 + 20, "C08", "remapping-error-true")))))
    \cup When(ok /\ ~Broke(e), VV(MemoOk(st, MKey(st, r, im, e.pal), <<e.dig, e.pal, e.rerr>>), {"MEMO"} \cup (IF hasBg THEN {"C09"} ELSE {}), "remap"))
    \cup When(ok /\ ~Broke(e) /\ HasZKey(im), V(MemoOk(st, ZKey(st, r, im), NormPal(e.pal)), "C10", "unimportant-pixels-move-the-palette"))

(***************************************************************************)
(* Palette converted to another output gamma                               *)
(***************************************************************************)
\* the same light intensity, expressed in the other gamma, give or take a rounding step of either
GammaConvOk(old, new, g, g2) ==
    LET a == Lut[T(g)]  b == Lut[T(g2)]
        lo(l, v) == l[MaxI(v - 1, 0) + 1] - 3
        hi(l, v) == l[MinI(v + 1, 255) + 1] + 3
    IN  /\ Len(old) = Len(new)
        /\ \A k \in DOMAIN old :
            /\ old[k][4] = new[k][4]
            /\ old[k][4] > 0 => \A j \in 1..3 :
                 lo(a, old[k][j]) <= hi(b, new[k][j]) /\ lo(b, new[k][j]) <= hi(a, old[k][j])

\* the same for colors that have been rounded already: channel k of the other gamma stands for intensities of k/256 to (k+1)/256
GammaExactOk(old, new, g, g2) ==
    LET a == Lut[T(g)]  b == Lut[T(g2)]
        at(k) == IF k = 0 THEN 0 ELSE IF k = 256 THEN 20000 ELSE b[k + 1] - ((b[k + 1] - b[k]) * k) \div 256
    IN  \A k \in DOMAIN old : old[k][4] > 0 => \A j \in 1..3 : at(new[k][j]) - 4 <= a[old[k][j] + 1] /\ a[old[k][j] + 1] <= at(new[k][j] + 1) + 4

(***************************************************************************)
(* The judge                                                               *)
(***************************************************************************)
LogsFrom(e, tags, kind) == \A k \in DOMAIN e.logs : e.logs[k][2] = kind => e.logs[k][1] \in tags
LogCount(e, kind) == Cardinality({k \in DOMAIN e.logs : e.logs[k][2] = kind})

QuietLogs(e) == V(Len(e.logs) = 0, "C25", "unexpected-log")
FlushOnce(e, a) ==
    V(LogCount(e, "F") = (IF a.flush = "" THEN 0 ELSE 1) /\ LogsFrom(e, {a.flush}, "F"), "C25", "flush")
\* messages during processing go to the callback of these attributes only
WorkLogs(e, a) ==
    V(LogsFrom(e, {a.log} \ {""}, "L") /\ LogsFrom(e, {a.flush} \ {""}, "F"), "C25", "log-target")

(***************************************************************************)
(* Memory handed over to the library (C API)                               *)
(***************************************************************************)
\* flags are written as a string: r: LIQ_OWN_ROWS, p: LIQ_OWN_PIXELS, c: LIQ_COPY_PIXELS, x: undefined bit, 0: none
FlagSets == ("0" :> {}) @@ ("r" :> {"r"}) @@ ("p" :> {"p"}) @@ ("rp" :> {"r", "p"}) @@ ("c" :> {"c"}) @@ ("x" :> {"x"})
            @@ ("pc" :> {"p", "c"}) @@ ("rx" :> {"r", "x"}) @@ ("rpc" :> {"r", "p", "c"})
OwnFlags(e) == FlagSets[e.flags]
OwnVerdict(im, e) ==
    LET fl == OwnFlags(e)
        bad == fl = {} \/ fl \cap {"c", "x"} # {}
    IN  IF bad THEN {"ValueOutOfRange"}
        ELSE (IF e.kind = "fn" THEN {"ValueOutOfRange"} ELSE {"Ok"}) \cup (IF im.rel THEN {"Unsupported"} ELSE {})
\* buffers that an image takes over
Taken(im, e) ==
    LET fl == OwnFlags(e) IN
    IF e.st # "Ok" THEN {}
    ELSE ((IF "r" \in fl /\ e.kind = "rows" THEN {im.rows} ELSE {}) \cup (IF "p" \in fl THEN {im.pixels} ELSE {})) \ {""}

TakenNow(st, e) ==
    CASE e.op = "iown" -> Taken(st.I[e.i], e)
      [] e.op = "iimp" /\ st.api = "c" -> IF e.st = "Ok" /\ e.how = "own" THEN {e.buf} \ {""} ELSE {}
      [] OTHER -> {}

JudgeFrees(st, e) ==
    LET fr == Frees(e)
        owned == UNION {st.I[k].own : k \in DOMAIN st.I} \cup TakenNow(st, e)
        now == st.freed \cup Range(fr)
    IN  V(Range(fr) \subseteq owned, "C18", "freed-memory-of-the-caller")
        \cup V(Range(fr) \cap st.freed = {} /\ Cardinality(Range(fr)) = Len(fr), "C18", "freed-twice")
        \cup V(Has(e, "unk") => e.unk = 0, "C18", "freed-unknown-pointer")
        \cup When(e.op = "idrop", V(st.I[e.i].own \subseteq now, "C18", "not-freed-with-the-image"))
        \cup When(e.op = "ibg" /\ e.st # "Ok", V(st.I[e.b].own \subseteq now, "C18", "not-freed-with-the-image"))

\* functions of the C API given NULL or an object of a wrong type
NullVerdict(e) ==
    CASE e.kind = "negative" -> "ValueOutOfRange"
      [] e.fn = "objects" -> "usable"
      [] e.fn = "version" -> "value"
      [] e.fn \in {"set_last_index_transparent", "set_callbacks", "destroy"} -> "void"
      [] e.fn \in {"attr_copy", "image_create_rgba_rows", "image_create_rgba", "image_create_custom", "histogram_create",
                    "quantize_image.attr", "quantize_image.image", "image_create_rgba.bitmap", "image_create_rgba_rows.rows",
                    "image_create_rgba_rows.row", "image_create_rgba_rows.last_row"} -> "NULL"
      [] e.fn \in {"get_max_colors", "get_min_quality", "get_max_quality", "get_speed", "get_min_posterization", "image_get_width",
                    "image_get_height", "get_output_gamma", "get_palette", "get_quantization_error", "get_remapping_error",
                    "get_quantization_quality", "get_remapping_quality"} -> "-1"
      [] OTHER -> "InvalidPointer"

\* C images are limited to what fits in memory addressed by int. Custom images are not in memory.
CRawVerdict(e) ==
    IF ~(e.w > 0 /\ e.h > 0 /\ GammaOk01(e.g)) THEN {"Null"}
    ELSE IF e.w <= 33554431 /\ e.h <= 268435455 /\ e.w <= 536870911 \div e.h THEN {"Ok"}
    ELSE IF e.rep = "custom" \/ e.w <= 536870911 \div e.h THEN {"Ok", "Null"} ELSE {"Null"}

LogAttrOk(e) == \A k \in DOMAIN e.logs : Len(e.logs[k]) = 3 => (e.logs[k][3] = e.a /\ e.logs[k][2] \in {"L", "F"})

Judge1(st, e) ==
    CASE e.op \in {"px", "map", "variant", "skip", "idrop", "hnew", "hdrop", "rdrop", "aprog", "rprog", "iclone", "direct"} -> {}
      [] e.op \in {"panic", "crash", "hang"} -> {<<"CRASH", e.op>>}
      [] e.op = "anew" ->
            V(GetsOk(Put(st.A, e.a, NewAttr(st)), e.gets), "C06", "defaults")
      [] e.op = "acopy" ->
            V(GetsOk(Put(st.A, e.a, st.A[e.src]), e.gets), "C06", "copy")
      [] e.op = "adrop" ->
            V(GetsOk(Del(st.A, e.a), e.gets), "C06", "drop") \cup FlushOnce(e, st.A[e.a])
      [] e.op = "alog" -> FlushOnce(e, st.A[e.a]) \cup V(LogCount(e, "L") = 0, "C25", "log-on-set")
      [] e.op = "aset" ->
            LET okv == SetAllowed(e.what, e.v1, e.v2)
                A2 == IF okv THEN Put(st.A, e.a, AttrSet(st.A[e.a], e.what, e.v1, e.v2)) ELSE st.A
            IN  V((e.st = "Ok") = okv, "C06", "accepts-exactly-documented-range")
                \cup V(okv \/ e.st = "ValueOutOfRange", "C06", "error-kind")
                \cup V(GetsOk(A2, e.gets), "C06", "read-back")
                \cup WorkLogs(e, st.A[e.a])
      [] e.op = "inew" ->
            V((e.st = "Ok") = GammaOk01(e.g), "C21", "gamma")
            \cup V(e.st = "Ok" \/ e.st = (IF st.api = "c" THEN "Null" ELSE "ValueOutOfRange"), "C21", "error-kind")
            \cup V(e.st = "Ok" => (e.w = st.px[e.px].w /\ e.h = st.px[e.px].h), "C21", "dimensions")
            \cup WorkLogs(e, st.A[e.a])
      [] e.op = "iraw" ->
            LET verdict == RawVerdict(e) IN
            V(e.st \in verdict, "C21", "creation-status")
            \cup V(e.st = "Ok" => (e.ow = e.w /\ e.oh = e.h), "C21", "dimensions")
      [] e.op = "iimp" ->
            LET p == Px(st, st.I[e.i])  len == st.maps[e.map].len IN
            IF st.api = "rust" THEN V(e.st = (IF len = p.w * p.h THEN "Ok" ELSE "BufferTooSmall"), "C10", "map-size")
            ELSE V(e.st = (IF len = 0 \/ e.how = "null" THEN "InvalidPointer" ELSE IF len < p.w * p.h THEN "BufferTooSmall"
                           ELSE IF e.how = "bad" THEN "Unsupported" ELSE "Ok"), "C10", "map-size")
      [] e.op = "iown" -> V(e.st \in OwnVerdict(st.I[e.i], e), "C18", "ownership-status")
      [] e.op = "craw" ->
            V(e.st \in CRawVerdict(e), "C21", "creation-status")
            \cup V(e.st = "Ok" => (e.ow = e.w /\ e.oh = e.h), "C21", "dimensions")
      [] e.op = "cnull" -> V(e.ret = NullVerdict(e), "C19", e.fn)
      [] e.op = "leak" -> V(e.blocks = 0, "C18", "memory-leak")
      [] e.op = "end" -> V(UNION {st.I[k].own : k \in DOMAIN st.I} \subseteq st.freed, "C18", "never-freed")
      [] e.op = "ifix" ->
            V(e.st = (IF Len(st.I[e.i].fixed) < MaxPal(st) THEN "Ok" ELSE "Unsupported"), "C04", "fixed-limit")
      [] e.op = "ibg" ->
            LET im == st.I[e.i]  b == st.I[e.b]
                same == Px(st, im).w = Px(st, b).w /\ Px(st, im).h = Px(st, b).h
            IN  V(e.st \in (IF b.bg # "" THEN {"Unsupported"} \cup (IF same THEN {} ELSE {"BufferTooSmall"})
                            ELSE IF same THEN {"Ok"} ELSE {"BufferTooSmall"}), "C09", "background-status")
      [] e.op = "himg" ->
            LET h == st.H[e.h]  a == st.A[e.a]  im == st.I[e.i]
                many == Cardinality(NormSet(h.fixed) \cup NormSet(im.fixed)) > MaxPal(st)
                brk == Broke(e)
            IN  V(e.st \in (IF im.rel THEN {"Unsupported"} ELSE {}) \cup
                           (IF many THEN {"BufferTooSmall"} ELSE IF brk THEN {"Aborted"} ELSE {"Ok"}),
                  IF many \/ e.st = "BufferTooSmall" THEN "C04" ELSE IF brk \/ e.st = "Aborted" THEN "C14" ELSE "C22", "add-image-status")
                \cup V(ProgOk(e) /\ (a.prog = "" => Len(e.prog) = 0), "C14", "progress-range")
                \cup V((a.prog # "" /\ e.st = "Ok") => Len(e.prog) > 0, "C14", "callback-not-called")
                \cup WorkLogs(e, a)
      [] e.op = "hcol" ->
            LET okv == IF Len(e.ents) = 0 THEN st.api = "c" ELSE GammaOkHist(e.g) IN
            V(e.st = (IF okv THEN "Ok" ELSE "ValueOutOfRange"), "C22", "add-colors-status")
      [] e.op = "hfix" ->
            LET full == Cardinality(NormSet(st.H[e.h].fixed)) >= MaxPal(st)  bad == ~GammaOkHist(e.g) IN
            V(e.st \in (IF full \/ bad THEN (IF full THEN {"Unsupported"} ELSE {}) \cup (IF bad THEN {"ValueOutOfRange"} ELSE {}) ELSE {"Ok"}),
              IF full THEN "C04" ELSE "C22", "add-fixed-status")
      [] e.op = "quant" ->
            LET a == st.A[e.a]  im == st.I[e.i]
                known == ColsKnown(st, im)
                S == IF known THEN TLCEval(EffCols(st, im)) ELSE {}
                wk == known /\ WeightsKnown(st, im, a)
                w == IF wk THEN TLCEval(Weights(st, im, AutoUsed(st, im, a))) ELSE NoFn
            IN  JudgeMake(a, e, S, known, im.fixed, TRUE, Bits(a), im.g, AllZero(st, im) /\ Len(im.fixed) = 0, im.rel, wk, w, AutoUsed(st, im, a))
                \cup V(e.cbbad = 0, "C15", "row-callback-arguments")
                \cup WorkLogs(e, a)
                \cup When(~Broke(e) /\ ~(im.rel /\ e.st = "Unsupported") /\ e.st # "Null",
                        V(MemoOk(st, QKey(st, a, im), MakeOut(e)), "MEMO", "quantize"))
      [] e.op = "hquant" ->
            LET a == st.A[e.a]  h == st.H[e.h]
                S == IF h.ck THEN DOMAIN h.w ELSE {}
                g == IF h.g <= 0 THEN DefGamma ELSE h.g
            IN  JudgeMake(a, e, S, h.ck, h.fixed, h.nsrc <= 1, h.bits, g, ~h.any /\ Len(h.fixed) = 0, FALSE, h.wk, h.w, h.auto)
                \cup WorkLogs(e, a)
                \cup When(~Broke(e), V(MemoOk(st, HQKey(a, h), MakeOut(e)), "MEMO", "histogram-quantize"))
      [] e.op = "rclone" ->
            LET r == st.R[e.src] IN
            V(e.pal = r.cur /\ e.qerr = r.qerr /\ e.qq = r.qq /\ e.rerr = r.rerr /\ e.og = r.g, "C16", "result-clone")
      [] e.op = "rdith" ->
            LET r == st.R[e.r]  okv == e.v # Nan /\ e.v >= 0 /\ e.v <= 100000 IN
            V(e.st = (IF okv THEN "Ok" ELSE "ValueOutOfRange"), "C06", "dithering-range")
            \cup V(e.pal = (IF okv THEN r.pal ELSE r.cur) /\ e.og = r.g /\ e.qerr = r.qerr
                   /\ (~okv => e.rerr = r.rerr), "C06", "dithering-effect")
            \cup V(e.qerr = r.qerr /\ e.qq = r.qq, "C08", "quantization-error-changed")
            \cup V(r.frozen => SameColors(e.pal, r.pal), "C11", "frozen")
      [] e.op = "rgam" ->
            LET r == st.R[e.r]  okv == GammaOkOut(e.v) IN
            V(e.st = (IF okv THEN "Ok" ELSE "ValueOutOfRange"), "C06", "gamma-range")
            \cup V(e.og = (IF okv THEN e.v ELSE r.g), "C06", "gamma-read-back")
            \cup V(~okv => e.pal = r.cur /\ e.rerr = r.rerr, "C06", "rejected-gamma-changed-palette")
            \cup VV(e.qerr = r.qerr /\ e.qq = r.qq, {"C06", "C08"}, "quantization-error-changed")
            \cup V(Len(e.pal) = Len(r.pal), "C01", "gamma-changes-size")
            \cup V(PostOk(e.pal, r.post), "C13", "levels")
            \cup V((okv /\ r.post = 0 /\ HasLut(e.v) /\ HasLut(r.g)) => GammaConvOk(r.pal, e.pal, r.g, e.v), "C26", "palette-converted")
            \cup V((okv /\ r.post = 0 /\ r.fin /\ Len(e.pal) = Len(r.pal) /\ HasLut(e.v) /\ HasLut(r.g)) => GammaExactOk(r.pal, e.pal, r.g, e.v), "C26", "palette-converted-exactly")
      [] e.op = "rpal" ->
            LET r == st.R[e.r] IN
            V(PalSane(e), "C01", "palette-reads-agree")
            \cup V(e.pal = r.cur, "C01", "palette-stable")
            \cup V(r.frozen => SameColors(e.pal, r.pal), "C11", "frozen")
            \cup V(PostOk(e.pal, r.post), "C13", "levels")
      [] e.op = "remap" -> JudgeRemap(st, e)
      [] OTHER -> {<<"CRASH", "unknown event">>}

Judge(st, e) == Judge1(st, e) \cup JudgeFrees(st, e)
    \cup (IF Has(e, "logs") /\ Has(e, "a") THEN V(LogAttrOk(e), "C25", "log-attr") ELSE {})

(***************************************************************************)
(* The transition function                                                 *)
(***************************************************************************)
Fresh(st) == "?" \o T(<<st.vc, st.n>>)

Step(st, e) ==
    CASE e.op = "px"  -> [st EXCEPT !.px = Put(st.px, e.name, [w |-> e.w, h |-> e.h, dig |-> e.dig, px |-> e.px, cols |-> e.cols, nc |-> e.nc])]
      [] e.op = "map" -> [st EXCEPT !.maps = Put(st.maps, e.name, [len |-> e.len, v |-> e.v, maxv |-> e.maxv, minv |-> e.minv])]
      [] e.op = "variant" -> [st EXCEPT !.A = NoFn, !.I = NoFn, !.H = NoFn, !.R = NoFn, !.api = e.api, !.direct = FALSE, !.freed = {}, !.build = e.build, !.large = e.large, !.vc = st.vc + 1]
      [] e.op = "direct" -> [st EXCEPT !.direct = TRUE]
      [] e.op = "anew"  -> [st EXCEPT !.A = Put(st.A, e.a, NewAttr(st))]
      [] e.op = "acopy" -> [st EXCEPT !.A = Put(st.A, e.a, st.A[e.src])]
      [] e.op = "adrop" -> [st EXCEPT !.A = Del(st.A, e.a)]
      [] e.op = "aprog" -> [st EXCEPT !.A[e.a].prog = e.mode]
      [] e.op = "alog"  -> IF e.which = "log" THEN [st EXCEPT !.A[e.a].log = e.tag] ELSE [st EXCEPT !.A[e.a].flush = e.tag]
      [] e.op = "aset"  -> IF e.st = "Ok" THEN [st EXCEPT !.A = Put(st.A, e.a, AttrSet(st.A[e.a], e.what, e.v1, e.v2))] ELSE st
      [] e.op = "inew"  -> IF e.st = "Ok" THEN [st EXCEPT !.I = Put(st.I, e.i, NewImage(e))] ELSE [st EXCEPT !.I = Del(st.I, e.i)]
      [] e.op = "iclone" -> [st EXCEPT !.I = Put(st.I, e.i, st.I[e.src])]
      [] e.op = "idrop" -> [st EXCEPT !.I = Del(st.I, e.i)]
      [] e.op = "iimp"  -> IF e.st = "Ok" THEN [st EXCEPT !.I[e.i].user = e.map, !.I[e.i].zdig = e.zdig, !.I[e.i].udig = e.udig, !.I[e.i].own = @ \cup TakenNow(st, e)] ELSE st
      [] e.op = "iown"  -> [st EXCEPT !.I[e.i].own = @ \cup TakenNow(st, e)]
      [] e.op = "ifix"  -> IF e.st = "Ok" THEN [st EXCEPT !.I[e.i].fixed = Append(@, e.c)] ELSE st
      [] e.op = "ibg"   -> LET b == st.I[e.b]
                               s2 == IF e.st = "Ok" THEN [st EXCEPT !.I[e.i].bg = b.px, !.I[e.i].bgg = b.g, !.I[e.i].own = @ \cup b.own] ELSE st
                           IN  [s2 EXCEPT !.I = Del(s2.I, e.b)]
      [] e.op = "hnew"  -> [st EXCEPT !.H = Put(st.H, e.h, NewHist(st.A[e.a]))]
      [] e.op = "hdrop" -> [st EXCEPT !.H = Del(st.H, e.h)]
      [] e.op = "himg"  ->
            LET h == st.H[e.h]  a == st.A[e.a]  im == st.I[e.i]
                known == h.ck /\ ColsKnown(st, im)
                wk == h.wk /\ known /\ WeightsKnown(st, im, a)
                S == IF known THEN TLCEval(EffCols(st, im)) ELSE {}
                W == IF wk THEN TLCEval(Weights(st, im, AutoUsed(st, im, a))) ELSE NoFn
                term == "+I(" \o T(<<Bits(a), Contrast(a)>>) \o ImgTermQ(st, im, a) \o ")"
                h2 == [h EXCEPT !.w = IF known THEN AddWeights(h.w, S, LAMBDA c : IF wk THEN W[c] ELSE W0) ELSE NoFn,
                                !.wk = wk, !.auto = h.auto \/ AutoUsed(st, im, a), !.ck = known, !.bits = MaxI(h.bits, Bits(a)), !.g = im.g,
                                !.fixed = Distinct(h.fixed \o im.fixed), !.nsrc = h.nsrc + (IF Len(im.fixed) > 0 THEN 1 ELSE 0),
                                !.any = h.any \/ ~AllZero(st, im), !.term = h.term \o term]
            IN  [st EXCEPT !.H[e.h] = IF e.st = "Ok" THEN h2 ELSE h, !.I[e.i] = AfterMaps(st, im, a)]
      [] e.op = "hcol"  ->
            IF e.st # "Ok" \/ Len(e.ents) = 0 THEN st ELSE
            LET h == st.H[e.h]  S == EntSet(e.ents) IN
            [st EXCEPT !.H[e.h] = [h EXCEPT !.w = IF h.ck THEN AddWeights(h.w, S, LAMBDA c : EntW(e.ents, c)) ELSE NoFn,
                                            !.any = h.any \/ S # {}, !.g = IF h.g = -1 /\ e.g > 0 THEN e.g ELSE h.g,
                                            !.term = h.term \o "+C" \o T(e.ents) \o T(e.g)]]
      [] e.op = "hfix"  ->
            IF e.st # "Ok" THEN st ELSE
            LET h == st.H[e.h] IN
            [st EXCEPT !.H[e.h] = [h EXCEPT !.fixed = Distinct(Append(h.fixed, e.c)), !.nsrc = IF h.nsrc = 0 THEN 1 ELSE h.nsrc,
                                            !.g = IF h.g = -1 /\ e.g > 0 THEN e.g ELSE h.g, !.term = h.term \o "+F" \o T(e.c) \o T(e.g)]]
      [] e.op = "quant" ->
            LET a == st.A[e.a]  im == st.I[e.i]
                known == ColsKnown(st, im)
                S == IF known THEN TLCEval(EffCols(st, im)) ELSE {}
                key == QKey(st, a, im)
                full == ~Broke(e) /\ ~(im.rel /\ e.st = "Unsupported") /\ e.st # "Null"
                s1 == IF full THEN Remember(st, key, MakeOut(e)) ELSE st
                s2 == [s1 EXCEPT !.I[e.i] = AfterMaps(st, im, a)]
                term == IF full THEN key ELSE key \o Fresh(st)
            IN  IF e.st = "Ok"
                THEN [s2 EXCEPT !.R = Put(st.R, e.r, NewResult(st, a, e, term, FALSE, im.fixed, TRUE, S, Lossless(a, S, known, im.fixed, Bits(a), im.g), im.g, TRUE))]
                ELSE [s2 EXCEPT !.R = Del(st.R, e.r)]
      [] e.op = "hquant" ->
            LET a == st.A[e.a]  h == st.H[e.h]
                S == IF h.ck THEN DOMAIN h.w ELSE {}
                g == IF h.g <= 0 THEN DefGamma ELSE h.g
                key == HQKey(a, h)
                s1 == IF Broke(e) THEN st ELSE Remember(st, key, MakeOut(e))
                s2 == [s1 EXCEPT !.H[e.h].term = IF Len(h.fixed) > 0 THEN h.term \o "Q" ELSE h.term]
                term == IF Broke(e) THEN key \o Fresh(st) ELSE key
            IN  IF e.st = "Ok"
                THEN [s2 EXCEPT !.R = Put(st.R, e.r, NewResult(st, a, e, term, TRUE, h.fixed, h.nsrc <= 1, S, Lossless(a, S, h.ck, h.fixed, h.bits, g), g, TRUE))]
                ELSE [s2 EXCEPT !.R = Del(st.R, e.r)]
      [] e.op = "rclone" -> [st EXCEPT !.R = Put(st.R, e.r, [st.R[e.src] EXCEPT !.prog = ""])]
      [] e.op = "rdrop" -> [st EXCEPT !.R = Del(st.R, e.r)]
      [] e.op = "rprog" -> [st EXCEPT !.R[e.r].prog = e.mode]
      [] e.op = "rdith" ->
            IF e.st # "Ok" THEN st ELSE
            [st EXCEPT !.R[e.r].dith = e.v, !.R[e.r].rm = FALSE, !.R[e.r].cur = e.pal, !.R[e.r].rerr = e.rerr, !.R[e.r].rq = e.rq]
      [] e.op = "rgam" ->
            IF e.st # "Ok" THEN st ELSE
            [st EXCEPT !.R[e.r].g = e.v, !.R[e.r].rm = FALSE, !.R[e.r].cur = e.pal, !.R[e.r].pal = e.pal, !.R[e.r].fin = FALSE, !.R[e.r].rerr = e.rerr, !.R[e.r].rq = e.rq]
      [] e.op = "rpal" ->
            \* reading of a palette that has not been used yet finalizes its colors
            LET r == st.R[e.r] IN
            \* (after remapping the palette of the remapped image is read instead)
            [st EXCEPT !.R[e.r].term = IF r.rm THEN r.term ELSE r.term \o "P" \o T(r.g), !.R[e.r].fin = @ \/ ~r.rm]
      [] e.op = "remap" ->
            LET r == st.R[e.r]  im == st.I[e.i]  p == Px(st, im)
                key == MKey(st, r, im, e.pal)
                small == e.how = "small"
                makesMap == r.dith > 0 /\ DitherMapSpeed(r.speed) /\ (im.dm = "" \/ im.dmu) /\ CanMap(st, im)
                im2 == [im EXCEPT !.rel = TRUE, !.dm = IF makesMap THEN (IF e.st = "Ok" THEN key ELSE Fresh(st)) ELSE @,
                                  !.dmu = IF makesMap THEN e.st # "Ok" ELSE @,
                                  !.dmap = IF ~makesMap THEN @ ELSE IF e.st = "Ok" /\ DitherKnown(st, r, im, e) THEN DitherMaps(st, r, im, e) ELSE {},
                                  !.auto = @ \/ (makesMap /\ im.user = "")]
                s0 == IF e.st = "Ok" /\ HasZKey(im) THEN Remember(st, ZKey(st, r, im), NormPal(e.pal)) ELSE st
                s1 == IF e.st = "Ok" THEN Remember(s0, key, <<e.dig, e.pal, e.rerr>>) ELSE st
                s2 == IF e.st = "Ok" THEN [s1 EXCEPT !.R[e.r].cur = e.pal, !.R[e.r].rm = TRUE, !.R[e.r].rerr = e.rerr, !.R[e.r].rq = e.rq] ELSE s1
            IN  IF small THEN st ELSE [s2 EXCEPT !.I[e.i] = im2]
      [] OTHER -> st

\* when palettes are read from the objects themselves, every observation finalizes the colors
Observed(st, e) ==
    IF st.direct /\ e.op \in {"quant", "hquant", "rclone", "rdith", "rgam", "remap"} /\ e.r \in DOMAIN st.R /\ ~st.R[e.r].rm
    THEN [st EXCEPT !.R[e.r].term = @ \o "P" \o T(st.R[e.r].g), !.R[e.r].fin = TRUE] ELSE st

Apply(st, e) == [Observed(Step(st, e), e) EXCEPT !.n = st.n + 1, !.freed = IF e.op = "variant" THEN {} ELSE @ \cup Range(Frees(e))]
=============================================================================
