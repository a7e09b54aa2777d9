------------------------------- MODULE MCLiq -------------------------------
(***************************************************************************)
(* Closed model: a user who may make any call of a small instance of the   *)
(* API, and a library which may answer with any outcome the specification  *)
(* (Judge) allows. TLC explores all histories of up to Depth calls.        *)
(*                                                                         *)
(* It is checked that                                                      *)
(* - the specification is consistent: in every reachable state every call  *)
(*   has an outcome that is allowed (a correct library can exist),         *)
(* - clauses about single calls add up to guarantees about histories:      *)
(*   the invariants below, stated in terms of what the user sees,          *)
(* - clauses are not vacuous: each one rules out some outcome (Seen).      *)
(***************************************************************************)
EXTENDS Liq

\* gave: buffers whose ownership the user has given away successfully
VARIABLES st, last, hist, gave
vars == <<st, last, hist, gave>>

Focus == IOEnv.LIQ_FOCUS
Depth == atoi(IOEnv.LIQ_DEPTH)

(************************** the small instance *****************************)
K == <<255, 0, 0, 255>>
W == <<255, 255, 255, 255>>
Z == <<0, 0, 0, 0>>
Cols == {K, W, Z}
PxEv(name, w, h, s) ==
    [ op |-> "px", name |-> name, w |-> w, h |-> h, dig |-> "d" \o T(s), small |-> TRUE, px |-> s,
      nc |-> Cardinality(Range(s)), cols |-> LET q == SetToSeq(Range(s)) IN [k \in DOMAIN q |-> Append(q[k], Cardinality({j \in DOMAIN s : s[j] = q[k]}))] ]
MapEv(name, v) == [ op |-> "map", name |-> name, len |-> Len(v), v |-> v, maxv |-> Max(Range(v)), minv |-> Min(Range(v)) ]
P0 == <<K, Z, K>>
P1 == <<W, K, K>>
Pic(name) == IF name = "p0" THEN P0 ELSE IF name = "p1" THEN P1 ELSE <<W>>
MapOf(m) == IF m = "m0" THEN <<255, 0, 0>> ELSE IF m = "m1" THEN <<1, 2, 3>> ELSE IF m = "mz" THEN <<0, 0, 0>> ELSE <<9, 9>>

Gets(A) == LET q == SetToSeq(DOMAIN A) IN [k \in DOMAIN q |-> <<q[k]>> \o AttrGets(A[q[k]])]
Quiet == [prog |-> <<>>, logs |-> <<>>]
Play(evs) == FoldLeft(LAMBDA s, e : Apply(s, e), InitSt, evs)

AnewEv(a, A) == [op |-> "anew", a |-> a, gets |-> Gets(A)] @@ Quiet
InewEv(i, p) == [op |-> "inew", i |-> i, a |-> "a0", px |-> p, rep |-> "owned", g |-> 0, w |-> Len(Pic(p)), h |-> 1, st |-> "Ok",
                 rows |-> "rows-" \o i, pixels |-> "pixels-" \o i] @@ Quiet
Setup == << [op |-> "variant", api |-> IF Focus = "own" THEN "c" ELSE "rust", build |-> "mc", large |-> FALSE],
            PxEv("p0", 3, 1, P0), PxEv("p1", 3, 1, P1), PxEv("p2", 1, 1, <<W>>),
            MapEv("m0", MapOf("m0")), MapEv("m1", MapOf("m1")), MapEv("mz", MapOf("mz")), MapEv("mw", MapOf("mw")),
            AnewEv("a0", NoFn), InewEv("i0", "p0"), InewEv("i1", "p1") >>

(******************************* calls *************************************)
C(r) == {r}
G(g, x) == IF g THEN x ELSE {}
Live(f) == DOMAIN f

PalCalls ==
    UNION {
        {[op |-> "aset", a |-> "a0", what |-> x[1], v1 |-> x[2], v2 |-> x[3]] : x \in {<<"max", 2, 0>>, <<"max", 1, 0>>, <<"q", 100, 100>>, <<"lit", 1, 0>>}},
        {[op |-> "ifix", i |-> i, c |-> W] : i \in Live(st.I)},
        {[op |-> "iimp", i |-> i, map |-> m, zdig |-> "z" \o T({<<Pic(st.I[i].px)[k], MapOf(m)[k]>> : k \in {j \in DOMAIN MapOf(m) : MapOf(m)[j] > 0}}), udig |-> m] : i \in Live(st.I), m \in {"m0", "mz"}},
        {[op |-> "iclone", i |-> "i2", src |-> i] : i \in Live(st.I) \cap {"i0"}},
        {[op |-> "ibg", i |-> "i0", b |-> i] : i \in Live(st.I) \cap {"i1"}},
        {[op |-> "quant", r |-> "r0", a |-> "a0", i |-> i] : i \in Live(st.I)},
        {[op |-> "rclone", r |-> "r1", src |-> r] : r \in Live(st.R) \cap {"r0"}},
        {[op |-> "rpal", r |-> r] : r \in Live(st.R)},
        {[op |-> "rdith", r |-> r, v |-> v] : r \in Live(st.R), v \in {0, Nan}},
        {[op |-> "remap", r |-> r, i |-> i, how |-> how] : r \in Live(st.R), i \in Live(st.I), how \in {"into", "small"}} }

HistCalls ==
    UNION {
        {[op |-> "aset", a |-> "a0", what |-> "max", v1 |-> 2, v2 |-> 0]},
        {[op |-> "hnew", h |-> "h0", a |-> "a0"]},
        {[op |-> "himg", h |-> h, a |-> "a0", i |-> i] : h \in Live(st.H), i \in Live(st.I)},
        {[op |-> "hcol", h |-> h, g |-> g, ents |-> s] : h \in Live(st.H), g \in {0, Nan}, s \in {<<>>, << <<255, 255, 255, 255, 0, 2>>, <<1, 2, 3, 0, 0, 0>> >>, << <<255, 0, 0, 255, 4294, 967295>> >> }},
        {[op |-> "hfix", h |-> h, g |-> 0, c |-> W] : h \in Live(st.H)},
        {[op |-> "hquant", r |-> "r0", a |-> "a0", h |-> h] : h \in Live(st.H)},
        {[op |-> "rdith", r |-> r, v |-> 0] : r \in Live(st.R)},
        {[op |-> "rgam", r |-> r, v |-> v] : r \in Live(st.R), v \in {100000, 55555}},
        {[op |-> "remap", r |-> r, i |-> i, how |-> "into"] : r \in Live(st.R), i \in Live(st.I)} }

OwnCalls ==
    UNION {
        {[op |-> "iown", i |-> i, flags |-> f, kind |-> "rows"] : i \in Live(st.I), f \in {"r", "p", "rp", "0", "pc"}},
        {[op |-> "iimp", i |-> i, map |-> m, how |-> h, buf |-> "map" \o i \o m \o T(Len(hist)), zdig |-> "", udig |-> m] : i \in Live(st.I), m \in {"m1", "mw"}, h \in {"own", "copy", "null"}},
        {[op |-> "ibg", i |-> i, b |-> j] : i \in Live(st.I), j \in Live(st.I) \ {"i0"}},
        {[op |-> "idrop", i |-> i] : i \in Live(st.I)},
        {[op |-> "end"]} }

LogCalls ==
    UNION {
        {[op |-> "acopy", a |-> "a1", src |-> a] : a \in Live(st.A) \ {"a1"}},
        {[op |-> "alog", a |-> a, which |-> w, tag |-> t] : a \in Live(st.A), w \in {"log", "flush"}, t \in {"t1", "t2", ""}},
        {[op |-> "aset", a |-> a, what |-> "speed", v1 |-> v, v2 |-> 0] : a \in Live(st.A), v \in {1, 11}},
        {[op |-> "adrop", a |-> a] : a \in Live(st.A)} }

Calls == (CASE Focus = "pal" -> PalCalls [] Focus = "hist" -> HistCalls [] Focus = "own" -> OwnCalls [] Focus = "log" -> LogCalls)
         \ (CASE Focus = "own" -> {c \in {[op |-> "ibg", i |-> x, b |-> x] : x \in DOMAIN st.I} : TRUE} [] OTHER -> {})

(***************************** outcomes ************************************)
\* the library may answer anything out of these; Judge says what is allowed
Sts == {"Ok", "ValueOutOfRange", "BufferTooSmall", "Unsupported", "QualityTooLow", "Aborted", "InvalidPointer"}
With(c, S) == {x @@ c : x \in S}
Pals == UNION {[1..n -> Cols] : n \in 1..3}
QOf(e4) == CHOOSE q \in 0..100 : QualityMatches(e4, q)
Bad4 == 40000
Errs == {<<-1, -1>>, <<0, 100>>, <<0, 40>>, <<Bad4, QOf(Bad4)>>}
NoPal == [pal |-> <<>>, plen |-> 0, psame |-> TRUE, qerr |-> -1, qq |-> -1, rerr |-> -1, rq |-> -1, og |-> 0]

MakeOuts == {[st |-> s, cbbad |-> 0] @@ NoPal @@ Quiet : s \in Sts \ {"Ok"}}
    \cup {[st |-> "Ok", cbbad |-> 0, pal |-> p, plen |-> Len(p), psame |-> TRUE, qerr |-> e[1], qq |-> e[2], rerr |-> e[1], rq |-> e[2], og |-> DefGamma] @@ Quiet : p \in Pals, e \in Errs}

Show(r, p, rerr, rq) == [pal |-> p, plen |-> Len(p), psame |-> TRUE, qerr |-> r.qerr, qq |-> r.qq, rerr |-> rerr, rq |-> rq, og |-> r.g]

\* each distinct (color, background) gets an index
RemapOuts(c) ==
    LET r == st.R[c.r]  im == st.I[c.i]  s == Px(st, im).px
        b == IF im.bg = "" THEN [k \in DOMAIN s |-> Z] ELSE st.px[im.bg].px
        gset == {<<s[k], b[k]>> : k \in DOMAIN s}
        gseq == SetToSeq(gset)
        pals == {r.pal, r.cur} \cup (IF r.dith > 0 THEN {p \in Pals : Len(p) = Len(r.pal)} ELSE {<<K, K>>})
        bgOn(p) == im.bg # "" /\ TransparentIdx(p) # {}
        groups(f) == [k \in DOMAIN gseq |-> gseq[k][1] \o gseq[k][2] \o <<f[k], Cardinality({j \in DOMAIN s : <<s[j], b[j]>> = gseq[k]})>>]
        err(p, f) == ToErr4(MeanOf(groups(f), Len(s), LAMBDA gr : GroupDiff(PalF(p, r.g), p, gr, Lut[T(im.g)], Lut[T(im.g)], bgOn(p))))
        base == [n |-> Len(s), need |-> Len(s), touched |-> 0, unwritten |-> 0, rpsame |-> TRUE, cbbad |-> 0, full |-> TRUE] @@ Quiet
    IN  {[st |-> x, maxi |-> -1, dig |-> "", groups |-> <<>>] @@ Show(r, r.cur, r.rerr, r.rq) @@ base : x \in Sts \ {"Ok"}}
        \cup UNION {
            {[st |-> "Ok", maxi |-> Max({f[k] : k \in DOMAIN f}), dig |-> T(f), groups |-> groups(f)] @@ Show(r, p, x, IF x = -1 THEN -1 ELSE QOf(x)) @@ base
                : x \in {0} \cup (IF \A k \in DOMAIN f : f[k] < Len(p) THEN {err(p, f)} ELSE {})}
            : p \in pals, f \in [DOMAIN gseq -> 0..2] }

Outs(c) ==
    CASE c.op = "aset" ->
            With(c, {[st |-> s, gets |-> Gets(A2)] @@ Quiet : s \in Sts, A2 \in {st.A, Put(st.A, c.a, AttrSet(st.A[c.a], c.what, c.v1, c.v2))}})
      [] c.op = "acopy" -> With(c, {[gets |-> Gets(A2)] @@ Quiet : A2 \in {st.A, Put(st.A, c.a, st.A[c.src])}})
      [] c.op = "alog" -> With(c, {[logs |-> l, prog |-> <<>>] : l \in {<<>>} \cup {<< <<t, "F", c.a>> >> : t \in {"t1", "t2"}} \cup {<< <<t, "L", c.a>> >> : t \in {"t1"}}})
      [] c.op = "adrop" -> With(c, {[gets |-> Gets(Del(st.A, c.a)), logs |-> l, prog |-> <<>>] : l \in {<<>>} \cup {<< <<t, "F", x>> >> : t \in {"t1", "t2"}, x \in DOMAIN st.A}})
      [] c.op \in {"ifix", "hfix", "hcol"} -> With(c, {[st |-> s] : s \in Sts})
      [] c.op = "iimp" -> With(c, {[st |-> s, frees |-> f] : s \in Sts, f \in {<<>>} \cup (IF Focus = "own" THEN {<<x>> : x \in UNION {st.I[k].own : k \in DOMAIN st.I} \cup {c.buf}} ELSE {})})
      [] c.op = "ibg" -> With(c, {[st |-> s, frees |-> f] : s \in Sts, f \in {<<>>, SetToSeq(st.I[c.b].own \ st.freed)}})
      [] c.op \in {"iclone", "hnew"} -> {c}
      [] c.op = "idrop" -> With(c, {[frees |-> f] : f \in UNION {{<<>>, SetToSeq(S)} : S \in SUBSET (st.I[c.i].own \cup {st.I[c.i].rows})}})
      [] c.op = "iown" -> With(c, {[st |-> s] : s \in Sts})
      [] c.op = "end" -> {c}
      [] c.op = "himg" -> With(c, {[st |-> s] @@ Quiet : s \in Sts})
      [] c.op \in {"quant", "hquant"} -> With(c, MakeOuts)
      [] c.op = "rclone" -> With(c, {Show(st.R[c.src], p, st.R[c.src].rerr, st.R[c.src].rq) : p \in {st.R[c.src].cur, <<Z>>}})
      [] c.op = "rpal" -> With(c, {Show(st.R[c.r], p, 0, 0) : p \in {st.R[c.r].cur, st.R[c.r].pal, <<Z>>}})
      [] c.op = "rdith" -> With(c, {[st |-> s] @@ Show(st.R[c.r], p, x[1], x[2]) : s \in Sts, p \in {st.R[c.r].cur, st.R[c.r].pal}, x \in {<<st.R[c.r].rerr, st.R[c.r].rq>>, <<st.R[c.r].qerr, st.R[c.r].qq>>}})
      [] c.op = "rgam" -> With(c, {[og |-> g] @@ [st |-> s] @@ Show(st.R[c.r], p, st.R[c.r].rerr, st.R[c.r].rq) : s \in Sts, g \in {c.v, st.R[c.r].g}, p \in {st.R[c.r].cur, st.R[c.r].pal, <<Z>>}})
      [] c.op = "remap" -> With(c, RemapOuts(c))

Name(c) == c.op
\* remembers which clauses have ruled something out
Ruled(J) == IF J \subseteq TLCGet(42) THEN TRUE ELSE TLCSet(42, TLCGet(42) \cup J)

Given(e) ==
    CASE e.op = "iown" /\ e.st = "Ok" -> (IF e.flags \in {"r", "rp"} THEN {st.I[e.i].rows} ELSE {}) \cup (IF e.flags \in {"p", "rp"} THEN {st.I[e.i].pixels} ELSE {})
      [] e.op = "iimp" /\ Focus = "own" -> IF e.st = "Ok" /\ e.how = "own" THEN {e.buf} ELSE {}
      [] OTHER -> {}

Init == /\ TLCSet(42, {})
        /\ st = Play(Setup)
        /\ last = [op |-> "-"]
        /\ hist = <<>>
        /\ gave = {}
Next == /\ Len(hist) < Depth
        /\ last.op # "end"
        /\ \E c \in Calls : \E e \in Outs(c) :
            LET J == TLCEval(Judge(st, e)) IN
            IF J = {} THEN st' = Apply(st, e) /\ last' = e /\ hist' = Append(hist, Name(c))
                /\ gave' = gave \cup Given(e)
            ELSE Ruled(J) /\ FALSE
Spec == Init /\ [][Next]_vars

(**************************** consistency **********************************)
\* (the call "end" is not the library's: it is the observation that nothing has been left behind)
Consistent == Len(hist) < Depth => \A c \in Calls : c.op = "end" \/ \E e \in Outs(c) : Judge(st, e) = {}

(************** what the user relies on, about whole histories *************)
Results == {st.R[r] : r \in DOMAIN st.R}
PaletteLimits == \A r \in Results : Len(r.cur) \in 1..r.max /\ Len(r.pal) = Len(r.cur)
\* a shared palette is the same for all images
Shared == \A r \in Results : r.frozen => SameColors(r.cur, r.pal)
\* fixed colors stay
FixedStay == \A r \in Results : (r.fixed # <<>> /\ r.g = r.g0) => \E k \in DOMAIN r.cur : r.cur[k] = W
\* same ingredients, same result
Deterministic == \A r \in Results, q \in Results : (r.term = q.term /\ r.g = q.g) => r.pal = q.pal /\ r.qerr = q.qerr
\* minimum quality is kept by every result (the only minimum here is 100)
Gate == \A r \in DOMAIN st.R : (last.op \in {"quant", "hquant"} /\ last.r = r /\ st.A["a0"].min = 100) => st.R[r].qq = 100
\* an image that fits in the palette is never changed by the round trip
RoundTrip == (last.op = "remap" /\ last.st = "Ok") =>
    LET r == st.R[last.r]  im == st.I[last.i]  s == Px(st, im).px IN
    (r.ll /\ Range(s) \subseteq NormSet(r.pal) /\ im.bg = "" /\ r.g = r.g0) =>
        \A k \in DOMAIN last.groups : last.pal[last.groups[k][9] + 1] = SubSeq(last.groups[k], 1, 4)
\* undithered output never shows a color when a better one is in the palette, and what it reports is true
Faithful == (last.op = "remap" /\ last.st = "Ok" /\ st.R[last.r].dith = 0 /\ st.I[last.i].bg = "" /\ st.R[last.r].g = DefGamma) =>
    LET seen == {<<SubSeq(last.groups[k], 1, 4), last.pal[last.groups[k][9] + 1]>> : k \in DOMAIN last.groups} IN
    /\ \A x \in seen : x[1] \in NormSet(last.pal) => x[1] = x[2]
    /\ (\A x \in seen : x[1] = x[2]) => last.rerr <= 20
\* buffers: nothing is freed that was not given or twice, all that was given is freed with its owner
Owned == UNION {st.I[i].own : i \in DOMAIN st.I}
OwnersDistinct == \A i \in DOMAIN st.I, j \in DOMAIN st.I : i # j => st.I[i].own \cap st.I[j].own = {}
FreedWasGiven == st.freed \subseteq gave
NothingLost == \A b \in gave : b \in st.freed \/ b \in Owned

\* refused calls change nothing the user can see
Refused == (Has(last, "st") /\ last.st \notin {"Ok", "Aborted"} /\ last.op \in {"aset", "rdith", "rgam"}) => (last.op = "aset" => Gets(st.A) = last.gets) /\ (last.op # "aset" => st.R[last.r].cur = last.pal)

\* names of the calls made so far do not matter
View == <<[st EXCEPT !.n = 0], last, Len(hist), gave>>

Report == PrintT(<<"RULED", TLCGet(42)>>)
=============================================================================
