------------------------------- MODULE GenLiq -------------------------------
(***************************************************************************)
(* Generator of programs (sequences of API calls).                         *)
(*                                                                         *)
(* A program is a path in the graph of abstract states of the objects. The *)
(* abstract state s keeps what can make the next call behave differently:  *)
(* which objects exist, classes of their settings, what has been cached or *)
(* frozen or released by earlier calls. Each focus is one part of the API. *)
(*                                                                         *)
(* Model checking with VIEW s visits every abstract state once, along a    *)
(* shortest path, and prints one program for every transition out of it:   *)
(* every call in every abstract state. Simulation prints long walks.       *)
(* Tokens $c0.., $p0.., $m0.. are replaced with concrete data later.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, FiniteSets

VARIABLES s, hist
vars == <<s, hist>>

Focus == IOEnv.LIQ_FOCUS
Walk  == IOEnv.LIQ_WALK = "1"
Depth == atoi(IOEnv.LIQ_DEPTH)

T(x) == ToString(x)
Min2(x, y) == IF x < y THEN x ELSE y
\* a call: its text, and the abstract state after it
O(t, s2) == {[t |-> t, s |-> s2]}
If(g, x) == IF g THEN x ELSE {}
All(S, f(_)) == UNION {f(x) : x \in S}

Dead == [live |-> FALSE]

(************************************ attr *********************************)
AttrDef == [live |-> TRUE, max |-> 256, q |-> "d", speed |-> 4, post |-> 0]
AttrInit == [a0 |-> AttrDef, a1 |-> Dead]
AN == {"a0", "a1"}
AttrOps ==
    All(AN, LAMBDA a :
        O("A new " \o a, [s EXCEPT ![a] = AttrDef])
        \cup If(s[a].live,
            O("A drop " \o a, [s EXCEPT ![a] = Dead])
            \cup All({2, 256, 1, 0, 257}, LAMBDA v : O("A max " \o a \o " " \o T(v), IF v \in 2..256 THEN [s EXCEPT ![a].max = v] ELSE s))
            \cup All({<<0, 100>>, <<60, 80>>, <<80, 60>>, <<0, 101>>, <<101, 101>>, <<100, 100>>}, LAMBDA v :
                    O("A q " \o a \o " " \o T(v[1]) \o " " \o T(v[2]), IF v[1] <= v[2] /\ v[2] <= 100 THEN [s EXCEPT ![a].q = T(v)] ELSE s))
            \cup All({1, 10, 0, 11, -1}, LAMBDA v : O("A speed " \o a \o " " \o T(v), IF v \in 1..10 THEN [s EXCEPT ![a].speed = v] ELSE s))
            \cup All({0, 4, 5, 255}, LAMBDA v : O("A post " \o a \o " " \o T(v), IF v \in 0..4 THEN [s EXCEPT ![a].post = v] ELSE s))
            \cup All({"0", "1"}, LAMBDA v : O("A lit " \o a \o " " \o v, s))
            \cup All(AN \ {a}, LAMBDA b : O("A copy " \o b \o " " \o a, [s EXCEPT ![b] = s[a]]))))

(*********************************** result ********************************)
\* r: results; src: i image, h histogram (frozen palette); m: remapped last time with dithering (d) or without (u)
ResNew(src) == [live |-> TRUE, src |-> src, dith |-> "1", g |-> "d", read |-> FALSE, m |-> "-"]
ResInit == [r0 |-> Dead, r1 |-> Dead, i0 |-> "", i1 |-> ""]
RN == {"r0", "r1"}
I2 == {"i0", "i1"}
Other(r) == IF r = "r0" THEN "r1" ELSE "r0"
ResOps ==
    All(RN, LAMBDA r :
        O("Q " \o r \o " a0 i0", [s EXCEPT ![r] = ResNew("i")])
        \cup O("HQ " \o r \o " a0 h0", [s EXCEPT ![r] = ResNew("h")])
        \cup If(s[r].live,
            All({"0", "1", "0.5", "1.5", "-0.1", "nan"}, LAMBDA v : O("R dith " \o r \o " " \o v, IF v \in {"0", "1", "0.5"} THEN [s EXCEPT ![r].dith = v, ![r].m = "-"] ELSE s))
            \cup All({"0.45455", "0.55555", "0", "1", "nan"}, LAMBDA v : O("R gam " \o r \o " " \o v, IF v \in {"0.45455", "0.55555"} THEN [s EXCEPT ![r].g = v, ![r].m = "-"] ELSE s))
            \cup O("R pal " \o r, [s EXCEPT ![r].read = TRUE])
            \cup All(I2, LAMBDA i : All({"remapped", "into", "small"}, LAMBDA how :
                    O("M " \o r \o " " \o i \o " " \o how \o " 0", IF how = "small" THEN s
                        ELSE [s EXCEPT ![r].m = (IF s[r].dith = "0" THEN "u" ELSE "d") \o i, ![i] = IF s[r].dith = "0" THEN @ ELSE "dm"])))
            \cup O("R clone " \o Other(r) \o " " \o r, [s EXCEPT ![Other(r)] = s[r]])
            \cup O("R drop " \o r, [s EXCEPT ![r] = Dead])))

(*********************************** image *********************************)
ImgNew(p) == [live |-> TRUE, px |-> p, fx |-> 0, imp |-> "-", bg |-> "-", q |-> FALSE, m |-> "-"]
ImgInit == [i0 |-> ImgNew("p0"), i1 |-> ImgNew("p1"), i2 |-> Dead, r |-> "-"]
I3 == {"i0", "i1", "i2"}
ImgOps ==
    All(I3, LAMBDA i :
        If(~s[i].live, All({"p0", "p1", "p2"}, LAMBDA p : O("I new " \o i \o " a0 $" \o p \o " $rep 0", [s EXCEPT ![i] = ImgNew(p)])))
        \cup If(s[i].live,
            O("I drop " \o i, [s EXCEPT ![i] = Dead])
            \cup All({"c0", "c1", "c2"}, LAMBDA c : O("I fix " \o i \o " $" \o c, [s EXCEPT ![i].fx = Min2(2, @ + 1)]))
            \cup All({"m0", "mz", "mh", "mw"}, LAMBDA m : O("I imp " \o i \o " $" \o m, IF m = "mw" \/ s[i].px = "p2" THEN s ELSE [s EXCEPT ![i].imp = m]))
            \cup All({j \in I3 \ {i} : s[j].live}, LAMBDA j :
                    O("I bg " \o i \o " " \o j, [s EXCEPT ![i].bg = IF s[j].bg = "-" /\ (s[i].px = "p2") = (s[j].px = "p2") THEN "b" ELSE @, ![j] = Dead])
                    \cup O("I clone " \o i \o " " \o j, [s EXCEPT ![i] = s[j]]))
            \cup All({j \in I3 \ {i} : ~s[j].live}, LAMBDA j : O("I clone " \o j \o " " \o i, [s EXCEPT ![j] = s[i]]))
            \cup O("Q r0 a0 " \o i, [s EXCEPT ![i].q = TRUE, !.r = "q"])
            \cup O("Q r0 a8 " \o i, [s EXCEPT !.r = "q8"])
            \cup If(s.r # "-",
                O("M r0 " \o i \o " remapped 0", [s EXCEPT ![i].m = IF s.r \in {"q", "q8"} THEN "d" ELSE IF @ = "d" THEN @ ELSE "u"]))))
    \cup If(s.r \in {"q", "q8"}, O("R dith r0 0", [s EXCEPT !.r = "u"]))

(********************************* histogram *******************************)
HistInit == [h0 |-> "-", n |-> 0, fx |-> 0, q |-> 0, a |-> "d", r |-> "-", src |-> "-"]
HistOps ==
    O("H new h0 a0", [HistInit EXCEPT !.h0 = s.a, !.a = s.a])
    \cup If(s.h0 # "-",
        All({"i0", "i1", "i2"}, LAMBDA i : O("H img h0 a0 " \o i, [s EXCEPT !.n = Min2(3, @ + 1), !.src = i]))
        \cup All({"$e0", "$e1", "$ez"}, LAMBDA e : All({"0", "0.55555", "nan"}, LAMBDA g :
                O("H col h0 " \o g \o " " \o e, IF g = "nan" THEN s ELSE [s EXCEPT !.n = Min2(3, @ + 1), !.src = e \o g])))
        \cup All({"$c0", "$c1", "$t0"}, LAMBDA c : O("H fix h0 0 " \o c, [s EXCEPT !.fx = Min2(2, @ + 1)]))
        \cup O("H fix h0 1.5 $c2", s)
        \cup O("HQ r0 a0 h0", [s EXCEPT !.q = Min2(2, @ + 1), !.r = "h"]))
    \cup All({<<"speed", "10">>, <<"speed", "4">>, <<"post", "2">>, <<"post", "0">>, <<"max", "4">>, <<"max", "256">>, <<"lit", "1">>}, LAMBDA v :
            O("A " \o v[1] \o " a0 " \o v[2], [s EXCEPT !.a = v[1] \o v[2]]))
    \cup If(s.r = "h", All({"i0", "i2"}, LAMBDA i : O("M r0 " \o i \o " remapped 0", s)) \cup O("R dith r0 0", s))

(*********************** memory ownership (C API) **************************)
\* kind: how the image was made, own: what has been handed over
OwnNew(k) == [live |-> TRUE, kind |-> k, own |-> "-", imp |-> "-", m |-> "-", bg |-> "-"]
OwnInit == [i0 |-> Dead, i1 |-> Dead, r |-> "-"]
OwnOps ==
    All(I2, LAMBDA i :
        If(~s[i].live, All({"owned", "stride", "fn"}, LAMBDA k : O("I new " \o i \o " a0 $p0 " \o k \o " 0 0", [s EXCEPT ![i] = OwnNew(k)])))
        \cup If(s[i].live,
            O("I drop " \o i, [s EXCEPT ![i] = Dead])
            \cup All({"r", "p", "rp", "c", "0", "x", "pc"}, LAMBDA f : O("I own " \o i \o " " \o f,
                    IF f \in {"r", "p", "rp"} THEN [s EXCEPT ![i].own = IF @ = "-" THEN f ELSE IF @ = f THEN @ ELSE "rp"] ELSE s))
            \cup All({"own", "copy", "bad", "null"}, LAMBDA h : All({"$m0", "$mw"}, LAMBDA m : O("I imp " \o i \o " " \o m \o " " \o h,
                    IF h \in {"own", "copy"} THEN [s EXCEPT ![i].imp = h \o m] ELSE s)))
            \cup All({j \in I2 \ {i} : s[j].live}, LAMBDA j : O("I bg " \o i \o " " \o j, [s EXCEPT ![i].bg = IF @ = "-" THEN s[j].own ELSE "2", ![j] = Dead]))
            \cup O("Q r0 a0 " \o i, [s EXCEPT !.r = "d"])
            \cup If(s.r # "-", O("M r0 " \o i \o " into 0", [s EXCEPT ![i].m = s.r]) \cup O("M r0 " \o i \o " rows 0", [s EXCEPT ![i].m = s.r]))))
    \cup If(s.r = "d", O("R dith r0 0", [s EXCEPT !.r = "u"]))

(******************************* progress **********************************)
AbortInit == [a |-> "-", r |-> "-", rp |-> "-", u |-> FALSE]
PM == {<<"none", "1">>, <<"once", "1">>, <<"once", "2">>, <<"once", "3">>, <<"once", "5">>, <<"persist", "1">>, <<"persist", "2">>, <<"persist", "4">>, <<"persist", "7">>}
AbortOps ==
    All(PM, LAMBDA m :
        O("A prog a0 " \o m[1] \o " " \o m[2], [s EXCEPT !.a = m[1] \o m[2]])
        \cup If(s.r # "-", O("R prog r0 " \o m[1] \o " " \o m[2], [s EXCEPT !.rp = m[1] \o m[2]])))
    \cup All({"i0", "i1"}, LAMBDA i :
        O("Q r0 a0 " \o i, [s EXCEPT !.r = "q", !.rp = "-", !.u = FALSE, !.a = "used" \o @])
        \cup If(s.r # "-", O("M r0 " \o i \o " into 0", [s EXCEPT !.rp = "used" \o @])))
    \cup O("H img h0 a0 i0", [s EXCEPT !.a = "used" \o @])
    \cup O("HQ r0 a0 h0", [s EXCEPT !.r = "h", !.rp = "-", !.u = FALSE, !.a = "used" \o @])
    \cup If(s.r # "-" /\ ~s.u, O("R dith r0 0", [s EXCEPT !.u = TRUE]))
    \cup If(s.r # "-", O("R pal r0", s))

(********************************* logging *********************************)
LogNew == [live |-> TRUE, log |-> "-", flush |-> "-"]
LogInit == [a0 |-> LogNew, a1 |-> Dead]
LogOps ==
    All(AN, LAMBDA a :
        If(s[a].live,
            All({"t1", "t2"}, LAMBDA t :
                O("A log " \o a \o " log " \o a \o t, [s EXCEPT ![a].log = a \o t])
                \cup O("A log " \o a \o " flush " \o a \o t, [s EXCEPT ![a].flush = a \o t]))
            \cup All({"log", "flush"}, LAMBDA w : O("A log " \o a \o " " \o w \o " -", IF w = "log" THEN [s EXCEPT ![a].log = "x"] ELSE [s EXCEPT ![a].flush = "x"]))
            \cup O("Q r0 " \o a \o " i0", s)
            \cup O("A drop " \o a, [s EXCEPT ![a] = Dead])
            \cup All(AN \ {a}, LAMBDA b : O("A copy " \o b \o " " \o a, [s EXCEPT ![b] = s[a]])))
        \cup If(~s[a].live, O("A new " \o a, [s EXCEPT ![a] = LogNew])))

InitOf == CASE Focus = "attr" -> AttrInit [] Focus = "result" -> ResInit [] Focus = "image" -> ImgInit
            [] Focus = "hist" -> HistInit [] Focus = "own" -> OwnInit [] Focus = "abort" -> AbortInit [] Focus = "log" -> LogInit
Ops == CASE Focus = "attr" -> AttrOps [] Focus = "result" -> ResOps [] Focus = "image" -> ImgOps
            [] Focus = "hist" -> HistOps [] Focus = "own" -> OwnOps [] Focus = "abort" -> AbortOps [] Focus = "log" -> LogOps

RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE IF Len(h) = 1 THEN h[1] ELSE h[1] \o ";" \o Join(Tail(h))
Emit(h) == PrintT("GEN " \o Join(h))

Init == s = InitOf /\ hist = <<>>
Next == \E o \in Ops :
    /\ s' = o.s
    /\ hist' = Append(hist, o.t)
    /\ Walk \/ Emit(hist')
Spec == Init /\ [][Next]_vars

View == IF Walk THEN <<s, hist>> ELSE <<s>>
Bound == Walk \/ Len(hist) < Depth
Done == (Walk /\ Len(hist) = Depth) => Emit(hist)
=============================================================================
