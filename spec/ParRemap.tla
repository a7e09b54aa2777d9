------------------------------ MODULE ParRemap ------------------------------
(***************************************************************************)
(* The parallel part of remapping: a pool of workers, rows of the image    *)
(* taken by whichever worker is free, per-thread temporary rows and        *)
(* accumulators that are merged at the end; or, when dithering, chunks of  *)
(* rows, each with its own error diffusion state, which is warmed up on    *)
(* two rows before the chunk; and a progress callback which may ask to     *)
(* stop.                                                                   *)
(*                                                                         *)
(* Values are symbolic: a pixel row that is mapped without dithering is    *)
(* <<"n", row>>, a dithered one is a term of its row and of the diffusion  *)
(* state it has been computed from. The result of the call must be the     *)
(* one that sequential execution gives, whatever the schedule (C17); every *)
(* row is written exactly once by one worker (C02); nothing that has not   *)
(* been written is read (C17, C20); and a stopped call publishes nothing   *)
(* (C14).                                                                  *)
(*                                                                         *)
(* Flaw selects a design error; without it everything holds, and with each *)
(* of them some invariant must fail, which shows that the invariants are   *)
(* able to tell (models.py runs all of them).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

H == atoi(IOEnv.PAR_H)             \* rows
NW == atoi(IOEnv.PAR_W)            \* workers
NC == atoi(IOEnv.PAR_C)            \* chunks wanted when dithering
Flaw == IOEnv.PAR_FLAW             \* "none" or a name of a design error
Rows == 0..H-1
Workers == 1..NW

\* what the call has been asked to do
\*   dither: error diffusion, first: an undithered pass is made first (for the dithering map),
\*   stop: which call of the progress callback asks to stop (0: none)
Jobs == [dither : BOOLEAN, first : BOOLEAN, stop : 0..NC + 2]

VARIABLES
    job,      \* the request
    pc,       \* main thread: "start", "flat", "merge", "chunks", "wait", "done"
    todo,     \* rows not taken yet (undithered), chunks not taken yet (dithered)
    w,        \* workers: what each is doing
    temp,     \* temporary row of each thread
    acc,      \* accumulator of each thread: bag of rows as a function row -> count
    out,      \* output rows: Uninit, or a value
    writes,   \* how many times each row has been written in this pass
    diff,     \* diffusion state of each chunk
    spawned,  \* number of chunks given to the pool
    calls,    \* calls of the progress callback so far
    pal,      \* what the palette has been improved with (a bag of rows)
    status,   \* "", "Ok", "Aborted"
    published,\* remapped palette visible to the user
    wrong     \* something unwritten has been read
vars == <<job, pc, todo, w, temp, acc, out, writes, diff, spawned, calls, pal, status, published, wrong>>

\* rows are divided evenly, as the library does
ChunkLen == (H + NC - 1) \div NC
NumChunks == (H + ChunkLen - 1) \div ChunkLen
Start(c) == (c - 1) * ChunkLen
End(c) == IF Start(c) + ChunkLen > H THEN H - 1 ELSE Start(c) + ChunkLen - 1
Chunks == 1..NumChunks
Idle == [st |-> "idle", x |-> 0]
NoRow == -1
Uninit == <<"u">>
D0 == <<"0">>
Zero == [r \in Rows |-> 0]

\* sequential semantics
Dith(r, d) == <<"d", r, d>>
\* diffusion state at the start of a chunk: warmed up on the two rows before it
Warm(c) == LET s == Start(c) IN IF s > 2 THEN Dith(s - 1, Dith(s - 2, D0)) ELSE D0
RECURSIVE RefRow(_, _)
RefRow(c, r) == IF r = Start(c) THEN Dith(r, Warm(c)) ELSE Dith(r, RefRow(c, r - 1))
ChunkOf(r) == CHOOSE c \in Chunks : Start(c) <= r /\ r <= End(c)
Ref(r) == IF job.dither THEN RefRow(ChunkOf(r), r) ELSE <<"n", r>>
RefPal == IF job.dither /\ ~job.first THEN Zero ELSE [r \in Rows |-> 1]

Init ==
    /\ job \in {j \in Jobs : (j.first => j.dither) /\ j.stop <= NumChunks + 2}
    /\ pc = "start"
    /\ todo = {} /\ spawned = 0 /\ calls = 0
    /\ w = [k \in Workers |-> Idle]
    /\ temp = [k \in Workers |-> NoRow]
    /\ acc = [k \in Workers |-> Zero]
    /\ out = [r \in Rows |-> Uninit]
    /\ writes = Zero
    /\ diff = [c \in Chunks |-> D0]
    /\ pal = Zero /\ status = "" /\ published = "old" /\ wrong = FALSE

\* the callback is called; does it ask to stop
Stops == calls + 1 = job.stop

Start0 ==
    /\ pc = "start"
    /\ calls' = calls + 1
    /\ IF Stops
       THEN /\ pc' = "done" /\ status' = "Aborted" /\ published' = (IF Flaw = "publish" THEN "new" ELSE published)
            /\ UNCHANGED todo
       ELSE /\ pc' = IF job.dither /\ ~job.first THEN "mid" ELSE "flat"
            /\ todo' = Rows
            /\ UNCHANGED <<status, published>>
    /\ UNCHANGED <<job, w, temp, acc, out, writes, diff, spawned, pal, wrong>>

T(k) == IF Flaw = "shared-temp" THEN 1 ELSE k

\* a worker takes a row, and loads it to its temporary row
TakeRow(k) ==
    /\ pc = "flat" /\ w[k].st = "idle"
    /\ \E r \in todo :
        /\ (\A q \in todo : r <= q)     \* the iterator is shared
        /\ todo' = IF Flaw = "double" /\ k = 1 THEN todo ELSE todo \ {r}
        /\ w' = [w EXCEPT ![k] = [st |-> "row", x |-> r]]
        /\ temp' = [temp EXCEPT ![T(k)] = r]
    /\ (Flaw = "double" => Cardinality(todo) > 0 /\ writes[H - 1] < 2)
    /\ UNCHANGED <<job, pc, acc, out, writes, diff, spawned, calls, pal, status, published, wrong>>

\* and maps the row
DoRow(k) ==
    /\ w[k].st = "row"
    /\ LET r == w[k].x IN
        /\ out' = [out EXCEPT ![r] = <<"n", temp[T(k)]>>]
        /\ writes' = [writes EXCEPT ![r] = @ + 1]
        /\ acc' = [acc EXCEPT ![k][temp[T(k)]] = @ + 1]
    /\ w' = [w EXCEPT ![k] = Idle]
    /\ UNCHANGED <<job, pc, todo, temp, diff, spawned, calls, pal, status, published, wrong>>

\* the main thread merges accumulators of all the threads that took part
Merge ==
    /\ pc = "flat"
    /\ Flaw = "no-join" \/ (todo = {} /\ \A k \in Workers : w[k].st = "idle")
    /\ todo = {}
    /\ pal' = [r \in Rows |-> IF Flaw = "first-thread" THEN acc[1][r] ELSE
                LET s[k \in 0..NW] == IF k = 0 THEN 0 ELSE s[k - 1] + acc[k][r] IN s[NW]]
    /\ IF job.dither THEN pc' = "mid" /\ UNCHANGED <<status, published>>
       ELSE pc' = "done" /\ status' = "Ok" /\ published' = "new"
    /\ UNCHANGED <<job, todo, w, temp, acc, out, writes, diff, spawned, calls, wrong>>

Mid ==
    /\ pc = "mid"
    /\ calls' = calls + 1
    /\ IF Stops THEN pc' = "done" /\ status' = "Aborted" ELSE pc' = "chunks" /\ UNCHANGED status
    /\ published' = IF Flaw = "publish" THEN "new" ELSE published
    /\ writes' = Zero /\ todo' = {}
    /\ UNCHANGED <<job, w, temp, acc, out, diff, spawned, pal, wrong>>

\* the main thread warms up the next chunk, reports progress, and gives the chunk to the pool
Dc(c) == IF Flaw = "shared-diffusion" THEN 1 ELSE c
Spawn ==
    /\ pc = "chunks" /\ spawned < NumChunks
    /\ LET c == spawned + 1 IN
        /\ calls' = calls + 1
        /\ diff' = [diff EXCEPT ![Dc(c)] =
                IF Flaw = "warm-from-output" /\ c > 1 THEN <<"o">> \o out[Start(c) - 1] ELSE Warm(c)]
        /\ wrong' = (wrong \/ (Flaw = "warm-from-output" /\ c > 1 /\ out[Start(c) - 1] = Uninit))
        /\ IF Stops THEN /\ pc' = "wait" /\ status' = "Aborted" /\ UNCHANGED <<spawned, todo>>
           ELSE spawned' = c /\ todo' = todo \cup {c} /\ UNCHANGED <<pc, status>>
    /\ UNCHANGED <<job, w, temp, acc, out, writes, pal, published>>

TakeChunk(k) ==
    /\ pc \in {"chunks", "wait"} /\ w[k].st = "idle"
    /\ \E c \in todo :
        /\ todo' = todo \ {c}
        /\ w' = [w EXCEPT ![k] = [st |-> "chunk", x |-> Start(c), c |-> c]]
    /\ UNCHANGED <<job, pc, temp, acc, out, writes, diff, spawned, calls, pal, status, published, wrong>>

\* one row of a chunk: uses and updates the diffusion state, may look at what the undithered pass has written there
ChunkRow(k) ==
    /\ w[k].st = "chunk"
    /\ LET r == w[k].x  c == w[k].c  v == Dith(r, diff[Dc(c)]) IN
        /\ wrong' = (wrong \/ ((job.first \/ Flaw = "guess") /\ out[r] = Uninit))
        /\ out' = [out EXCEPT ![r] = v]
        /\ writes' = [writes EXCEPT ![r] = @ + 1]
        /\ diff' = [diff EXCEPT ![Dc(c)] = v]
        /\ w' = [w EXCEPT ![k] = IF r = (IF Flaw = "overrun" THEN (IF End(c) + 1 < H THEN End(c) + 1 ELSE End(c)) ELSE IF Flaw = "last-row" /\ c = NumChunks /\ c > 1 THEN End(c) - 1 ELSE End(c))
                                 THEN Idle ELSE [@ EXCEPT !.x = r + 1]]
    /\ UNCHANGED <<job, pc, todo, temp, acc, spawned, calls, pal, status, published>>

Spawned ==
    /\ pc = "chunks" /\ spawned = NumChunks
    /\ pc' = "wait" /\ status' = "Ok"
    /\ UNCHANGED <<job, todo, w, temp, acc, out, writes, diff, spawned, calls, pal, published, wrong>>
\* the scope is left when all the chunks have been done
Join ==
    /\ pc = "wait"
    /\ Flaw = "no-join" \/ (todo = {} /\ \A k \in Workers : w[k].st = "idle")
    /\ pc' = "done"
    /\ published' = IF status = "Ok" \/ Flaw = "publish" THEN "new" ELSE published
    /\ UNCHANGED <<job, todo, w, temp, acc, out, writes, diff, spawned, calls, pal, status, wrong>>

Next == Start0 \/ Merge \/ Mid \/ Spawn \/ Spawned \/ Join
        \/ \E k \in Workers : TakeRow(k) \/ DoRow(k) \/ TakeChunk(k) \/ ChunkRow(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************* properties ********************************)
Done == pc = "done"
\* C17: result of the sequential execution, in every schedule
SameAsSequential == (Done /\ status = "Ok") => (\A r \in Rows : out[r] = Ref(r)) /\ pal = RefPal
\* C02: all rows, each by one worker
EachRowOnce == (Done /\ status = "Ok") => \A r \in Rows : writes[r] = 1
NeverTwice == \A r \in Rows : writes[r] <= 1
Exclusive == \A j \in Workers, k \in Workers : (j # k /\ w[j].st # "idle" /\ w[k].st # "idle") => w[j].x # w[k].x
\* C14: stopped if asked to, and then nothing is visible
AbortObeyed == Done => ((status = "Aborted") <=> (job.stop > 0 /\ calls >= job.stop))
AbortAtomic == (Done /\ status = "Aborted") => published = "old"
\* nobody works after the call has returned (the buffers belong to the caller again)
NoneLeft == Done => \A k \in Workers : w[k].st = "idle"
\* C17, C20
NothingUnwrittenRead == ~wrong
\* C20: every call ends
Ends == <>Done
=============================================================================
