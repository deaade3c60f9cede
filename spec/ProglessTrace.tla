--------------------------- MODULE ProglessTrace ---------------------------
(* Recorded executions of the real progress bar (calls, returns, terminal     *)
(* pictures, threads, signals) against the object of Progless.tla.  A trace is *)
(* accepted if the moments at which its calls take effect can be placed so     *)
(* that every observation is explained.                                        *)
EXTENDS Progless, Json, TLC
CONSTANTS File, Chk

X == INSTANCE ProglessText

Data == TLCEval(JsonDeserialize(File))
Traces == TLCEval(Data.traces)
On(x) == x \in Chk

(* Display widths: of the characters that occur, those that are not one wide. *)
Wide == TLCEval({Data.wide[i] : i \in 1..Len(Data.wide)})
Thin == TLCEval({Data.thin[i] : i \in 1..Len(Data.thin)})
CW(c) == IF c \in Wide THEN 2 ELSE IF c \in Thin THEN 0 ELSE 1

VARIABLES tr, ix, bar, calls, hist, flo, last, begun, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel
vars == <<tr, ix, bar, calls, hist, flo, last, begun, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

Zero == [c |-> 1, t |-> 1, k |-> 1]
NoPic == [k |-> "none"]

Init ==
    /\ tr \in 1..Len(Traces)
    /\ ix = 1
    /\ bar = Nothing
    /\ calls = << >>
    /\ hist = [c |-> <<Counts(Nothing)>>, t |-> <<NoTitle>>, k |-> << {} >>]
    /\ flo = Zero
    /\ last = Zero
    /\ begun = << >>
    /\ lines = << >>
    /\ pict = NoPic
    /\ alive = {}
    /\ newest = 0
    /\ cur = [w |-> Traces[tr].size.w, h |-> Traces[tr].size.h, err |-> FALSE, at |-> -5000]
    /\ sizes = {Traces[tr].size}
    /\ born = 0
    /\ rst = 0
    /\ pol = "none"
    /\ hits = 0
    /\ dying = FALSE
    /\ lel = 0

Ev == Traces[tr].ev[ix]
Range(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------ bookkeeping *)
Remember(new) ==
    hist' = [c |-> IF Counts(new) = Counts(bar) THEN hist.c ELSE Append(hist.c, Counts(new)),
             t |-> IF new.title = bar.title THEN hist.t ELSE Append(hist.t, new.title),
             k |-> IF new.tasks = bar.tasks THEN hist.k ELSE Append(hist.k, new.tasks)]
Made(mk) == [c |-> IF Len(hist'.c) > Len(hist.c) THEN Len(hist'.c) ELSE mk.c,
             t |-> IF Len(hist'.t) > Len(hist.t) THEN Len(hist'.t) ELSE mk.t,
             k |-> IF Len(hist'.k) > Len(hist.k) THEN Len(hist'.k) ELSE mk.k]
MaxOf(a, b) == [c |-> Max2(a.c, b.c), t |-> Max2(a.t, b.t), k |-> Max2(a.k, b.k)]

(* ------------------------------------------------------------ the picture *)
Wd(z) == Min2(z.w - 1, 255)
Ht(z) == Min2(z.h, 255) - 1
Sized(z) == z.w >= 2 /\ z.h >= 2
(* The percentage is that of the counts, give or take how it is rounded. *)
PctOK(p, c) == Leq(Gap(Times(c.n, p.pct), Times(c.d, 10000)), c.n)
PctLen(p) == IF p.pct < 1000 THEN 5 ELSE IF p.pct < 10000 THEN 6 ELSE 7
FullLen(p, c) == 19 + Len(Nice(c.d)) + Len(Nice(c.n)) + PctLen(p)
Kind(p, c, z) == IF Wd(z) < 10 THEN "none"
                 ELSE IF Wd(z) < 40 \/ FullLen(p, c) > Wd(z) THEN "pct"
                 ELSE "full"
BarOK(p, c, z) ==
    LET sp == Wd(z) - FullLen(p, c)
    IN IF sp < 10 THEN p.bd = 0 /\ p.bu = 0
       ELSE /\ p.bd + p.bu = sp
            /\ Leq(Times(c.n, p.bd), Times(c.d, sp))
            /\ Less(Times(c.d, sp), Times(c.n, p.bd + 1))
CountsOK(p, c, z) ==
    IF p.k = "bad" THEN FALSE
    ELSE IF p.k = "none" THEN Wd(z) < 10
    ELSE /\ PctOK(p, c)
         /\ p.k = Kind(p, c, z)
         /\ p.k = "full" => (p.done = c.d /\ p.total = c.n /\ BarOK(p, c, z))
TitleText(t, z) == IF ~t.on \/ Ht(z) < 2 THEN << >> ELSE X!TitleLine(t.p, t.m \o t.s, CW, Wd(z))
TasksFit(tt, k, z) == (IF tt = << >> THEN 0 ELSE 1) + 1 + Cardinality(k) <= Ht(z)
TaskLines(k, z) == LET q == X!Listed(k) IN [i \in 1..Len(q) |-> X!Within(q[i], CW, Wd(z) - 12)]
TasksOK(p, k, z) == p.tasks = IF TasksFit(p.title, k, z) THEN TaskLines(k, z) ELSE << >>
TasksMay(p, k, z) ==
    \/ p.tasks = TaskLines(k, z)
    \/ p.tasks = << >> /\ (~TasksFit(<<1>>, k, z) \/ ~TasksFit(<< >>, k, z))

(* A frame painted by t now. *)
Match(q, lo, P(_)) == {i \in lo..Len(q) : P(q[i])}
FrameOK(p, t, z) ==
    LET lo == MaxOf(IF t \in DOMAIN begun THEN begun[t] ELSE Zero, last)
        ic == Match(hist.c, lo.c, LAMBDA c : CountsOK(p, c, z))
        it == IF p.k = "pct" \/ ~On("title") THEN {lo.t} ELSE Match(hist.t, lo.t, LAMBDA x : p.title = TitleText(x, z))
        ik == IF p.k = "pct" \/ ~On("tasks") THEN {lo.k} ELSE Match(hist.k, lo.k, LAMBDA k : TasksMay(p, k, z))
        least(S) == CHOOSE i \in S : \A j \in S : i <= j
    IN IF ic # {} /\ it # {} /\ ik # {}
       THEN [c |-> least(ic), t |-> least(it), k |-> least(ik)]
       ELSE [c |-> 0, t |-> 0, k |-> 0]

Ender == \E t \in DOMAIN calls : calls[t].c.ender /\ calls[t].c.st # "go"
(* Painting is for running bars, or those whose end is not done yet. *)
MayPaint == bar.ph = "run" \/ Ender

Shown(p, z) ==   \* the exact picture of a running bar
    /\ CountsOK(p, Counts(bar), z)
    /\ p.k = "full" => p.title = TitleText(bar.title, z) /\ TasksOK(p, bar.tasks, z)

(* ------------------------------------------------------------ silent steps *)
Unchanged == UNCHANGED <<tr, ix, flo, last, begun, pict, alive, newest, sizes, cur, born, lel>>

Push(t) ==
    LET c == calls[t].c
    IN /\ c.o \in {"msg", "print"} /\ c.st = "go"
       /\ \/ /\ lines' = lines \o c.a
             /\ calls' = [calls EXCEPT ![t].c = FinR(c, IF c.o = "msg" THEN "true" ELSE "-")]
          \* If it could not be written it comes back, as long as there is a bar to be put above.
          \/ /\ calls[t].lossy
             /\ lines' = lines
             /\ \/ c.o = "msg" /\ calls' = [calls EXCEPT ![t].c = FinR(c, "false")]
                \/ /\ (c.o = "print" \/ bar.ph # "run" \/ Ender)
                   /\ calls' = [calls EXCEPT ![t].c = FinR(c, IF c.o = "msg" THEN "true" ELSE "-")]
       /\ Unchanged /\ UNCHANGED <<bar, hist, pol, hits, dying, rst>>

Policy(t) ==
    LET c == calls[t].c
    IN /\ c.o \in {"two", "keep"} /\ c.st = "go"
       /\ pol' = IF pol = "none" THEN c.o ELSE pol
       /\ calls' = [calls EXCEPT ![t].c = Fin(c)]
       /\ Unchanged /\ UNCHANGED <<bar, hist, lines, hits, dying, rst>>

Effect(t) ==
    /\ calls[t].c.o \notin {"msg", "print", "two", "keep"}
    /\ \E sc \in Steps(bar, calls[t].c) :
        /\ bar' = sc[1]
        /\ Remember(sc[1])
        /\ rst' = IF sc[1].ph = "run" /\ bar.ph # "run" THEN Ev.n ELSE rst
        /\ LET started == sc[1].ph = "run" /\ bar.ph # "run"
           IN calls' = [u \in DOMAIN calls |->
                IF u = t THEN [calls[t] EXCEPT !.c = sc[2], !.mk = Made(calls[t].mk)]
                ELSE IF started THEN [calls[u] EXCEPT !.c.saw = TRUE] ELSE calls[u]]
        /\ Unchanged /\ UNCHANGED <<lines, pol, hits, dying>>

Default ==
    /\ Traces[tr].sigint /\ pol = "none" /\ alive # {}
    /\ pol' = "default"
    /\ Unchanged /\ UNCHANGED <<bar, calls, hist, lines, hits, dying, rst>>

Strike ==
    /\ hits > 0 /\ pol # "none"
    /\ hits' = hits - 1
    /\ dying' = (dying \/ pol = "default" \/ (pol = "two" /\ bar.sw))
    /\ bar' = [bar EXCEPT !.sw = TRUE]
    /\ Unchanged /\ UNCHANGED <<calls, hist, lines, pol, rst>>

Warn ==
    /\ bar.sw /\ bar.ph = "run" /\ ~bar.warned /\ alive # {}
    /\ bar' = [bar EXCEPT !.warned = TRUE, !.title = Warning]
    /\ Remember([bar EXCEPT !.title = Warning])
    /\ Unchanged /\ UNCHANGED <<calls, lines, pol, hits, dying, rst>>

Silent == (\E t \in DOMAIN calls : Push(t) \/ Policy(t) \/ Effect(t)) \/ Default \/ Strike \/ Warn

(* ------------------------------------------------------------ events *)
Without(f, t) == [u \in DOMAIN f \ {t} |-> f[u]]
With(f, t, v) == [u \in DOMAIN f \cup {t} |-> IF u = t THEN v ELSE f[u]]

(* The floor that was in force when the paint began: all that had been returned. *)
Arg(o, a) == IF o \in {"add", "rem"} THEN X!Label(a) ELSE a
ECall ==
    /\ Ev.e = "call"
    /\ calls' = With([u \in DOMAIN calls |-> [calls[u] EXCEPT !.alone = FALSE]], Ev.t,
                     [c |-> Call(Ev.o, Arg(Ev.o, Ev.a), Ev.tt, bar.ph = "run"), mk |-> Zero,
                      alone |-> DOMAIN calls = {} /\ bar.ph = "run" /\ pict.k # "none" /\ ~cur.err, lossy |-> cur.err])
    /\ begun' = With(begun, Ev.t, flo)
    /\ born' = IF Ev.o = "new" THEN Ev.n ELSE born
    /\ UNCHANGED <<bar, hist, flo, last, lines, pict, alive, newest, sizes, cur, rst, pol, hits, dying, lel>>

EndsClean(c) == (c.o = "fin" \/ c.ender) /\ bar.ph = "ended"
(* How long the bar has been there: of a real run only roughly known. *)
Ages == IF On("real") THEN Ev.lo .. Ev.hi ELSE {Ev.n - born}

ERet ==
    /\ Ev.e = "ret"
    /\ Ev.t \in DOMAIN calls
    /\ LET c == calls[Ev.t].c
       IN /\ c.st = "ret"
          /\ c.o \in {"add", "reset", "msg"} => c.res = Ev.r
          /\ c.o = "sw" => Ev.r \in {c.res, "none"}   \* none: the program did not ask for a policy
          /\ c.o = "sum" => IF On("text") THEN \E age \in Ages : Ev.r = X!Summary(c.a.kind, c.res, c.a.one, c.a.many, age)
                           ELSE Ev.r = c.res
          /\ (c.o = "fmsg" /\ On("text")) => \E age \in Ages : Ev.r = X!Finished(age)
          /\ (On("after") /\ EndsClean(c)) => Ev.blank
          /\ (On("log") /\ c.o = "msg" /\ calls[Ev.t].alone) => ~Ev.blank   \* the bar is back
          /\ (On("cursor") /\ c.o = "fin" /\ bar.ph = "ended") => Ev.vis
          /\ (On("time") /\ c.o = "fin") => Ev.r \in Ages
    /\ flo' = MaxOf(flo, calls[Ev.t].mk)
    /\ calls' = Without(calls, Ev.t)
    /\ begun' = Without(begun, Ev.t)
    /\ UNCHANGED <<bar, hist, last, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

EWake ==
    /\ Ev.e = "wake"
    /\ begun' = With(begun, Ev.t, flo)
    /\ UNCHANGED <<bar, calls, hist, flo, last, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

EOut ==
    /\ Ev.e = "out"
    /\ On("log") => Ev.log = lines
    /\ On("geo") => (Ev.odd = 0 /\ Ev.log = lines /\ (Ev.bars => Ev.col = 0))
    /\ IF Ev.pic = pict \/ Ev.pic.k = "none"
       THEN UNCHANGED <<last, lel>>
       ELSE /\ On("after") => (MayPaint /\ Ev.held)
            /\ On("life") => (Ev.t >= 100 => Ev.t = newest)
            \* A frame painted as the size changes may have been made for the size before.
            /\ IF Ev.pic.k = "bad" \/ (Ev.lost /\ ~On("geo") /\ Cardinality(sizes) > 1)
               THEN ~On("geo") /\ (On("frame") => (Ev.wrap \/ Ev.lost) /\ Cardinality(sizes) > 1) /\ UNCHANGED <<last, lel>>
               ELSE /\ On("geo") => (~Ev.wrap /\ ~Ev.lost /\ Ev.pic.rows <= Max2(1, cur.h))
                    /\ (On("frame") /\ Ev.pic.k = "full") => (Ev.pic.el >= lel /\ Ev.pic.el * 1000 <= Ev.n - born)
                    /\ lel' = IF Ev.pic.k = "full" THEN Ev.pic.el ELSE lel
                    /\ IF On("frame")
                       THEN \E z \in sizes : LET m == FrameOK(Ev.pic, Ev.t, z) IN m.c # 0 /\ last' = m
                       ELSE UNCHANGED last
    /\ pict' = Ev.pic
    /\ UNCHANGED <<bar, calls, hist, flo, begun, lines, alive, newest, sizes, cur, born, rst, pol, hits, dying>>

ESize ==
    /\ Ev.e = "size"
    /\ cur' = [cur EXCEPT !.w = Ev.w, !.h = Ev.h]
    /\ sizes' = sizes \cup {[w |-> Ev.w, h |-> Ev.h]}
    /\ calls' = [u \in DOMAIN calls |-> [calls[u] EXCEPT !.alone = FALSE]]
    /\ UNCHANGED <<bar, hist, flo, last, begun, lines, pict, alive, newest, born, rst, pol, hits, dying, lel>>

(* Writing begins to fail, or works again. *)
EErr ==
    /\ Ev.e = "err"
    /\ cur' = [cur EXCEPT !.err = Ev.on, !.at = Ev.n]
    /\ calls' = [u \in DOMAIN calls |-> [calls[u] EXCEPT !.alone = FALSE, !.lossy = TRUE]]
    /\ UNCHANGED <<bar, hist, flo, last, begun, lines, pict, alive, newest, sizes, born, rst, pol, hits, dying, lel>>
\* Long enough since for the picture to have been painted anew.
Sound(n) == ~cur.err /\ n - cur.at > 1300

ESpawn ==
    /\ Ev.e = "spawn"
    /\ alive' = alive \cup {Ev.t}
    /\ newest' = Ev.t
    /\ UNCHANGED <<bar, calls, hist, flo, last, begun, lines, pict, sizes, cur, born, rst, pol, hits, dying, lel>>

EEnd ==
    /\ Ev.e = "end"
    /\ alive' = alive \ {Ev.t}
    /\ UNCHANGED <<bar, calls, hist, flo, last, begun, lines, pict, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

EInt ==
    /\ Ev.e = "int"
    /\ hits' = hits + 1
    /\ UNCHANGED <<bar, calls, hist, flo, last, begun, lines, pict, alive, newest, sizes, cur, born, rst, pol, dying, lel>>

(* A quiet moment: nothing was called for some ticks. *)
ESnap ==
    /\ Ev.e = "snap"
    /\ calls = << >>
    /\ hits = 0
    /\ ~dying
    /\ On("log") => Ev.log = lines
    /\ On("quiet") =>
        IF bar.ph = "run"
        THEN Sized(cur) /\ Ev.held /\ Sound(Ev.n) =>
             /\ Shown(Ev.pic, cur)
             /\ (Ev.pic.k = "full" /\ Ev.n - rst > 1300) => (Ev.pic.el * 1000 >= Ev.n - born - 1300 \/ Ev.pic.el = 86399)
             /\ (bar.sw => bar.warned)
        ELSE Ev.pic.k = "none"
    /\ (On("sig") /\ bar.ph = "run" /\ bar.sw) =>
        /\ bar.warned
        /\ (Sized(cur) /\ Ev.held /\ cur.at < 0 /\ Ev.pic.k = "full") => Ev.pic.title = TitleText(bar.title, cur)
    /\ On("after") => (bar.ph # "run" => Ev.pic.k = "none")
    /\ On("cursor") => (bar.ph # "run" \/ bar.sw \/ ~Ev.held => Ev.vis)
    /\ On("life") => (IF bar.ph = "run" /\ Ev.held THEN alive = {newest} ELSE alive = {})
    /\ UNCHANGED <<bar, calls, hist, flo, last, begun, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

(* The cursor was hidden by a ticker that had looked before the interrupt: only *)
(* looked at to tell the known finding from anything else.                     *)
Hidden == {i \in 1..Len(Traces[tr].ev) : LET e == Traces[tr].ev[i] IN e.e = "out" /\ e.was /\ ~e.vis}
Late == \E i \in Hidden :
    /\ \A j \in Hidden : j <= i
    /\ Traces[tr].ev[i].t >= 100
    /\ \E j \in 1..i : Traces[tr].ev[j].e = "int"

EOver ==
    /\ Ev.e = "over"
    /\ Ev.r \in {"done", "exit 1", "exit 130"}
    /\ Ev.r = "exit 1" => dying
    /\ Ev.r = "exit 130" => (hits > 0 /\ pol = "none")
    /\ Ev.r = "done" => (~dying /\ hits = 0 /\ calls = << >>)
    /\ On("cursor") => (Ev.vis \/ (On("latehide") /\ Ev.r = "exit 1" /\ Late))
    /\ (On("log") /\ Ev.r = "done") => Ev.log = lines
    /\ On("life") => (Ev.r = "done" => alive = {})
    /\ UNCHANGED <<bar, calls, hist, flo, last, begun, lines, pict, alive, newest, sizes, cur, born, rst, pol, hits, dying, lel>>

Event ==
    /\ ix <= Len(Traces[tr].ev)
    /\ ECall \/ ERet \/ EWake \/ EOut \/ ESize \/ EErr \/ ESpawn \/ EEnd \/ EInt \/ ESnap \/ EOver
    /\ ix' = ix + 1
    /\ tr' = tr
    /\ IF ix' > Len(Traces[tr].ev) THEN PrintT("V " \o ToString(tr)) ELSE TRUE
    /\ IF Data.progress THEN PrintT("P " \o ToString(ix)) ELSE TRUE

Next == ix <= Len(Traces[tr].ev) /\ (Event \/ Silent)
Spec == Init /\ [][Next]_vars
=============================================================================
