----------------------------- MODULE ProglessImpl -----------------------------
(* The progress bar step by step: flags, packed counts, the locks, the ticker  *)
(* threads and the interrupt handler, one atomic access or lock operation per  *)
(* step, as the code has them.  The calls are made by any number of threads in *)
(* any order; the ghost variables record what the properties need.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS
    Users,      \* threads that make calls (numbers below 10)
    Menu,       \* the calls they may make
    Calls,      \* how many calls each makes
    Total,      \* the first total
    Final,      \* what is done when all of them have: "stay", "drop" or "finish"
    Policy,     \* "none" (no interrupt support), "default", "two" or "keep"
    Hits,       \* how many interrupts come
    Resizes     \* how often the terminal's size changes

Main == 10
Handler == 11
Tickers == 20..21
NoOne == 0
NoFrame == [on |-> FALSE, c |-> <<0, 0>>, t |-> 0, k |-> {}, z |-> 0]
Drawable == {"bar", "doing", "done", "title", "total"}
New == Drawable \cup {"ticking"}
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
MaxV(a, b) == [c |-> Most(a.c, b.c), t |-> Most(a.t, b.t), k |-> Most(a.k, b.k)]
(* What a call that has returned has changed for good. *)

(* --algorithm bar {
variables
    flags = New,
    cnt = <<0, Total>>,                 \* done and total, one word
    title = 1, tasks = {},
    size = 1, last_size = 0,
    buf = NoFrame,                      \* the formatted parts
    scr = NoFrame,                      \* the picture on the terminal
    log = << >>,                        \* what was printed
    hidden = FALSE,                     \* the cursor
    err = [own |-> NoOne, dep |-> 0],   \* standard error's lock
    tkm = NoOne, handle = 20,           \* the ticker's mutex and its content
    stm = NoOne, dead = FALSE,          \* the state's mutex and its content
    alive = {20}, spawned = 20,
    sw = FALSE, gone = FALSE,
    \* ghosts
    epoch = 0, resetting = 0,           \* runs begun; resets between end and start
    frozen = FALSE,                     \* an ending call returned in this run
    ver = [c |-> 1, t |-> 1, k |-> 1],  \* how often each component changed
    safe = [c |-> 0, t |-> 0, k |-> 0], \* the changes whose calls have returned
    bver = [c |-> 0, t |-> 0, k |-> 0], \* of the buffer
    shown = [c |-> 0, t |-> 0, k |-> 0],
    begun = [x \in Users \cup Tickers |-> [c |-> 0, t |-> 0, k |-> 0]],
    ender = [x \in Users |-> FALSE],
    ticked = [x \in Users \cup Tickers |-> FALSE],
    pushed = << >>, counted = 0, maybe = 0;

define {
    Running == "ticking" \in flags
    Free(x) == err.own = NoOne \/ err.own = x
}
macro Lock() { await ~gone /\ Free(self); err := [own |-> self, dep |-> err.dep + 1]; }
macro Unlock() { err := [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]; }

procedure stop() {
  s1: Lock();
  s2: await ~gone;
      if (Running) {
          flags := {};
      s3: await ~gone;
          if (cnt[1] # cnt[2]) {
          s4: await ~gone;
              cnt := <<cnt[2], cnt[2]>>; ver.c := ver.c + 1;
          };
      s5: await ~gone;
          tasks := {}; ver.k := ver.k + 1;
      s6: await ~gone;
          scr := NoFrame;
      } else { flags := {}; };
  s7: Unlock();
      return;
}

procedure stop_done() {
  d1: Lock();
  d2: await ~gone;
      if (cnt[1] = cnt[2]) { call stop(); };
  d3: Unlock();
      return;
}

(* Change done: by n, or to n. *)
procedure update(by = TRUE, n = 0)
variables old = <<0, 0>>, to = 0; {
  u1: await ~gone;
      if (~Running) { return; };
  u2: await ~gone;
      old := cnt;
  u3: to := Least(IF by THEN old[1] + n ELSE n, old[2]);
  u3a: if (to = old[1] \/ old[2] = old[1]) { return; };
  u4: await ~gone;
      if (cnt = old) {
          cnt := <<to, old[2]>>; ver.c := ver.c + 1;
          if (to = old[2]) { ender[self] := TRUE; };
      }
      else { old := cnt; goto u3; };
  u5: await ~gone;
      if (to < old[2]) { flags := flags \cup {"done", "bar"}; }
      else { call stop_done(); };
  u6: return;
}

procedure tick(force = FALSE)
variables z = 0, tick_flags = {}, before = FALSE; {
  k0: await ~gone;
      begun[self] := safe;
  k1: await ~gone;
      if (~Running) { ticked[self] := FALSE; return; };
  k2: Lock();
  k3: await ~gone;
      ticked[self] := Running;
      if (~Running) { goto k9; };
  k4: await ~gone;
      z := size;
      if (last_size # z) {
          last_size := z;
      k4a: await ~gone;
          flags := flags \cup {"bar", "doing", "title"};
          goto k9;
      };
  k5: await ~gone;
      tick_flags := flags \cap Drawable;
      flags := flags \ Drawable;
      if (tick_flags = {} /\ ~force) { goto k9; };
  k6: await ~gone;
      if (tick_flags \cap {"done", "total", "bar"} # {}) { buf.c := cnt || buf.z := z; bver.c := ver.c; };
  k7: await ~gone;
      if ("title" \in tick_flags) {
          before := buf.t # 0;
          buf.t := title; bver.t := ver.t;
      };
  k8: await ~gone;
      if ("title" \in tick_flags /\ before # (buf.t # 0)) { tick_flags := tick_flags \cup {"doing"}; };
      if ("doing" \in tick_flags) { buf.k := tasks; bver.k := ver.k; };
  k8a: await ~gone;
      \* A frame shows nothing older than what had been returned, or shown.
      assert bver.c >= begun[self].c /\ bver.t >= begun[self].t /\ bver.k >= begun[self].k;
      assert bver.c >= shown.c /\ bver.t >= shown.t /\ bver.k >= shown.k;
      assert Running \/ err.own = self;
      shown := bver;
      scr := [buf EXCEPT !.on = TRUE];
  k9: Unlock();
      return;
}

procedure join() {
  j1: await ~gone /\ stm = NoOne;
      if (dead) { goto j3; };
  j2: await ~gone /\ stm = NoOne;
      dead := TRUE;
  j3: await ~gone /\ handle \notin alive;
      handle := NoOne;
      return;
}

procedure finish() {
  f1: call stop();
  f2: await ~gone /\ tkm = NoOne;
      tkm := self;
  f3: await ~gone;
      if (~Running /\ handle # NoOne) { call join(); };
  f4: tkm := NoOne;
      return;
}

procedure reset(m = 1) {
  r1: Lock();
  r2: call stop();
  r3: await ~gone;
      resetting := resetting + 1; tasks := {}; ver.k := ver.k + 1;
  r4: await ~gone;
      cnt := <<0, m>>; ver.c := ver.c + 1;
  r5: await ~gone;
      flags := New;
      resetting := resetting - 1; epoch := epoch + 1; frozen := FALSE; counted := 0; maybe := 0;
  r6: Unlock();
  r7: await ~gone /\ tkm = NoOne;
      tkm := self;
      if (handle # NoOne) { call join(); };
  r8: await ~gone /\ stm = NoOne;
      dead := FALSE;
  r9: await ~gone;
      with (i \in {CHOOSE x \in Tickers : x \notin alive}) { spawned := i; handle := i; alive := alive \cup {i}; };
      tkm := NoOne;
      return;
}

procedure push() {
  p1: Lock();
  p2: await ~gone;
      if (Running) {
      p3: await ~gone;
          scr := NoFrame;
      p4: await ~gone;
          assert ~scr.on;
          log := Append(log, self); pushed := Append(pushed, self);
      p5: Unlock();
          call tick(TRUE);
      p6: return;
      };
  p7: await ~gone;
      log := Append(log, self); pushed := Append(pushed, self);
  p8: Unlock();
      return;
}

process (user \in Users)
variables left = Calls, op = "", e0 = 0, saw = FALSE, listed = FALSE; {
  a0: while (left > 0) {
          await ~gone;
          with (o \in Menu) { op := o; };
          left := left - 1;
          e0 := epoch; ender[self] := FALSE; saw := Running /\ resetting = 0;
          if (op \in {"inc", "unlist"}) { maybe := maybe + 1; };
      a1: if (op = "inc") { call update(TRUE, 1); }
          else if (op = "set") { call update(FALSE, 1); }
          else if (op = "fin") { call finish(); }
          else if (op = "reset") { call reset(2); }
          else if (op = "msg") { call push(); }
          else if (op = "title") {
          t1: await ~gone;
              title := self; ver.t := ver.t + 1;
          t2: await ~gone;
              if (Running) {
              t3: await ~gone;
                  flags := flags \cup {"title"};
              };
          } else if (op = "add") {
          l1: await ~gone;
              if (Running) {
              l2: await ~gone;
                  if (self \notin tasks) {
                      tasks := tasks \cup {self}; ver.k := ver.k + 1;
                  l3: await ~gone;
                      flags := flags \cup {"doing"};
                  };
              };
          } else if (op = "rem") {
          m1: await ~gone;
              if (Running) {
              m2: await ~gone;
                  listed := self \in tasks;
                  tasks := tasks \ {self};
                  if (listed) {
                      ver.k := ver.k + 1;
                  m3: await ~gone;
                      flags := flags \cup {"doing"};
                  m4: call update(TRUE, 1);
                  };
              };
          };
      a2: await ~gone;
          \* The call returns.
          if (op = "inc" /\ saw /\ e0 = epoch /\ resetting = 0) { counted := counted + 1; };
          if ((op = "fin" \/ ender[self]) /\ e0 = epoch /\ resetting = 0) {
              assert ~Running /\ cnt[1] = cnt[2] /\ ~scr.on;
              frozen := TRUE;
          };
          \* Whatever this thread changed is settled now; what others change is not.
          safe := IF \A x \in Users \ {self} : pc[x] \in {"a0", "Done"} THEN ver ELSE safe;
      };
}

process (ticker \in Tickers) {
  b0: while (TRUE) {
          await ~gone /\ self \in alive;
          \* The thread begins: the cursor is hidden, unless interrupted.
          if (Policy # "none") {
          b1: await ~gone;
              if (~sw) {
              b2: await ~gone /\ Free(self);
                  hidden := TRUE;
              b3: await ~gone;
                  if (sw) {
                  b4: await ~gone /\ Free(self);
                      hidden := FALSE;
                  };
              };
          };
      b5: await ~gone /\ stm = NoOne;
          stm := self;
      b6: \* Wait for a tick, or to be told.
          await ~gone;
          stm := NoOne;
      b7: await ~gone /\ stm = NoOne;
          stm := self;
      b8: if (~dead) {
              \* An interrupt is shown as the title.
              if (Policy # "none") {
              c1: await ~gone;
                  if (sw) {
                  c2: await ~gone;
                      if (~Running) { goto b9; }
                      else if ("sigint" \notin flags) {
                      c3: await ~gone;
                          title := 9; ver.t := ver.t + 1;
                      c4: await ~gone;
                          flags := flags \cup {"sigint", "title"};
                      };
                  };
              };
          c5: await ~gone;
              call tick(FALSE);
          c6: await ~gone;
              if (ticked[self]) { goto b6; };
          };
      b9: dead := TRUE;
          stm := NoOne;
          if (Policy # "none") {
          b10: await ~gone /\ Free(self);
              hidden := FALSE;
          };
      b11: alive := alive \ {self};
      };
}

process (main = Main) {
  x0: await ~gone /\ \A x \in Users : pc[x] = "Done";
      if (Final = "finish") { call finish(); };
  x1: if (Final # "stay") {
      \* The last handle is dropped.
      x2: await ~gone /\ tkm = NoOne;
          tkm := Main;
          if (handle # NoOne) { call join(); };
      x3: tkm := NoOne;
      };
}

process (handler = Handler)
variables hits = Hits, had = FALSE; {
  h0: while (hits > 0) {
          await ~gone;
          hits := hits - 1;
          had := sw;
          sw := TRUE;
      h1: if (Policy \in {"default", "two"} \/ ~had) { hidden := FALSE; };
      h2: if (Policy = "default" \/ (Policy = "two" /\ had)) { gone := TRUE; };
      };
}

process (resizer = 12)
variables sizes = Resizes; {
  z0: while (sizes > 0) {
          await ~gone;
          sizes := sizes - 1;
          size := 3 - size;
      };
}
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "fc75b282" /\ chksum(tla) = "9334321e")
VARIABLES pc, flags, cnt, title, tasks, size, last_size, buf, scr, log, 
          hidden, err, tkm, handle, stm, dead, alive, spawned, sw, gone, 
          epoch, resetting, frozen, ver, safe, bver, shown, begun, ender, 
          ticked, pushed, counted, maybe, stack

(* define statement *)
Running == "ticking" \in flags
Free(x) == err.own = NoOne \/ err.own = x

VARIABLES by, n, old, to, force, z, tick_flags, before, m, left, op, e0, saw, 
          listed, hits, had, sizes

vars == << pc, flags, cnt, title, tasks, size, last_size, buf, scr, log, 
           hidden, err, tkm, handle, stm, dead, alive, spawned, sw, gone, 
           epoch, resetting, frozen, ver, safe, bver, shown, begun, ender, 
           ticked, pushed, counted, maybe, stack, by, n, old, to, force, z, 
           tick_flags, before, m, left, op, e0, saw, listed, hits, had, sizes
        >>

ProcSet == (Users) \cup (Tickers) \cup {Main} \cup {Handler} \cup {12}

Init == (* Global variables *)
        /\ flags = New
        /\ cnt = <<0, Total>>
        /\ title = 1
        /\ tasks = {}
        /\ size = 1
        /\ last_size = 0
        /\ buf = NoFrame
        /\ scr = NoFrame
        /\ log = << >>
        /\ hidden = FALSE
        /\ err = [own |-> NoOne, dep |-> 0]
        /\ tkm = NoOne
        /\ handle = 20
        /\ stm = NoOne
        /\ dead = FALSE
        /\ alive = {20}
        /\ spawned = 20
        /\ sw = FALSE
        /\ gone = FALSE
        /\ epoch = 0
        /\ resetting = 0
        /\ frozen = FALSE
        /\ ver = [c |-> 1, t |-> 1, k |-> 1]
        /\ safe = [c |-> 0, t |-> 0, k |-> 0]
        /\ bver = [c |-> 0, t |-> 0, k |-> 0]
        /\ shown = [c |-> 0, t |-> 0, k |-> 0]
        /\ begun = [x \in Users \cup Tickers |-> [c |-> 0, t |-> 0, k |-> 0]]
        /\ ender = [x \in Users |-> FALSE]
        /\ ticked = [x \in Users \cup Tickers |-> FALSE]
        /\ pushed = << >>
        /\ counted = 0
        /\ maybe = 0
        (* Procedure update *)
        /\ by = [ self \in ProcSet |-> TRUE]
        /\ n = [ self \in ProcSet |-> 0]
        /\ old = [ self \in ProcSet |-> <<0, 0>>]
        /\ to = [ self \in ProcSet |-> 0]
        (* Procedure tick *)
        /\ force = [ self \in ProcSet |-> FALSE]
        /\ z = [ self \in ProcSet |-> 0]
        /\ tick_flags = [ self \in ProcSet |-> {}]
        /\ before = [ self \in ProcSet |-> FALSE]
        (* Procedure reset *)
        /\ m = [ self \in ProcSet |-> 1]
        (* Process user *)
        /\ left = [self \in Users |-> Calls]
        /\ op = [self \in Users |-> ""]
        /\ e0 = [self \in Users |-> 0]
        /\ saw = [self \in Users |-> FALSE]
        /\ listed = [self \in Users |-> FALSE]
        (* Process handler *)
        /\ hits = Hits
        /\ had = FALSE
        (* Process resizer *)
        /\ sizes = Resizes
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Users -> "a0"
                                        [] self \in Tickers -> "b0"
                                        [] self = Main -> "x0"
                                        [] self = Handler -> "h0"
                                        [] self = 12 -> "z0"]

s1(self) == /\ pc[self] = "s1"
            /\ ~gone /\ Free(self)
            /\ err' = [own |-> self, dep |-> err.dep + 1]
            /\ pc' = [pc EXCEPT ![self] = "s2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

s2(self) == /\ pc[self] = "s2"
            /\ ~gone
            /\ IF Running
                  THEN /\ flags' = {}
                       /\ pc' = [pc EXCEPT ![self] = "s3"]
                  ELSE /\ flags' = {}
                       /\ pc' = [pc EXCEPT ![self] = "s7"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

s3(self) == /\ pc[self] = "s3"
            /\ ~gone
            /\ IF cnt[1] # cnt[2]
                  THEN /\ pc' = [pc EXCEPT ![self] = "s4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "s5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

s4(self) == /\ pc[self] = "s4"
            /\ ~gone
            /\ cnt' = <<cnt[2], cnt[2]>>
            /\ ver' = [ver EXCEPT !.c = ver.c + 1]
            /\ pc' = [pc EXCEPT ![self] = "s5"]
            /\ UNCHANGED << flags, title, tasks, size, last_size, buf, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

s5(self) == /\ pc[self] = "s5"
            /\ ~gone
            /\ tasks' = {}
            /\ ver' = [ver EXCEPT !.k = ver.k + 1]
            /\ pc' = [pc EXCEPT ![self] = "s6"]
            /\ UNCHANGED << flags, cnt, title, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

s6(self) == /\ pc[self] = "s6"
            /\ ~gone
            /\ scr' = NoFrame
            /\ pc' = [pc EXCEPT ![self] = "s7"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

s7(self) == /\ pc[self] = "s7"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

stop(self) == s1(self) \/ s2(self) \/ s3(self) \/ s4(self) \/ s5(self)
                 \/ s6(self) \/ s7(self)

d1(self) == /\ pc[self] = "d1"
            /\ ~gone /\ Free(self)
            /\ err' = [own |-> self, dep |-> err.dep + 1]
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

d2(self) == /\ pc[self] = "d2"
            /\ ~gone
            /\ IF cnt[1] = cnt[2]
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "stop",
                                                                pc        |->  "d3" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "s1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d3"]
                       /\ stack' = stack
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

d3(self) == /\ pc[self] = "d3"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

stop_done(self) == d1(self) \/ d2(self) \/ d3(self)

u1(self) == /\ pc[self] = "u1"
            /\ ~gone
            /\ IF ~Running
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                       /\ to' = [to EXCEPT ![self] = Head(stack[self]).to]
                       /\ by' = [by EXCEPT ![self] = Head(stack[self]).by]
                       /\ n' = [n EXCEPT ![self] = Head(stack[self]).n]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "u2"]
                       /\ UNCHANGED << stack, by, n, old, to >>
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

u2(self) == /\ pc[self] = "u2"
            /\ ~gone
            /\ old' = [old EXCEPT ![self] = cnt]
            /\ pc' = [pc EXCEPT ![self] = "u3"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

u3(self) == /\ pc[self] = "u3"
            /\ to' = [to EXCEPT ![self] = Least(IF by[self] THEN old[self][1] + n[self] ELSE n[self], old[self][2])]
            /\ pc' = [pc EXCEPT ![self] = "u3a"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, force, 
                            z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

u3a(self) == /\ pc[self] = "u3a"
             /\ IF to[self] = old[self][1] \/ old[self][2] = old[self][1]
                   THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                        /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                        /\ to' = [to EXCEPT ![self] = Head(stack[self]).to]
                        /\ by' = [by EXCEPT ![self] = Head(stack[self]).by]
                        /\ n' = [n EXCEPT ![self] = Head(stack[self]).n]
                        /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "u4"]
                        /\ UNCHANGED << stack, by, n, old, to >>
             /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                             scr, log, hidden, err, tkm, handle, stm, dead, 
                             alive, spawned, sw, gone, epoch, resetting, 
                             frozen, ver, safe, bver, shown, begun, ender, 
                             ticked, pushed, counted, maybe, force, z, 
                             tick_flags, before, m, left, op, e0, saw, listed, 
                             hits, had, sizes >>

u4(self) == /\ pc[self] = "u4"
            /\ ~gone
            /\ IF cnt = old[self]
                  THEN /\ cnt' = <<to[self], old[self][2]>>
                       /\ ver' = [ver EXCEPT !.c = ver.c + 1]
                       /\ IF to[self] = old[self][2]
                             THEN /\ ender' = [ender EXCEPT ![self] = TRUE]
                             ELSE /\ TRUE
                                  /\ ender' = ender
                       /\ pc' = [pc EXCEPT ![self] = "u5"]
                       /\ old' = old
                  ELSE /\ old' = [old EXCEPT ![self] = cnt]
                       /\ pc' = [pc EXCEPT ![self] = "u3"]
                       /\ UNCHANGED << cnt, ver, ender >>
            /\ UNCHANGED << flags, title, tasks, size, last_size, buf, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ticked, pushed, counted, maybe, 
                            stack, by, n, to, force, z, tick_flags, before, m, 
                            left, op, e0, saw, listed, hits, had, sizes >>

u5(self) == /\ pc[self] = "u5"
            /\ ~gone
            /\ IF to[self] < old[self][2]
                  THEN /\ flags' = (flags \cup {"done", "bar"})
                       /\ pc' = [pc EXCEPT ![self] = "u6"]
                       /\ stack' = stack
                  ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "stop_done",
                                                                pc        |->  "u6" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "d1"]
                       /\ flags' = flags
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

u6(self) == /\ pc[self] = "u6"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
            /\ to' = [to EXCEPT ![self] = Head(stack[self]).to]
            /\ by' = [by EXCEPT ![self] = Head(stack[self]).by]
            /\ n' = [n EXCEPT ![self] = Head(stack[self]).n]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

update(self) == u1(self) \/ u2(self) \/ u3(self) \/ u3a(self) \/ u4(self)
                   \/ u5(self) \/ u6(self)

k0(self) == /\ pc[self] = "k0"
            /\ ~gone
            /\ begun' = [begun EXCEPT ![self] = safe]
            /\ pc' = [pc EXCEPT ![self] = "k1"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

k1(self) == /\ pc[self] = "k1"
            /\ ~gone
            /\ IF ~Running
                  THEN /\ ticked' = [ticked EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ z' = [z EXCEPT ![self] = Head(stack[self]).z]
                       /\ tick_flags' = [tick_flags EXCEPT ![self] = Head(stack[self]).tick_flags]
                       /\ before' = [before EXCEPT ![self] = Head(stack[self]).before]
                       /\ force' = [force EXCEPT ![self] = Head(stack[self]).force]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k2"]
                       /\ UNCHANGED << ticked, stack, force, z, tick_flags, 
                                       before >>
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, pushed, 
                            counted, maybe, by, n, old, to, m, left, op, e0, 
                            saw, listed, hits, had, sizes >>

k2(self) == /\ pc[self] = "k2"
            /\ ~gone /\ Free(self)
            /\ err' = [own |-> self, dep |-> err.dep + 1]
            /\ pc' = [pc EXCEPT ![self] = "k3"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

k3(self) == /\ pc[self] = "k3"
            /\ ~gone
            /\ ticked' = [ticked EXCEPT ![self] = Running]
            /\ IF ~Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "k9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k4"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

k4(self) == /\ pc[self] = "k4"
            /\ ~gone
            /\ z' = [z EXCEPT ![self] = size]
            /\ IF last_size # z'[self]
                  THEN /\ last_size' = z'[self]
                       /\ pc' = [pc EXCEPT ![self] = "k4a"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k5"]
                       /\ UNCHANGED last_size
            /\ UNCHANGED << flags, cnt, title, tasks, size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

k4a(self) == /\ pc[self] = "k4a"
             /\ ~gone
             /\ flags' = (flags \cup {"bar", "doing", "title"})
             /\ pc' = [pc EXCEPT ![self] = "k9"]
             /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                             hidden, err, tkm, handle, stm, dead, alive, 
                             spawned, sw, gone, epoch, resetting, frozen, ver, 
                             safe, bver, shown, begun, ender, ticked, pushed, 
                             counted, maybe, stack, by, n, old, to, force, z, 
                             tick_flags, before, m, left, op, e0, saw, listed, 
                             hits, had, sizes >>

k5(self) == /\ pc[self] = "k5"
            /\ ~gone
            /\ tick_flags' = [tick_flags EXCEPT ![self] = flags \cap Drawable]
            /\ flags' = flags \ Drawable
            /\ IF tick_flags'[self] = {} /\ ~force[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "k9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k6"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

k6(self) == /\ pc[self] = "k6"
            /\ ~gone
            /\ IF tick_flags[self] \cap {"done", "total", "bar"} # {}
                  THEN /\ buf' = [buf EXCEPT !.c = cnt,
                                             !.z = z[self]]
                       /\ bver' = [bver EXCEPT !.c = ver.c]
                  ELSE /\ TRUE
                       /\ UNCHANGED << buf, bver >>
            /\ pc' = [pc EXCEPT ![self] = "k7"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

k7(self) == /\ pc[self] = "k7"
            /\ ~gone
            /\ IF "title" \in tick_flags[self]
                  THEN /\ before' = [before EXCEPT ![self] = buf.t # 0]
                       /\ buf' = [buf EXCEPT !.t = title]
                       /\ bver' = [bver EXCEPT !.t = ver.t]
                  ELSE /\ TRUE
                       /\ UNCHANGED << buf, bver, before >>
            /\ pc' = [pc EXCEPT ![self] = "k8"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            m, left, op, e0, saw, listed, hits, had, sizes >>

k8(self) == /\ pc[self] = "k8"
            /\ ~gone
            /\ IF "title" \in tick_flags[self] /\ before[self] # (buf.t # 0)
                  THEN /\ tick_flags' = [tick_flags EXCEPT ![self] = tick_flags[self] \cup {"doing"}]
                  ELSE /\ TRUE
                       /\ UNCHANGED tick_flags
            /\ IF "doing" \in tick_flags'[self]
                  THEN /\ buf' = [buf EXCEPT !.k = tasks]
                       /\ bver' = [bver EXCEPT !.k = ver.k]
                  ELSE /\ TRUE
                       /\ UNCHANGED << buf, bver >>
            /\ pc' = [pc EXCEPT ![self] = "k8a"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, before, m, 
                            left, op, e0, saw, listed, hits, had, sizes >>

k8a(self) == /\ pc[self] = "k8a"
             /\ ~gone
             /\ Assert(bver.c >= begun[self].c /\ bver.t >= begun[self].t /\ bver.k >= begun[self].k, 
                       "Failure of assertion at line 145, column 7.")
             /\ Assert(bver.c >= shown.c /\ bver.t >= shown.t /\ bver.k >= shown.k, 
                       "Failure of assertion at line 146, column 7.")
             /\ Assert(Running \/ err.own = self, 
                       "Failure of assertion at line 147, column 7.")
             /\ shown' = bver
             /\ scr' = [buf EXCEPT !.on = TRUE]
             /\ pc' = [pc EXCEPT ![self] = "k9"]
             /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                             log, hidden, err, tkm, handle, stm, dead, alive, 
                             spawned, sw, gone, epoch, resetting, frozen, ver, 
                             safe, bver, begun, ender, ticked, pushed, counted, 
                             maybe, stack, by, n, old, to, force, z, 
                             tick_flags, before, m, left, op, e0, saw, listed, 
                             hits, had, sizes >>

k9(self) == /\ pc[self] = "k9"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ z' = [z EXCEPT ![self] = Head(stack[self]).z]
            /\ tick_flags' = [tick_flags EXCEPT ![self] = Head(stack[self]).tick_flags]
            /\ before' = [before EXCEPT ![self] = Head(stack[self]).before]
            /\ force' = [force EXCEPT ![self] = Head(stack[self]).force]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, m, left, op, e0, 
                            saw, listed, hits, had, sizes >>

tick(self) == k0(self) \/ k1(self) \/ k2(self) \/ k3(self) \/ k4(self)
                 \/ k4a(self) \/ k5(self) \/ k6(self) \/ k7(self)
                 \/ k8(self) \/ k8a(self) \/ k9(self)

j1(self) == /\ pc[self] = "j1"
            /\ ~gone /\ stm = NoOne
            /\ IF dead
                  THEN /\ pc' = [pc EXCEPT ![self] = "j3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "j2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

j2(self) == /\ pc[self] = "j2"
            /\ ~gone /\ stm = NoOne
            /\ dead' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "j3"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

j3(self) == /\ pc[self] = "j3"
            /\ ~gone /\ handle \notin alive
            /\ handle' = NoOne
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

join(self) == j1(self) \/ j2(self) \/ j3(self)

f1(self) == /\ pc[self] = "f1"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "stop",
                                                     pc        |->  "f2" ] >>
                                                 \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "s1"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

f2(self) == /\ pc[self] = "f2"
            /\ ~gone /\ tkm = NoOne
            /\ tkm' = self
            /\ pc' = [pc EXCEPT ![self] = "f3"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

f3(self) == /\ pc[self] = "f3"
            /\ ~gone
            /\ IF ~Running /\ handle # NoOne
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "join",
                                                                pc        |->  "f4" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "j1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "f4"]
                       /\ stack' = stack
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

f4(self) == /\ pc[self] = "f4"
            /\ tkm' = NoOne
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

finish(self) == f1(self) \/ f2(self) \/ f3(self) \/ f4(self)

r1(self) == /\ pc[self] = "r1"
            /\ ~gone /\ Free(self)
            /\ err' = [own |-> self, dep |-> err.dep + 1]
            /\ pc' = [pc EXCEPT ![self] = "r2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

r2(self) == /\ pc[self] = "r2"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "stop",
                                                     pc        |->  "r3" ] >>
                                                 \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "s1"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

r3(self) == /\ pc[self] = "r3"
            /\ ~gone
            /\ resetting' = resetting + 1
            /\ tasks' = {}
            /\ ver' = [ver EXCEPT !.k = ver.k + 1]
            /\ pc' = [pc EXCEPT ![self] = "r4"]
            /\ UNCHANGED << flags, cnt, title, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, frozen, safe, bver, 
                            shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

r4(self) == /\ pc[self] = "r4"
            /\ ~gone
            /\ cnt' = <<0, m[self]>>
            /\ ver' = [ver EXCEPT !.c = ver.c + 1]
            /\ pc' = [pc EXCEPT ![self] = "r5"]
            /\ UNCHANGED << flags, title, tasks, size, last_size, buf, scr, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

r5(self) == /\ pc[self] = "r5"
            /\ ~gone
            /\ flags' = New
            /\ resetting' = resetting - 1
            /\ epoch' = epoch + 1
            /\ frozen' = FALSE
            /\ counted' = 0
            /\ maybe' = 0
            /\ pc' = [pc EXCEPT ![self] = "r6"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, ver, safe, bver, shown, begun, 
                            ender, ticked, pushed, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

r6(self) == /\ pc[self] = "r6"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ pc' = [pc EXCEPT ![self] = "r7"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

r7(self) == /\ pc[self] = "r7"
            /\ ~gone /\ tkm = NoOne
            /\ tkm' = self
            /\ IF handle # NoOne
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "join",
                                                                pc        |->  "r8" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "j1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "r8"]
                       /\ stack' = stack
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

r8(self) == /\ pc[self] = "r8"
            /\ ~gone /\ stm = NoOne
            /\ dead' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "r9"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

r9(self) == /\ pc[self] = "r9"
            /\ ~gone
            /\ \E i \in {CHOOSE x \in Tickers : x \notin alive}:
                 /\ spawned' = i
                 /\ handle' = i
                 /\ alive' = (alive \cup {i})
            /\ tkm' = NoOne
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ m' = [m EXCEPT ![self] = Head(stack[self]).m]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, stm, dead, sw, gone, epoch, 
                            resetting, frozen, ver, safe, bver, shown, begun, 
                            ender, ticked, pushed, counted, maybe, by, n, old, 
                            to, force, z, tick_flags, before, left, op, e0, 
                            saw, listed, hits, had, sizes >>

reset(self) == r1(self) \/ r2(self) \/ r3(self) \/ r4(self) \/ r5(self)
                  \/ r6(self) \/ r7(self) \/ r8(self) \/ r9(self)

p1(self) == /\ pc[self] = "p1"
            /\ ~gone /\ Free(self)
            /\ err' = [own |-> self, dep |-> err.dep + 1]
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

p2(self) == /\ pc[self] = "p2"
            /\ ~gone
            /\ IF Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "p3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p7"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

p3(self) == /\ pc[self] = "p3"
            /\ ~gone
            /\ scr' = NoFrame
            /\ pc' = [pc EXCEPT ![self] = "p4"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            log, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

p4(self) == /\ pc[self] = "p4"
            /\ ~gone
            /\ Assert(~scr.on, 
                      "Failure of assertion at line 203, column 11.")
            /\ log' = Append(log, self)
            /\ pushed' = Append(pushed, self)
            /\ pc' = [pc EXCEPT ![self] = "p5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

p5(self) == /\ pc[self] = "p5"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ /\ force' = [force EXCEPT ![self] = TRUE]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "tick",
                                                        pc        |->  "p6",
                                                        z         |->  z[self],
                                                        tick_flags |->  tick_flags[self],
                                                        before    |->  before[self],
                                                        force     |->  force[self] ] >>
                                                    \o stack[self]]
            /\ z' = [z EXCEPT ![self] = 0]
            /\ tick_flags' = [tick_flags EXCEPT ![self] = {}]
            /\ before' = [before EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "k0"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, m, left, op, e0, 
                            saw, listed, hits, had, sizes >>

p6(self) == /\ pc[self] = "p6"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

p7(self) == /\ pc[self] = "p7"
            /\ ~gone
            /\ log' = Append(log, self)
            /\ pushed' = Append(pushed, self)
            /\ pc' = [pc EXCEPT ![self] = "p8"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

p8(self) == /\ pc[self] = "p8"
            /\ err' = [own |-> IF err.dep = 1 THEN NoOne ELSE self, dep |-> err.dep - 1]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

push(self) == p1(self) \/ p2(self) \/ p3(self) \/ p4(self) \/ p5(self)
                 \/ p6(self) \/ p7(self) \/ p8(self)

a0(self) == /\ pc[self] = "a0"
            /\ IF left[self] > 0
                  THEN /\ ~gone
                       /\ \E o \in Menu:
                            op' = [op EXCEPT ![self] = o]
                       /\ left' = [left EXCEPT ![self] = left[self] - 1]
                       /\ e0' = [e0 EXCEPT ![self] = epoch]
                       /\ ender' = [ender EXCEPT ![self] = FALSE]
                       /\ saw' = [saw EXCEPT ![self] = Running /\ resetting = 0]
                       /\ IF op'[self] \in {"inc", "unlist"}
                             THEN /\ maybe' = maybe + 1
                             ELSE /\ TRUE
                                  /\ maybe' = maybe
                       /\ pc' = [pc EXCEPT ![self] = "a1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << ender, maybe, left, op, e0, saw >>
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ticked, pushed, 
                            counted, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, listed, hits, had, sizes >>

a1(self) == /\ pc[self] = "a1"
            /\ IF op[self] = "inc"
                  THEN /\ /\ by' = [by EXCEPT ![self] = TRUE]
                          /\ n' = [n EXCEPT ![self] = 1]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "update",
                                                                   pc        |->  "a2",
                                                                   old       |->  old[self],
                                                                   to        |->  to[self],
                                                                   by        |->  by[self],
                                                                   n         |->  n[self] ] >>
                                                               \o stack[self]]
                       /\ old' = [old EXCEPT ![self] = <<0, 0>>]
                       /\ to' = [to EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "u1"]
                       /\ m' = m
                  ELSE /\ IF op[self] = "set"
                             THEN /\ /\ by' = [by EXCEPT ![self] = FALSE]
                                     /\ n' = [n EXCEPT ![self] = 1]
                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "update",
                                                                              pc        |->  "a2",
                                                                              old       |->  old[self],
                                                                              to        |->  to[self],
                                                                              by        |->  by[self],
                                                                              n         |->  n[self] ] >>
                                                                          \o stack[self]]
                                  /\ old' = [old EXCEPT ![self] = <<0, 0>>]
                                  /\ to' = [to EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "u1"]
                                  /\ m' = m
                             ELSE /\ IF op[self] = "fin"
                                        THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finish",
                                                                                      pc        |->  "a2" ] >>
                                                                                  \o stack[self]]
                                             /\ pc' = [pc EXCEPT ![self] = "f1"]
                                             /\ m' = m
                                        ELSE /\ IF op[self] = "reset"
                                                   THEN /\ /\ m' = [m EXCEPT ![self] = 2]
                                                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "reset",
                                                                                                    pc        |->  "a2",
                                                                                                    m         |->  m[self] ] >>
                                                                                                \o stack[self]]
                                                        /\ pc' = [pc EXCEPT ![self] = "r1"]
                                                   ELSE /\ IF op[self] = "msg"
                                                              THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                                                            pc        |->  "a2" ] >>
                                                                                                        \o stack[self]]
                                                                   /\ pc' = [pc EXCEPT ![self] = "p1"]
                                                              ELSE /\ IF op[self] = "title"
                                                                         THEN /\ pc' = [pc EXCEPT ![self] = "t1"]
                                                                         ELSE /\ IF op[self] = "add"
                                                                                    THEN /\ pc' = [pc EXCEPT ![self] = "l1"]
                                                                                    ELSE /\ IF op[self] = "rem"
                                                                                               THEN /\ pc' = [pc EXCEPT ![self] = "m1"]
                                                                                               ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
                                                                   /\ stack' = stack
                                                        /\ m' = m
                                  /\ UNCHANGED << by, n, old, to >>
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, force, z, tick_flags, 
                            before, left, op, e0, saw, listed, hits, had, 
                            sizes >>

t1(self) == /\ pc[self] = "t1"
            /\ ~gone
            /\ title' = self
            /\ ver' = [ver EXCEPT !.t = ver.t + 1]
            /\ pc' = [pc EXCEPT ![self] = "t2"]
            /\ UNCHANGED << flags, cnt, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

t2(self) == /\ pc[self] = "t2"
            /\ ~gone
            /\ IF Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "t3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

t3(self) == /\ pc[self] = "t3"
            /\ ~gone
            /\ flags' = (flags \cup {"title"})
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

l1(self) == /\ pc[self] = "l1"
            /\ ~gone
            /\ IF Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "l2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

l2(self) == /\ pc[self] = "l2"
            /\ ~gone
            /\ IF self \notin tasks
                  THEN /\ tasks' = (tasks \cup {self})
                       /\ ver' = [ver EXCEPT !.k = ver.k + 1]
                       /\ pc' = [pc EXCEPT ![self] = "l3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
                       /\ UNCHANGED << tasks, ver >>
            /\ UNCHANGED << flags, cnt, title, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

l3(self) == /\ pc[self] = "l3"
            /\ ~gone
            /\ flags' = (flags \cup {"doing"})
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

m1(self) == /\ pc[self] = "m1"
            /\ ~gone
            /\ IF Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "m2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

m2(self) == /\ pc[self] = "m2"
            /\ ~gone
            /\ listed' = [listed EXCEPT ![self] = self \in tasks]
            /\ tasks' = tasks \ {self}
            /\ IF listed'[self]
                  THEN /\ ver' = [ver EXCEPT !.k = ver.k + 1]
                       /\ pc' = [pc EXCEPT ![self] = "m3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
                       /\ ver' = ver
            /\ UNCHANGED << flags, cnt, title, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, hits, had, sizes >>

m3(self) == /\ pc[self] = "m3"
            /\ ~gone
            /\ flags' = (flags \cup {"doing"})
            /\ pc' = [pc EXCEPT ![self] = "m4"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

m4(self) == /\ pc[self] = "m4"
            /\ /\ by' = [by EXCEPT ![self] = TRUE]
               /\ n' = [n EXCEPT ![self] = 1]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "update",
                                                        pc        |->  "a2",
                                                        old       |->  old[self],
                                                        to        |->  to[self],
                                                        by        |->  by[self],
                                                        n         |->  n[self] ] >>
                                                    \o stack[self]]
            /\ old' = [old EXCEPT ![self] = <<0, 0>>]
            /\ to' = [to EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

a2(self) == /\ pc[self] = "a2"
            /\ ~gone
            /\ IF op[self] = "inc" /\ saw[self] /\ e0[self] = epoch /\ resetting = 0
                  THEN /\ counted' = counted + 1
                  ELSE /\ TRUE
                       /\ UNCHANGED counted
            /\ IF (op[self] = "fin" \/ ender[self]) /\ e0[self] = epoch /\ resetting = 0
                  THEN /\ Assert(~Running /\ cnt[1] = cnt[2] /\ ~scr.on, 
                                 "Failure of assertion at line 264, column 15.")
                       /\ frozen' = TRUE
                  ELSE /\ TRUE
                       /\ UNCHANGED frozen
            /\ safe' = (IF \A x \in Users \ {self} : pc[x] \in {"a0", "Done"} THEN ver ELSE safe)
            /\ pc' = [pc EXCEPT ![self] = "a0"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, ver, 
                            bver, shown, begun, ender, ticked, pushed, maybe, 
                            stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

user(self) == a0(self) \/ a1(self) \/ t1(self) \/ t2(self) \/ t3(self)
                 \/ l1(self) \/ l2(self) \/ l3(self) \/ m1(self)
                 \/ m2(self) \/ m3(self) \/ m4(self) \/ a2(self)

b0(self) == /\ pc[self] = "b0"
            /\ ~gone /\ self \in alive
            /\ IF Policy # "none"
                  THEN /\ pc' = [pc EXCEPT ![self] = "b1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

b5(self) == /\ pc[self] = "b5"
            /\ ~gone /\ stm = NoOne
            /\ stm' = self
            /\ pc' = [pc EXCEPT ![self] = "b6"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

b6(self) == /\ pc[self] = "b6"
            /\ ~gone
            /\ stm' = NoOne
            /\ pc' = [pc EXCEPT ![self] = "b7"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

b7(self) == /\ pc[self] = "b7"
            /\ ~gone /\ stm = NoOne
            /\ stm' = self
            /\ pc' = [pc EXCEPT ![self] = "b8"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

b8(self) == /\ pc[self] = "b8"
            /\ IF ~dead
                  THEN /\ IF Policy # "none"
                             THEN /\ pc' = [pc EXCEPT ![self] = "c1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "c5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b9"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

c5(self) == /\ pc[self] = "c5"
            /\ ~gone
            /\ /\ force' = [force EXCEPT ![self] = FALSE]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "tick",
                                                        pc        |->  "c6",
                                                        z         |->  z[self],
                                                        tick_flags |->  tick_flags[self],
                                                        before    |->  before[self],
                                                        force     |->  force[self] ] >>
                                                    \o stack[self]]
            /\ z' = [z EXCEPT ![self] = 0]
            /\ tick_flags' = [tick_flags EXCEPT ![self] = {}]
            /\ before' = [before EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "k0"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, by, n, old, to, m, left, 
                            op, e0, saw, listed, hits, had, sizes >>

c6(self) == /\ pc[self] = "c6"
            /\ ~gone
            /\ IF ticked[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "b6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b9"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

c1(self) == /\ pc[self] = "c1"
            /\ ~gone
            /\ IF sw
                  THEN /\ pc' = [pc EXCEPT ![self] = "c2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

c2(self) == /\ pc[self] = "c2"
            /\ ~gone
            /\ IF ~Running
                  THEN /\ pc' = [pc EXCEPT ![self] = "b9"]
                  ELSE /\ IF "sigint" \notin flags
                             THEN /\ pc' = [pc EXCEPT ![self] = "c3"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "c5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

c3(self) == /\ pc[self] = "c3"
            /\ ~gone
            /\ title' = 9
            /\ ver' = [ver EXCEPT !.t = ver.t + 1]
            /\ pc' = [pc EXCEPT ![self] = "c4"]
            /\ UNCHANGED << flags, cnt, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

c4(self) == /\ pc[self] = "c4"
            /\ ~gone
            /\ flags' = (flags \cup {"sigint", "title"})
            /\ pc' = [pc EXCEPT ![self] = "c5"]
            /\ UNCHANGED << cnt, title, tasks, size, last_size, buf, scr, log, 
                            hidden, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

b9(self) == /\ pc[self] = "b9"
            /\ dead' = TRUE
            /\ stm' = NoOne
            /\ IF Policy # "none"
                  THEN /\ pc' = [pc EXCEPT ![self] = "b10"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b11"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, alive, spawned, 
                            sw, gone, epoch, resetting, frozen, ver, safe, 
                            bver, shown, begun, ender, ticked, pushed, counted, 
                            maybe, stack, by, n, old, to, force, z, tick_flags, 
                            before, m, left, op, e0, saw, listed, hits, had, 
                            sizes >>

b10(self) == /\ pc[self] = "b10"
             /\ ~gone /\ Free(self)
             /\ hidden' = FALSE
             /\ pc' = [pc EXCEPT ![self] = "b11"]
             /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                             scr, log, err, tkm, handle, stm, dead, alive, 
                             spawned, sw, gone, epoch, resetting, frozen, ver, 
                             safe, bver, shown, begun, ender, ticked, pushed, 
                             counted, maybe, stack, by, n, old, to, force, z, 
                             tick_flags, before, m, left, op, e0, saw, listed, 
                             hits, had, sizes >>

b11(self) == /\ pc[self] = "b11"
             /\ alive' = alive \ {self}
             /\ pc' = [pc EXCEPT ![self] = "b0"]
             /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                             scr, log, hidden, err, tkm, handle, stm, dead, 
                             spawned, sw, gone, epoch, resetting, frozen, ver, 
                             safe, bver, shown, begun, ender, ticked, pushed, 
                             counted, maybe, stack, by, n, old, to, force, z, 
                             tick_flags, before, m, left, op, e0, saw, listed, 
                             hits, had, sizes >>

b1(self) == /\ pc[self] = "b1"
            /\ ~gone
            /\ IF ~sw
                  THEN /\ pc' = [pc EXCEPT ![self] = "b2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

b2(self) == /\ pc[self] = "b2"
            /\ ~gone /\ Free(self)
            /\ hidden' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "b3"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

b3(self) == /\ pc[self] = "b3"
            /\ ~gone
            /\ IF sw
                  THEN /\ pc' = [pc EXCEPT ![self] = "b4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, hidden, err, tkm, handle, stm, dead, 
                            alive, spawned, sw, gone, epoch, resetting, frozen, 
                            ver, safe, bver, shown, begun, ender, ticked, 
                            pushed, counted, maybe, stack, by, n, old, to, 
                            force, z, tick_flags, before, m, left, op, e0, saw, 
                            listed, hits, had, sizes >>

b4(self) == /\ pc[self] = "b4"
            /\ ~gone /\ Free(self)
            /\ hidden' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "b5"]
            /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, 
                            scr, log, err, tkm, handle, stm, dead, alive, 
                            spawned, sw, gone, epoch, resetting, frozen, ver, 
                            safe, bver, shown, begun, ender, ticked, pushed, 
                            counted, maybe, stack, by, n, old, to, force, z, 
                            tick_flags, before, m, left, op, e0, saw, listed, 
                            hits, had, sizes >>

ticker(self) == b0(self) \/ b5(self) \/ b6(self) \/ b7(self) \/ b8(self)
                   \/ c5(self) \/ c6(self) \/ c1(self) \/ c2(self)
                   \/ c3(self) \/ c4(self) \/ b9(self) \/ b10(self)
                   \/ b11(self) \/ b1(self) \/ b2(self) \/ b3(self)
                   \/ b4(self)

x0 == /\ pc[Main] = "x0"
      /\ ~gone /\ \A x \in Users : pc[x] = "Done"
      /\ IF Final = "finish"
            THEN /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "finish",
                                                          pc        |->  "x1" ] >>
                                                      \o stack[Main]]
                 /\ pc' = [pc EXCEPT ![Main] = "f1"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "x1"]
                 /\ stack' = stack
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, tkm, handle, stm, dead, alive, spawned, sw, 
                      gone, epoch, resetting, frozen, ver, safe, bver, shown, 
                      begun, ender, ticked, pushed, counted, maybe, by, n, old, 
                      to, force, z, tick_flags, before, m, left, op, e0, saw, 
                      listed, hits, had, sizes >>

x1 == /\ pc[Main] = "x1"
      /\ IF Final # "stay"
            THEN /\ pc' = [pc EXCEPT ![Main] = "x2"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "Done"]
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, tkm, handle, stm, dead, alive, spawned, sw, 
                      gone, epoch, resetting, frozen, ver, safe, bver, shown, 
                      begun, ender, ticked, pushed, counted, maybe, stack, by, 
                      n, old, to, force, z, tick_flags, before, m, left, op, 
                      e0, saw, listed, hits, had, sizes >>

x2 == /\ pc[Main] = "x2"
      /\ ~gone /\ tkm = NoOne
      /\ tkm' = Main
      /\ IF handle # NoOne
            THEN /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "join",
                                                          pc        |->  "x3" ] >>
                                                      \o stack[Main]]
                 /\ pc' = [pc EXCEPT ![Main] = "j1"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "x3"]
                 /\ stack' = stack
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, handle, stm, dead, alive, spawned, sw, gone, 
                      epoch, resetting, frozen, ver, safe, bver, shown, begun, 
                      ender, ticked, pushed, counted, maybe, by, n, old, to, 
                      force, z, tick_flags, before, m, left, op, e0, saw, 
                      listed, hits, had, sizes >>

x3 == /\ pc[Main] = "x3"
      /\ tkm' = NoOne
      /\ pc' = [pc EXCEPT ![Main] = "Done"]
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, handle, stm, dead, alive, spawned, sw, gone, 
                      epoch, resetting, frozen, ver, safe, bver, shown, begun, 
                      ender, ticked, pushed, counted, maybe, stack, by, n, old, 
                      to, force, z, tick_flags, before, m, left, op, e0, saw, 
                      listed, hits, had, sizes >>

main == x0 \/ x1 \/ x2 \/ x3

h0 == /\ pc[Handler] = "h0"
      /\ IF hits > 0
            THEN /\ ~gone
                 /\ hits' = hits - 1
                 /\ had' = sw
                 /\ sw' = TRUE
                 /\ pc' = [pc EXCEPT ![Handler] = "h1"]
            ELSE /\ pc' = [pc EXCEPT ![Handler] = "Done"]
                 /\ UNCHANGED << sw, hits, had >>
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, tkm, handle, stm, dead, alive, spawned, 
                      gone, epoch, resetting, frozen, ver, safe, bver, shown, 
                      begun, ender, ticked, pushed, counted, maybe, stack, by, 
                      n, old, to, force, z, tick_flags, before, m, left, op, 
                      e0, saw, listed, sizes >>

h1 == /\ pc[Handler] = "h1"
      /\ IF Policy \in {"default", "two"} \/ ~had
            THEN /\ hidden' = FALSE
            ELSE /\ TRUE
                 /\ UNCHANGED hidden
      /\ pc' = [pc EXCEPT ![Handler] = "h2"]
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      err, tkm, handle, stm, dead, alive, spawned, sw, gone, 
                      epoch, resetting, frozen, ver, safe, bver, shown, begun, 
                      ender, ticked, pushed, counted, maybe, stack, by, n, old, 
                      to, force, z, tick_flags, before, m, left, op, e0, saw, 
                      listed, hits, had, sizes >>

h2 == /\ pc[Handler] = "h2"
      /\ IF Policy = "default" \/ (Policy = "two" /\ had)
            THEN /\ gone' = TRUE
            ELSE /\ TRUE
                 /\ gone' = gone
      /\ pc' = [pc EXCEPT ![Handler] = "h0"]
      /\ UNCHANGED << flags, cnt, title, tasks, size, last_size, buf, scr, log, 
                      hidden, err, tkm, handle, stm, dead, alive, spawned, sw, 
                      epoch, resetting, frozen, ver, safe, bver, shown, begun, 
                      ender, ticked, pushed, counted, maybe, stack, by, n, old, 
                      to, force, z, tick_flags, before, m, left, op, e0, saw, 
                      listed, hits, had, sizes >>

handler == h0 \/ h1 \/ h2

z0 == /\ pc[12] = "z0"
      /\ IF sizes > 0
            THEN /\ ~gone
                 /\ sizes' = sizes - 1
                 /\ size' = 3 - size
                 /\ pc' = [pc EXCEPT ![12] = "z0"]
            ELSE /\ pc' = [pc EXCEPT ![12] = "Done"]
                 /\ UNCHANGED << size, sizes >>
      /\ UNCHANGED << flags, cnt, title, tasks, last_size, buf, scr, log, 
                      hidden, err, tkm, handle, stm, dead, alive, spawned, sw, 
                      gone, epoch, resetting, frozen, ver, safe, bver, shown, 
                      begun, ender, ticked, pushed, counted, maybe, stack, by, 
                      n, old, to, force, z, tick_flags, before, m, left, op, 
                      e0, saw, listed, hits, had >>

resizer == z0

Next == main \/ handler \/ resizer
           \/ (\E self \in ProcSet:  \/ stop(self) \/ stop_done(self)
                                     \/ update(self) \/ tick(self) \/ join(self)
                                     \/ finish(self) \/ reset(self) \/ push(self))
           \/ (\E self \in Users: user(self))
           \/ (\E self \in Tickers: ticker(self))

Spec == Init /\ [][Next]_vars

\* END TRANSLATION 

Idle(x) == pc[x] \in {"a0", "Done"}
AllIdle == \A x \in Users : Idle(x)
AllDone == \A x \in Users : pc[x] = "Done"

(* An ended bar stays ended, at its total and with nothing painted (C13, C18). *)
Frozen == (frozen /\ resetting = 0) => (~Running /\ cnt[1] = cnt[2] /\ ~scr.on)
(* Without resets and settings the count is that of the increments (C12).      *)
Counted == (AllIdle /\ Running /\ Menu \cap {"set", "reset"} = {}) => cnt[1] >= Least(counted, cnt[2]) /\ cnt[1] <= Least(maybe, cnt[2])
(* Done never passes the total (C12, C13). *)
Within == cnt[1] <= cnt[2]
(* A full bar is not running once nobody is about to end it. *)
FullEnds == (AllIdle /\ cnt[1] = cnt[2]) => ~Running
(* One ticker, known to whoever has to stop it (C20). *)
OneTicker == (AllIdle /\ tkm = NoOne) => alive \subseteq {handle}
(* Messages are printed as pushed (C19). *)
Printed == log = pushed
(* The cursor is hidden only by running tickers (C23). *)
Cursor ==
    /\ hidden => alive # {}
    /\ (sw /\ pc[Handler] \in {"h0", "Done"} /\ \A x \in Tickers : pc[x] \notin {"b2", "b3", "b4"}) => ~hidden
Exit == gone => ~hidden

Locks ==
    /\ err.dep >= 0 /\ (err.own = NoOne) = (err.dep = 0)

Do(self) == stop(self) \/ stop_done(self) \/ update(self) \/ tick(self) \/ join(self) \/ finish(self) \/ reset(self) \/ push(self)
FairSpec ==
    /\ Spec
    /\ \A x \in Users : SF_vars(user(x) \/ Do(x))
    /\ \A x \in Tickers : SF_vars(ticker(x) \/ Do(x))
    /\ SF_vars(main \/ Do(Main))
    /\ WF_vars(handler \/ resizer)

(* Every call returns (C20). *)
Returns == <>(gone \/ AllDone)
(* The display catches up (C16, C18, C22). *)
CatchesUp == (Final = "stay") => <>[](gone \/ (/\ (Running => scr = [on |-> TRUE, c |-> cnt, t |-> title, k |-> tasks, z |-> size])
                                             /\ (~Running => ~scr.on)
                                             /\ ((sw /\ Running /\ Policy # "none") => "sigint" \in flags)))
(* Tickers end after the bar, or the last handle (C20). *)
Quits == (Final # "stay") => <>[](gone \/ (alive = {} /\ ~hidden))
(* Only the policy decides whether an interrupt ends the process (C22). *)
Mercy == gone => (Policy = "default" \/ (Policy = "two" /\ Hits > 1))

=============================================================================
