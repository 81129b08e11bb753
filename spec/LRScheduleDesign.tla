------------------------- MODULE LRScheduleDesign -------------------------
(* A schedule as a machine that goes from phase to phase, is saved and      *)
(* restored, against its definition as a function of the number of steps.   *)
EXTENDS LRSchedule, Json
CONSTANTS Warmups, Cycles, Growths, Totals, Depth, Restores, Every, Emitting
VARIABLES c, ready, t, m, saved, hist, hops
vars == <<c, ready, t, m, saved, hist, hops>>

\* Growth g stands for (g \div 10) / (g % 10).
None == [kind |-> "none", w |-> 0, l |-> 0, mp |-> 1, mq |-> 1, n |-> 0, h |-> 0, d |-> 0]
Enter(ph, nr, len) == [ph |-> ph, nr |-> nr, len |-> len, pos |-> 0]
\* What follows the warmup.
AfterWarmup(x) ==
    CASE x.kind = "cosine" -> Enter("cycle", 0, First(x))
      [] x.kind = "tri" -> IF x.h > 0 THEN Enter("hold", 0, x.h) ELSE IF x.d > 0 THEN Enter("decay", 0, x.d) ELSE Enter("end", 0, 0)
      [] x.kind = "poly" -> Enter("decay", 0, x.n - x.w)
      [] OTHER -> Enter("tail", 0, 0)
Begin(x) == IF x.w > 0 /\ x.kind # "none" THEN Enter("warmup", 0, x.w) ELSE AfterWarmup(x)
Tick(x, s) ==
    IF s.ph = "tail" \/ s.ph = "end" \/ s.pos + 1 < s.len THEN [s EXCEPT !.pos = @ + 1]
    ELSE CASE s.ph = "warmup" -> AfterWarmup(x)
           [] s.ph = "cycle" -> Enter("cycle", s.nr + 1, Length(x, s.nr + 1, s.len))
           [] s.ph = "hold" -> IF x.d > 0 THEN Enter("decay", 0, x.d) ELSE Enter("end", 0, 0)
           [] s.ph = "decay" -> Enter("end", 0, 0)

Init == /\ \E k \in Kinds : c = [None EXCEPT !.kind = k]
        /\ ready = 0 /\ t = 0 /\ m = Enter("end", 0, 0) /\ saved = <<>> /\ hist = <<>> /\ hops = 0
\* The configuration is chosen in steps, so that sampling is cheap.
Choose1 == /\ ready = 0 /\ ready' = 1
           /\ \E w \in Warmups :
                 /\ (c.kind = "myle" => w > 0) /\ (c.kind = "none" => w = 0)
                 /\ c' = [c EXCEPT !.w = w]
           /\ UNCHANGED <<t, m, saved, hist, hops>>
Choose2 == /\ ready = 1 /\ ready' = 2
           /\ CASE c.kind = "cosine" -> \E x \in Cycles, g \in Growths : c' = [c EXCEPT !.l = x, !.mp = g \div 10, !.mq = g % 10]
                [] c.kind = "tri" -> \E x \in Totals : c' = [c EXCEPT !.h = x]
                [] OTHER -> UNCHANGED c
           /\ UNCHANGED <<t, m, saved, hist, hops>>
Choose3 == /\ ready = 2 /\ ready' = 3
           /\ CASE c.kind = "cosine" -> \E x \in Totals : c' = [c EXCEPT !.n = x]
                [] c.kind = "tri" -> \E x \in Totals : c' = [c EXCEPT !.d = x, !.n = c.w + c.h + x]
                [] c.kind = "poly" -> \E x \in Totals : x > 0 /\ c' = [c EXCEPT !.n = c.w + x]
                [] OTHER -> UNCHANGED c
           /\ UNCHANGED <<t, m, saved, hist, hops>>
Start == /\ ready = 3 /\ ready' = 4 /\ (c.kind = "tri" => c.n > 0)
         /\ m' = Begin(c) /\ hist' = <<[op |-> "start", to |-> 0, at |-> At(c, 0)]>>
         /\ UNCHANGED <<c, t, saved, hops>>
Log(op, x) == hist' = Append(hist, [op |-> op, to |-> x, at |-> At(c, x)])
Live == ready = 4 /\ Len(hist) < Depth
Step == /\ Live /\ t' = t + 1 /\ m' = Tick(c, m) /\ Log("step", t + 1)
        /\ UNCHANGED <<c, ready, saved, hops>>
Save == /\ Live /\ hops < Restores /\ Len(hist) % Every = 0 /\ hops' = hops + 1 /\ saved' = <<t, m>> /\ Log("save", t)
        /\ UNCHANGED <<c, ready, t, m>>
\* A new schedule takes the state of the one that was saved.
Restore == /\ Live /\ hops < Restores /\ Len(hist) % Every = 0 /\ saved # <<>> /\ hops' = hops + 1
           /\ t' = saved[1] /\ m' = saved[2] /\ Log("restore", saved[1])
           /\ UNCHANGED <<c, ready, saved>>
\* A new schedule is told how many steps were taken before.
Rebuild == /\ Live /\ hops < Restores /\ Len(hist) % Every = 0 /\ t > 0 /\ hops' = hops + 1 /\ Log("rebuild", t)
           /\ UNCHANGED <<c, ready, t, m, saved>>
Next == Choose1 \/ Choose2 \/ Choose3 \/ Start \/ Step \/ Save \/ Restore \/ Rebuild
Spec == Init /\ [][Next]_vars

Running == ready = 4
\* The machine and the definition agree.
Agree == Running =>
    LET f == At(c, t) IN
    CASE m.ph = "warmup" -> f.k \in {"lin", "rise"} /\ f.n = m.pos /\ f.d = m.len
      [] m.ph = "cycle" -> f = Form("cos", m.pos, m.len, m.nr)
      [] m.ph = "hold" -> f.k = "base"
      [] m.ph = "decay" -> f.d = m.len /\ ((f.k = "exp" /\ f.n = m.pos) \/ (f.k = "pow" /\ f.n = m.len - m.pos))
      [] m.ph = "end" -> f.k = "final"
      [] OTHER -> f.k \in {"base", "root"}
\* No rate leaves the range between the rates it goes between.
Weight == Running => LET f == At(c, t) IN f.k \in {"lin", "rise", "cos", "pow", "exp"} => f.d > 0 /\ f.n <= f.d
Root == Running => LET f == At(c, t) IN f.k = "root" => f.d > 0 /\ f.n <= f.d
\* A warmup ends at the base rate, where the next phase begins.
Meets == Running /\ t = c.w =>
    LET f == At(c, t) IN
    \/ f.k = "cos" /\ f.n = 0 /\ f.c = 0
    \/ f.k \in {"pow"} /\ f.n = f.d
    \/ f.k = "exp" /\ f.n = 0
    \/ f.k = "base"
    \/ f.k = "root" /\ c.kind = "myle" /\ f.n = f.d
    \/ f.k = "root" /\ c.kind = "noam" /\ f.d = c.w
    \/ f.k = "final" /\ c.kind = "tri" /\ c.d = 0
\* Cycles follow each other without a gap, and each begins at its base rate.
Falls == [][Running /\ t' = t + 1 /\ m.ph = "cycle" =>
              LET a == At(c, t) b == At(c, t + 1) IN
              IF a.n + 1 < a.d THEN b = [a EXCEPT !.n = @ + 1] ELSE b.n = 0 /\ b.c = a.c + 1]_vars
\* Cycles grow if they are said to grow, and shrink otherwise.
Grows == [][Running /\ m.ph = "cycle" /\ m'.ph = "cycle" /\ t' > t =>
              CASE c.mp > c.mq -> m'.len >= m.len
                [] c.mp < c.mq -> m'.len <= m.len
                [] OTHER -> m'.len = m.len]_vars
Ends == Running /\ c.kind \in {"poly", "tri"} /\ t >= c.n => At(c, t).k = "final"
Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson([c |-> c, h |-> hist]))
============================================================================
