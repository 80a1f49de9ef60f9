----------------------------- MODULE HandleTrace -----------------------------
(* Calls made on real handles and what came back, against Handle.tla.          *)
EXTENDS Handle
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l, truth       \* truth: delta -> [item -> value stored in the file], and the same written over
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ truth = <<>> /\ file = [n \in Names |-> "missing"] /\ handle = [h \in 1..NH |-> NoH] /\ answer = [r \in 1..NR |-> NoA] /\ mem = <<>> /\ last = [op |-> "start"]
\* tables have items 0..18 at 1..19
Stored(d, t, name) == IF t = 0 THEN E.names[name].v ELSE truth[d].v[t + 1]
Spoilt(d, t, name) == IF t = 0 THEN E.names[name].s ELSE truth[d].s[t + 1]
Case ==
  /\ file' = [n \in Names |-> E.files[n]] /\ handle' = [h \in 1..NH |-> NoH] /\ answer' = [r \in 1..NR |-> NoA] /\ mem' = <<>> /\ last' = [op |-> "start"]
  /\ truth' = E.truth
Act ==
  LET o == E.op IN
  CASE o.op = "read" -> /\ Read(o.h, o.f)
                        /\ Complain(E.rc = last'.rc /\ E.hnull = (E.rc # "OK"), last'.rc)
    [] o.op = "readbad" -> ReadBad(o.nullh) /\ Complain(E.rc = "ARGS", "ARGS")
    [] o.op = "get" -> /\ Get(o.h, o.g, o.t, IF o.r = 0 THEN 1 ELSE o.r)
                       /\ IF last'.rc = "OK" THEN Complain(E.rc = "OK" /\ E.v = Stored(handle[o.h].d, o.t, handle[o.h].name), Stored(handle[o.h].d, o.t, handle[o.h].name))
                          ELSE Complain(E.rc = "ARGS" /\ ~E.touched, "ARGS")
    [] o.op = "getnull" -> GetNowhere(o.h, o.g, o.t) /\ Complain(E.rc = "ARGS" /\ ~E.touched, "ARGS")
    [] o.op = "show" -> /\ Show(o.r)
                        /\ LET a == answer[o.r]
                               x == IF a.spoilt THEN Spoilt(a.d, a.tag, a.name) ELSE Stored(a.d, a.tag, a.name)
                           IN Complain(E.v = x, x)
    [] o.op = "scribble" -> Scribble(o.r)
    [] o.op = "drop" -> GiveBack(o.r)
    [] o.op = "destroy" -> Destroy(o.h) /\ Complain(E.rc = last'.rc /\ E.hnull, last'.rc)
    [] o.op = "replace" -> Replace(o.f, o.c)
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN Case ELSE Act /\ UNCHANGED truth
TSpec == TInit /\ [][TNext]_<<vars, l, truth>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
