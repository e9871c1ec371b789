-------------------------------- MODULE SeqTrace --------------------------------
(***************************************************************************)
(* Sequence allocators, specified by what their callers see: each event is a  *)
(* whole concurrent execution, a set of calls with the scheduler steps at     *)
(* which they began and ended.  Abstract state per stream: the set of numbers *)
(* handed out; an allocation's number is fresh and above every finished one.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, TraceLib

VARIABLES l, bad
vars == <<l, bad>>

Allocs(e) == {i \in DOMAIN e.calls : e.calls[i].op = "allocate" /\ e.calls[i].r = "ok"}
Lasts(e) == {i \in DOMAIN e.calls : e.calls[i].op = "last" /\ e.calls[i].r = "ok"}
Tries(e) == {i \in DOMAIN e.calls : e.calls[i].op = "allocate"}
Same(e, i, j) == e.calls[i].nsid = e.calls[j].nsid
FloorOf(e, n) == LET s == {x \in AsSet(e.floor) : x[1] = n} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[2]

Fail(e) ==
  LET c == e.calls
  IN Chk("Q01.hang", e.outcome = "done" /\ \A i \in DOMAIN c : c[i].r # "hang")
     \cup Chk("Q01.positive", \A i \in Allocs(e) : c[i].v > 0)
     \cup Chk("Q01.unique", \A i, j \in Allocs(e) : i # j /\ Same(e, i, j) => c[i].v # c[j].v)
     \cup Chk("Q01.increasing", \A i, j \in Allocs(e) :
                 Same(e, i, j) /\ c[i].end < c[j].begin => c[i].v < c[j].v)
     \cup Chk("Q01.above-stored", \A i \in Allocs(e) : c[i].v > FloorOf(e, c[i].nsid))
     \cup Chk("Q01.last-below", \A i \in Lasts(e), j \in Allocs(e) :
                 Same(e, i, j) /\ c[j].end < c[i].begin =>
                   \/ c[i].v >= c[j].v
                   \/ \E x \in AsSet(e.evictions) : x >= c[j].begin /\ x <= c[i].end)
     \cup Chk("Q01.last-above", \A i \in Lasts(e) :
                 \/ e.evictions # <<>> /\ e.evictions[1] <= c[i].end
                 \/ \E j \in Tries(e) : c[j].r # "ok"
                 \/ LET begun == {j \in Tries(e) : Same(e, i, j) /\ c[j].begin < c[i].end}
                    IN c[i].v <= Max({c[j].v : j \in begun} \cup {FloorOf(e, c[i].nsid), 0}))
     \cup Chk("Q01.fails", \A i \in DOMAIN c : c[i].r = "raised" => c[i].excuse)

Failing(e) == IF e.op = "seq" THEN Fail(e) ELSE {}

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
