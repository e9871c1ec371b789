----------------------------- MODULE BlobTrace -----------------------------
(* Calls on the real AtpRemoteBlob, getBlob and listBlobs, against URLs whose answers are
   under control.  Events:
     init   max (BLOB_MAX_BYTES), urls: <<url>>, dids: <<did>>
     seed   a blob stored by an earlier version: u, cid, size, mime
     serve  u serves o from now on
     reg    u registered for did d (0 none) with limit, accept: r "ok", "http", "invalid",
            "raised"; cid, size, mime of the blob object returned
     begin  a reg that is in the middle of its fetch; nested = TRUE in its own event later
     get    cid asked for: r "redirect" (to: url), "none", "raised"
     list   did d: r, cids of all pages together
   All of them: now; fetched: <<url>> in order; at the end stored: <<[url, key, cid, size,
   mime, inactive, dids, updated]>>                                                      *)
EXTENDS Blob, TraceLib, SequencesExt

CONSTANT Strict     (* also: a re-check in the same call must not have found other content *)

VARIABLES l, s, bad
vars == <<l, s, bad>>

Init0 == [max |-> 0, blobs |-> <<>>, dids |-> <<>>, web |-> <<>>, upd |-> <<>>, pend |-> NewBlob]

Known(u) == u \in DOMAIN s.blobs
At(u) == IF Known(u) THEN s.blobs[u] ELSE NewBlob
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Dids(u) == IF u \in DOMAIN s.dids THEN s.dids[u] ELSE {}

After(b, u, now) == IF ~b.inactive /\ Due(b, now) THEN Fetch(b, s.web[u], now, s.max) ELSE b

(* -- registering -- *)
RegBefore(e) == IF e.nested THEN s.pend ELSE At(e.u)
FailReg(e) ==
  LET b == RegBefore(e)
      due == ~b.inactive /\ Due(b, e.now)
      a == After(b, e.u, e.now)
      okay == Usable(a, due, s.web[e.u], s.max) /\ Fits(a, e.limit, AsSet(e.accept), s.max)
  IN Chk("B01.fetched", e.fetched = (IF due THEN <<e.u>> ELSE <<>>))
     \cup Chk("B01.inactive-accepted", b.inactive => e.r # "ok")
     \cup Chk("B01.failure-accepted", due /\ ~Served(s.web[e.u], s.max) => e.r # "ok")
     \cup Chk("B01.limits", Usable(a, due, s.web[e.u], s.max) /\ ~okay => e.r = "invalid")
     \cup Chk("B01.refused", okay => e.r = "ok")
     \cup Chk("B01.unusable-accepted", ~Usable(a, due, s.web[e.u], s.max) => e.r # "ok")
     \cup Chk("B01.raised", e.r # "raised")
     \cup Chk("B01.object", e.r = "ok" => <<e.cid, e.size, e.mime>> = <<a.cid, a.size, a.mime>>)

(* -- asking for one -- *)
Cands(c) == {u \in DOMAIN s.blobs : s.blobs[u].cid = c /\ ~s.blobs[u].inactive}
Ordered(c) == SetToSortSeq(Cands(c), LAMBDA u, v : s.upd[u] > s.upd[v])
DueNow(u, e) == Due(s.blobs[u], e.now)
Changed(u, e) == DueNow(u, e) /\ Served(s.web[u], s.max) /\ s.web[u].cid # s.blobs[u].cid
(* is u good to be served, "yes", "no" or "maybe" *)
Good(u, e) == IF ~DueNow(u, e) THEN "yes"
              ELSE IF s.web[u].kind \in {"server", "down", "cut"} THEN "maybe"
              ELSE IF ~Served(s.web[u], s.max) THEN "no"
              ELSE IF ~Changed(u, e) THEN "yes"
              ELSE IF Strict THEN "no" ELSE "maybe"
FailGet(e) ==
  LET cs == Ordered(e.cid)
      at == {i \in DOMAIN cs : e.r = "redirect" /\ cs[i] = e.to}
      upto == IF at = {} THEN Len(cs) ELSE CHOOSE i \in at : TRUE
  IN Chk("B01.get-raised", e.r # "raised")
     \cup Chk("B01.redirected", e.r = "redirect" => at # {})
     \cup Chk("B01.served-bad", at # {} => Good(e.to, e) # "no")
     \cup Chk("B01.not-preferred", at # {} => \A i \in 1..(upto - 1) : Good(cs[i], e) # "yes")
     \cup Chk("B01.not-served", e.r = "none" => \A i \in DOMAIN cs : Good(cs[i], e) # "yes")
     \cup Chk("B01.get-fetched", (at # {} \/ e.r = "none")
                                 => e.fetched = SelectSeq(SubSeq(cs, 1, upto), LAMBDA u : DueNow(u, e)))

(* -- listing -- *)
Mine(d) == {u \in DOMAIN s.blobs : d \in Dids(u) /\ s.blobs[u].cid # ""}
FailList(e) ==
  LET all == {s.blobs[u].cid : u \in Mine(e.d)}
      act == {s.blobs[u].cid : u \in {v \in Mine(e.d) : ~s.blobs[v].inactive}}
  IN Chk("B01.list-raised", e.r = "ok")
     \cup (IF e.r # "ok" THEN {}
           ELSE Chk("B01.list-missing", act \subseteq AsSet(e.cids))
                \cup Chk("B01.list-foreign", AsSet(e.cids) \subseteq all)
                \cup Chk("B01.list-repeated", \A c \in AsSet(e.cids) :
                       Cardinality({i \in DOMAIN e.cids : e.cids[i] = c})
                       <= Cardinality({u \in Mine(e.d) : s.blobs[u].cid = c})))
     \cup Chk("B01.list-fetched", e.fetched = <<>>)

(* -- effects -- *)
RECURSIVE FetchAll(_, _, _)
FetchAll(bs, us, now) ==
  IF us = <<>> THEN bs
  ELSE LET u == us[1] IN
       FetchAll(IF u \in DOMAIN bs /\ u \in DOMAIN s.web
                THEN [bs EXCEPT ![u] = Fetch(bs[u], s.web[u], now, s.max)] ELSE bs, Tail(us), now)

(* the answers say which ones were fetched; whether they should have been is judged above *)
Next0(e) ==
  CASE e.ev = "init" -> [Init0 EXCEPT !.max = e.max]
    [] e.ev = "seed" -> [s EXCEPT !.blobs = Put(@, e.u, [NewBlob EXCEPT !.cid = e.cid, !.size = e.size, !.mime = e.mime])]
    [] e.ev = "serve" -> [s EXCEPT !.web = Put(@, e.u, e.o)]
    [] e.ev = "begin" -> [s EXCEPT !.pend = At(e.u), !.blobs = Put(@, e.u, At(e.u)),
                                   !.dids = Put(@, e.u, Dids(e.u) \cup ({e.d} \ {0}))]
    [] e.ev = "reg" -> [s EXCEPT !.blobs = Put(@, e.u, After(RegBefore(e), e.u, e.now)),
                                 !.dids = Put(@, e.u, Dids(e.u) \cup ({e.d} \ {0}))]
    [] e.ev = "get" -> [s EXCEPT !.blobs = FetchAll(s.blobs, SelectSeq(e.fetched, LAMBDA u : Known(u)), e.now)]
    [] OTHER -> s

StoredAt(e, u) == {i \in DOMAIN e.stored : e.stored[i].url = u}
(* whether a URL whose content is too big to be read is inactive is left open *)
Open(b) == b.cid = "" /\ b.size > s.max
FailStored(e, n) ==
  IF ~Has(e, "stored") THEN {}
  ELSE Chk("B01.stored-urls", /\ {e.stored[i].url : i \in DOMAIN e.stored} = DOMAIN n.blobs
                              /\ \A i, j \in DOMAIN e.stored : e.stored[i].url = e.stored[j].url => i = j)
       \cup UNION {LET x == e.stored[i]
                       b == n.blobs[x.url]
                   IN Chk("B01.stored", x.cid = b.cid /\ (b.cid # "" => x.size = b.size /\ x.mime = b.mime))
                      \cup Chk("B01.status", Open(b) \/ (x.inactive <=> b.inactive))
                      \cup Chk("B01.repos", x.url \in DOMAIN n.dids => AsSet(x.dids) = n.dids[x.url])
                   : i \in {j \in DOMAIN e.stored : e.stored[j].url \in DOMAIN n.blobs}}

Failing(e) ==
  (IF Has(e, "r") /\ e.r = "hang" THEN {"B01.hang"}
   ELSE CASE e.ev = "reg" -> FailReg(e)
          [] e.ev = "get" -> FailGet(e)
          [] e.ev = "list" -> FailList(e)
          [] OTHER -> {})
  \cup FailStored(e, Next0(e))

Effect(e) ==
  LET n == Next0(e) IN
  IF ~Has(e, "stored") THEN n
  ELSE [n EXCEPT !.upd = [u \in {e.stored[i].url : i \in DOMAIN e.stored} |->
                            e.stored[CHOOSE i \in StoredAt(e, u) : TRUE].updated],
                 !.blobs = [u \in DOMAIN @ |-> IF Open(@[u]) /\ StoredAt(e, u) # {}
                              THEN [@[u] EXCEPT !.inactive = e.stored[CHOOSE i \in StoredAt(e, u) : TRUE].inactive]
                              ELSE @[u]]]

TraceInit == l = 1 /\ s = Init0 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
