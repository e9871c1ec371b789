------------------------------ MODULE BlobGen ------------------------------
(* Design model of a server that answers requests for blobs by redirecting to their URLs,
   and generator of histories for the real code.

   What the URLs serve changes, contents appear at several URLs, time passes.  The server
   must never redirect to a URL that it has reason not to believe in any more.            *)
EXTENDS Blob, TLC, Json, IOUtils, CSV

CONSTANTS Urls, Dids, Contents,   (* numbers *)
          Depth, Sim,
          ClearTooBig,            (* content too big to be read makes the old one unknown *)
          CompareAfter            (* a re-check that finds other content does not count *)

VARIABLES blobs, web, now, h, lie
vars == <<blobs, web, now, h, lie>>

Max == 100
Kinds == {"ok", "client", "server", "down", "cut"}
Mimes == {"image/png", "text/plain"}
Size(c) == 10 * c
(* content c at a URL, honestly declared, undeclared, or declared to be too big *)
Answers == [kind : Kinds \ {"ok"}, type : {"image/png"}, guess : {""}, declared : {-1}, cid : {"0"}, size : {0}, dur : {0}]
           \cup {[kind |-> "ok", type |-> m, guess |-> "", declared |-> d, cid |-> ToString(c), size |-> Size(c), dur |-> 0]
                 : m \in Mimes, d \in {-1, Max + 1}, c \in 1..Contents}

Some(S) == IF Sim > 0 THEN {RandomElement(S)} ELSE S
Log(x) == h' = IF Sim > 0 THEN Append(h, x) ELSE Append(h, 0)

Model(b, o) ==
  LET f == Fetch(b, o, now, Max)
  IN IF ~ClearTooBig /\ o.kind = "ok" /\ TooBig(o, Max)
     THEN [f EXCEPT !.cid = b.cid] ELSE f
Check(b, o) == IF ~b.inactive /\ Due(b, now) THEN Model(b, o) ELSE b

Init == /\ blobs = [u \in 1..Urls |-> NewBlob]
        /\ web = [u \in 1..Urls |-> CHOOSE o \in Answers : o.kind = "down"]
        /\ now = 0 /\ h = <<>> /\ lie = FALSE

Plain == {o \in Answers : o.kind = "ok" /\ o.declared = -1}
Fails(k) == {o \in Answers : o.kind = k}
Mostly(x) == IF Sim = 0 THEN Answers
             ELSE CASE RandomElement(1..2) = 1 -> Plain
                    [] RandomElement(1..2) = 1 -> Fails(RandomElement(Kinds \ {"ok"}))
                    [] OTHER -> Answers
Serve == \E u \in Some(1..Urls), o \in Some(Mostly(h)) :
           /\ web' = [web EXCEPT ![u] = o]
           /\ Log([op |-> "serve", u |-> u, o |-> o.kind, c |-> o.cid, m |-> o.type, big |-> o.declared > Max,
                   x |-> 0])
           /\ UNCHANGED <<blobs, now, lie>>
Reg == \E u \in Some(1..Urls), d \in Some(0..Dids) :
         /\ blobs' = [blobs EXCEPT ![u] = Check(@, web[u])]
         /\ Log([op |-> "reg", u |-> u, o |-> "", c |-> "", m |-> "", big |-> FALSE, x |-> d])
         /\ UNCHANGED <<web, now, lie>>
(* what the server has last seen of the URL it redirects to is something else *)
Seen(u) == Due(blobs[u], now) /\ web[u].kind = "ok" /\ web[u].cid # blobs[u].cid
Get == \E c \in Some(1..Contents) :
         LET cands == {u \in 1..Urls : blobs[u].cid = ToString(c) /\ ~blobs[u].inactive}
         IN /\ IF cands = {} THEN UNCHANGED <<blobs, lie>>
               ELSE \E u \in Some(cands) :
                      LET b == Check(blobs[u], web[u])
                          fails == Due(blobs[u], now) /\ ~Served(web[u], Max)
                          same == CompareAfter => b.cid = ToString(c)
                      IN /\ blobs' = [blobs EXCEPT ![u] = b]
                         /\ lie' = (lie \/ (~b.inactive /\ ~fails /\ same /\ web[u].kind = "ok"
                                            /\ (Seen(u) \/ blobs[u].size > Max)))
            /\ Log([op |-> "get", u |-> 0, o |-> "", c |-> ToString(c), m |-> "", big |-> FALSE, x |-> 0])
            /\ UNCHANGED <<web, now>>
List == \E d \in Some(1..Dids) :
          /\ Log([op |-> "list", u |-> 0, o |-> "", c |-> "", m |-> "", big |-> FALSE, x |-> d])
          /\ UNCHANGED <<blobs, web, now, lie>>
Tick == \E n \in Some({1, 5, 8}) :
          /\ now' = now + n * 86400
          /\ Log([op |-> "tick", u |-> 0, o |-> "", c |-> "", m |-> "", big |-> FALSE, x |-> n])
          /\ UNCHANGED <<blobs, web, lie>>

Next == Len(h) < Depth
        /\ IF Sim > 0
           THEN LET k == {RandomElement(1..13)} IN
                \E i \in k : CASE i <= 3 -> Serve [] i <= 6 -> Reg [] i <= 9 -> Get [] i = 10 -> List [] OTHER -> Tick
           ELSE Serve \/ Reg \/ Get \/ Tick
Spec == Init /\ [][Next]_vars

Inv == /\ ~lie
       /\ \A u \in 1..Urls : LET b == blobs[u] IN
            /\ b.cid # "" => b.last # -1 /\ b.size >= 0 /\ b.size <= Max   (* cid and size belong together *)
            /\ b.cid # "" => b.size = Size(CHOOSE c \in 1..Contents : ToString(c) = b.cid)
Dump == Sim > 0 /\ Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.DUMP)
=============================================================================
