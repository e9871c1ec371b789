-------------------------------- MODULE Blob --------------------------------
(* Blobs at other servers, known by the URL: what is stored about one, when its URL is
   fetched, what each answer to a fetch does to it, and who may use it.

   What a URL serves, o:
     kind   "ok", "client" (4xx), "server" (5xx), "down" (no answer), "cut" (the body breaks off)
     type   its Content-Type, "" if none;  guess: the type its file extension suggests
     declared   its Content-Length, -1 if there is none
     cid, size, dur   of its content; dur in ms, 0 if it has no duration              *)
EXTENDS Integers, Sequences, FiniteSets

Octet == "application/octet-stream"
MaxDur == 180000
Age == 7 * 86400

(* cid "" is nothing known; last: when it was last fetched, -1 never *)
NewBlob == [cid |-> "", size |-> -1, mime |-> Octet, dur |-> 0, inactive |-> FALSE, last |-> -1]

RECURSIVE Slash(_, _)
Slash(s, i) == IF i > Len(s) \/ SubSeq(s, i, i) = "/" THEN i ELSE Slash(s, i + 1)
Main(mime) == SubSeq(mime, 1, Slash(mime, 1) - 1)

Rechecked(mime) == Main(mime) = "image"
Due(b, now) == IF b.last = -1 THEN b.cid = "" \/ Rechecked(b.mime)
               ELSE Rechecked(b.mime) /\ b.last + Age < now

TypeOf(o) == IF o.type # "" THEN o.type ELSE IF o.guess # "" THEN o.guess ELSE Octet
TooBig(o, max) == o.declared > max
Served(o, max) == o.kind = "ok" /\ ~TooBig(o, max)

Fetch(b, o, now, max) ==
  CASE o.kind = "client" -> [b EXCEPT !.inactive = TRUE, !.last = now]
    [] o.kind \in {"server", "down", "cut"} -> [b EXCEPT !.inactive = @ \/ b.cid = "", !.last = now]
    [] TooBig(o, max) ->    (* not read; whatever was known is not what it serves any more *)
         [b EXCEPT !.cid = "", !.size = o.declared, !.mime = TypeOf(o), !.last = now]
    [] OTHER -> [b EXCEPT !.cid = o.cid, !.size = o.size, !.mime = TypeOf(o), !.dur = o.dur,
                          !.inactive = FALSE, !.last = now]

(* accept: a set of MIME types and "main/*" patterns, empty for all; limit 0 is none *)
Accepted(mime, accept) == accept = {} \/ "*/*" \in accept \/ mime \in accept \/ (Main(mime) \o "/*") \in accept
Fits(b, limit, accept, max) == /\ Accepted(b.mime, accept)
                               /\ b.size <= max
                               /\ limit = 0 \/ b.size <= limit
                               /\ b.dur <= MaxDur

(* after a fetch with answer o, or none (fetched = FALSE) *)
Usable(b, fetched, o, max) == /\ ~b.inactive
                              /\ b.cid # ""
                              /\ fetched => Served(o, max)
=============================================================================
