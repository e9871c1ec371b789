------------------------------- MODULE Resolve -------------------------------
(* What handles and DIDs resolve to (https://atproto.com/specs/handle#handle-resolution,
   https://atproto.com/specs/did, https://w3c-ccg.github.io/did-method-web/), on strings. *)
EXTENDS Naturals, Sequences, FiniteSets

At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Of(str) == {At(str, i) : i \in 1..Len(str)}
Lower == Of("abcdefghijklmnopqrstuvwxyz")
Letters == Lower \cup Of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Numerals == Of("0123456789")
Alnum == Letters \cup Numerals

AllIn(s, S) == \A i \in 1..Len(s) : At(s, i) \in S

RECURSIVE Split(_, _)
Split(s, c) ==
  LET hits == {i \in 1..Len(s) : At(s, i) = c}
  IN IF hits = {} THEN <<s>>
     ELSE LET k == CHOOSE i \in hits : \A j \in hits : i <= j
          IN <<IF k = 1 THEN "" ELSE SubSeq(s, 1, k - 1)>> \o Split(From(s, k + 1), c)

RECURSIVE Join(_, _)
Join(ss, c) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o c \o Join(Tail(ss), c)

RECURSIVE Trim(_)
Blank == {" ", "\n", "\t", "\r"}
Trim(s) == IF Len(s) > 0 /\ At(s, 1) \in Blank THEN Trim(From(s, 2))
           ELSE IF Len(s) > 0 /\ At(s, Len(s)) \in Blank
                THEN Trim(IF Len(s) = 1 THEN "" ELSE SubSeq(s, 1, Len(s) - 1))
           ELSE s

(* --- handles --- *)
ValidLabel(x) == /\ Len(x) \in 1..63
                 /\ AllIn(x, Alnum \cup {"-"})
                 /\ At(x, 1) \in Alnum /\ At(x, Len(x)) \in Alnum
ValidHandle(h) == /\ Len(h) <= 253
                  /\ LET ls == Split(h, ".")
                     IN /\ Len(ls) >= 2
                        /\ \A i \in DOMAIN ls : ValidLabel(ls[i])
                        /\ At(ls[Len(ls)], 1) \in Letters

(* --- DIDs --- *)
IsDid(s) ==
  LET ps == Split(s, ":")
  IN /\ Len(ps) >= 3 /\ ps[1] = "did"
     /\ Len(ps[2]) > 0 /\ AllIn(ps[2], Lower)
     /\ AllIn(s, Alnum \cup Of("._:%-"))
     /\ At(s, Len(s)) \notin {":", "%"}

(* --- handle resolution: from a DNS answer and an HTTPS answer ---
   a DNS answer is a sequence of TXT records, each the strings it consists of *)
Records(recs) == {Join(recs[i], "") : i \in DOMAIN recs}
DnsDids(recs) == {From(r, 5) : r \in {x \in Records(recs) : Starts(x, "did=") /\ IsDid(From(x, 5))}}
HttpDids(status, body) ==
  IF status \notin 200..299 THEN {""}
  ELSE LET lines == Split(Trim(body), "\n")
       IN IF IsDid(Trim(body)) THEN {Trim(body)}
          (* more text after the DID: not specified *)
          ELSE IF Len(lines) > 1 /\ IsDid(Trim(lines[1])) THEN {Trim(lines[1]), ""}
          ELSE {""}

(* the acceptable results; "" for none *)
HandleResult(recs, status, body) ==
  IF DnsDids(recs) # {} THEN DnsDids(recs) ELSE HttpDids(status, body)

DnsName(h) == "_atproto." \o h
HandleUrl(h) == "https://" \o h \o "/.well-known/atproto-did"

(* --- where DID documents are --- *)
IsPlc(did) == Starts(did, "did:plc:")
IsWeb(did) == Starts(did, "did:web:")

RECURSIVE Colons(_)
Colons(s) == IF Len(s) < 3 THEN s
             ELSE IF SubSeq(s, 1, 3) \in {"%3A", "%3a"} THEN ":" \o Colons(From(s, 4))
             ELSE At(s, 1) \o Colons(From(s, 2))

WebUrl(did) ==
  LET ps == Split(From(did, 9), ":")
  IN "https://" \o Colons(ps[1]) \o "/"
     \o (IF Len(ps) = 1 THEN ".well-known" ELSE Join(Tail(ps), "/")) \o "/did.json"
DocUrl(did, host) == IF IsPlc(did) THEN "https://" \o host \o "/" \o did ELSE WebUrl(did)
=============================================================================
