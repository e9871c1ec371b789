------------------------------- MODULE PlcDir -------------------------------
(* A did:plc directory (https://web.plc.directory/spec/v0.1/did-plc): the operations of one
   DID in the order they were accepted, and the rules for accepting another.

   An operation is a record
     prev  index in the log of the operation whose CID it names, 0 for none, -1 for a CID
           that is not in the log
     rot   the rotation keys, in order of authority
     by    the keys under which the signature is valid (and low-S)
     aka, pds, sk: alsoKnownAs, the PDS endpoint and the signing key
     null  nullified since, by a recovery operation                                     *)
EXTENDS Integers, Sequences, FiniteSets

Ran(f) == {f[i] : i \in DOMAIN f}

(* the operations in force, as indexes in the log *)
Chain(log) == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : ~log[i].null)
HeadIx(log) == Chain(log)[Len(Chain(log))]
Current(log) == log[HeadIx(log)]

After(log, p) == {i \in p + 1..Len(log) : ~log[i].null}

(* with more authority than a key that signed the operation to be nullified *)
Above(rot, by) == {rot[i] : i \in {j \in DOMAIN rot : \A k \in 1..j : rot[k] \notin by}}

Accepts(log, op) ==
  IF log = <<>>
  THEN op.prev = 0 /\ op.by \cap Ran(op.rot) # {}
  ELSE /\ op.prev \in 1..Len(log)
       /\ ~log[op.prev].null
       /\ IF After(log, op.prev) = {}
          THEN op.by \cap Ran(log[op.prev].rot) # {}
          ELSE LET first == CHOOSE i \in After(log, op.prev) : \A j \in After(log, op.prev) : i <= j
               IN op.by \cap Above(log[op.prev].rot, log[first].by) # {}
       /\ Len(op.rot) \in 1..5 /\ Cardinality(Ran(op.rot)) = Len(op.rot)

Add(log, op) ==
  Append([i \in DOMAIN log |-> [log[i] EXCEPT !.null = @ \/ (op.prev # 0 /\ i > op.prev)]],
         [op EXCEPT !.null = FALSE])

Doc(op) == [aka |-> op.aka, pds |-> op.pds, sk |-> op.sk]

(* --- what the calls of the library ask for ---
   A call is a record: kind, handle, aka, pds, sk, rk, nrk, n.  0 stands for an argument that
   was not given; given aliases are <<1, aliases>>, ones not given <<0, <<>>>>.
   `dflt` is the endpoint of the PDS itself. *)
Rot(c) == <<IF c.nrk # 0 THEN c.nrk ELSE c.rk>>
Asked(c, log, dflt) ==
  CASE c.kind = "create" ->
         [aka |-> <<c.handle>> \o c.aka[2], pds |-> IF c.pds = "" THEN dflt ELSE c.pds,
          sk |-> c.sk, rot |-> Rot(c)]
    [] c.kind = "update" ->
         LET cur == Current(log)
         IN [aka |-> <<IF c.handle = "" THEN cur.aka[1] ELSE c.handle>>
                     \o (IF c.aka[1] = 1 THEN c.aka[2] ELSE Tail(cur.aka)),
             pds |-> IF c.pds = "" THEN dflt ELSE c.pds, sk |-> c.sk, rot |-> Rot(c)]
    [] c.kind = "rollback" ->
         LET ch == Chain(log)
             old == log[ch[Len(ch) - c.n]]
         IN [aka |-> old.aka, pds |-> old.pds, sk |-> old.sk, rot |-> old.rot]

(* the call can be carried out: its key is in force, and there is something to go back to *)
Valid(c, log) ==
  CASE c.kind = "create" -> log = <<>> /\ c.nrk = 0
    [] c.kind = "update" -> log # <<>> /\ c.rk \in Ran(Current(log).rot)
    [] c.kind = "rollback" -> /\ log # <<>> /\ c.rk \in Ran(Current(log).rot)
                              /\ c.n \in 1..(Len(Chain(log)) - 1)
=============================================================================
