------------------------------- MODULE TraceLib -------------------------------
(* Shared by all trace specifications: the recorded trace, and total verdicts. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* the clause `name` holds: nothing failing; otherwise its name *)
Chk(name, cond) == IF cond THEN {} ELSE {name}

Has(e, f) == f \in DOMAIN e

(* of the names in S, those that are not in bad yet: the first occurrence of each is kept *)
New(bad, S) == S \ {b[2] : b \in bad}

(* the recorded JSON array s as a set *)
AsSet(s) == {s[i] : i \in DOMAIN s}

NoDup(s) == Cardinality(AsSet(s)) = Len(s)

SetToSeq0(S) == CHOOSE f \in [1..Cardinality(S) -> S] : AsSet(f) = S
=============================================================================
