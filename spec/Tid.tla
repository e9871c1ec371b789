---------------------------------- MODULE Tid -----------------------------------
(***************************************************************************)
(* Timestamp identifiers: a number as base-B digits, most significant first,   *)
(* padded to W digits, followed by a clock id of C digits.  Real TIDs have      *)
(* B = 32, W = 11, C = 2; the theorems below are checked exhaustively for small *)
(* values (TidMC.cfg) and the definitions judge every recorded conversion        *)
(* (TidTrace).  Digits compare like the characters of the sortable alphabet.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

CONSTANTS B, W, C

RECURSIVE PowB(_)
PowB(k) == IF k = 0 THEN 1 ELSE B * PowB(k - 1)

RECURSIVE DigitsOf(_, _)
DigitsOf(n, k) == IF k = 0 THEN <<>> ELSE Append(DigitsOf(n \div B, k - 1), n % B)

RECURSIVE ValueOf(_)
ValueOf(ds) == IF ds = <<>> THEN 0 ELSE B * ValueOf(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]

IsDigits(ds, k) == Len(ds) = k /\ \A i \in 1..Len(ds) : ds[i] \in 0..B - 1

(* a clock id below B may stand first or last of the two digits *)
ClockDigits(c) == {DigitsOf(c, C)} \cup (IF c < B THEN {<<c>> \o [i \in 1..C - 1 |-> 0]} ELSE {})

Encodings(n, c) == {DigitsOf(n, W) \o d : d \in ClockDigits(c)}
Decode(tid) == ValueOf(SubSeq(tid, 1, W))

RECURSIVE Less(_, _)
Less(a, b) == /\ a # <<>> /\ b # <<>>
              /\ \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ Less(Tail(a), Tail(b))

(* the property, on the definitions *)
Exact == \A n \in 0..PowB(W) - 1, c \in 0..PowB(C) - 1 : \A t \in Encodings(n, c) :
            IsDigits(t, W + C) /\ Decode(t) = n
Sorted == \A m, n \in 0..PowB(W) - 1, c, d \in 0..PowB(C) - 1 :
            \A t \in Encodings(m, c), u \in Encodings(n, d) : m < n => Less(t, u)
=============================================================================
