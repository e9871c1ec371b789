--------------------------------- MODULE TidMC -----------------------------------
EXTENDS Tid
ASSUME Exact
ASSUME Sorted
VARIABLE x
Init == x = 0
Next == UNCHANGED x
MCSpec == Init /\ [][Next]_x
=============================================================================
