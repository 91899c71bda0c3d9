------------------------------ MODULE MCCrowd ------------------------------
EXTENDS Crowd
ASSUME CrowdChecked
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
