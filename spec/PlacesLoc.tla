----------------------------- MODULE PlacesLoc ------------------------------
EXTENDS Places, TLC, Json, SequencesExt
ASSUME PrintT(ToJson([locs |-> SetToSeq({<<l, Class(l)>> : l \in Locations})]))
=============================================================================
