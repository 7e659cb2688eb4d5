------------------------ MODULE KnownVerticesSuffice ------------------------
EXTENDS ConstraintUniverse
K == INSTANCE KnownData WITH plan <- <<>>, Items <- {1}, Scales <- {1}, MaxShift <- 0, MaxLen <- 0
AnyRay == InDomain => K!AnyRaySuffices(rows, eqs, N)
=============================================================================
