------------------------- MODULE KnownFacetsSuffice -------------------------
EXTENDS GeneratorUniverse
K == INSTANCE KnownData WITH plan <- <<>>, Items <- {1}, Scales <- {1}, MaxShift <- 0, MaxLen <- 0
AnyFacet == verts # <<>> => K!AnyFacetSuffices(Gens)
=============================================================================
