SPECIFICATION CacheSpec
INVARIANT Coherent
