SPECIFICATION SSpec
CONSTANTS OpNames = {1, 2, 3}
 MaxVersions = 3
 Size = 12
INVARIANTS MeaningKept NoDuplicates Complete NothingElse
