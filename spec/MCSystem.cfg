CONSTANTS
 Pool <- MCPool
 Ids = {1, 2, 3}
 Burst = 3
 Sharing = FALSE
 Extras = FALSE
 MaxLog = 0
SPECIFICATION SSpec
INVARIANTS TypeOK Faithful Deterministic Apart ReaderMatters
PROPERTIES Isolated ReaderStable
VIEW SView
CHECK_DEADLOCK FALSE
