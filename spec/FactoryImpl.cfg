SPECIFICATION Spec
CONSTANTS
  Kinds = {"List", "SplayTree"}
  Places = 1
  Periods = 1
  Callers = {"c1"}
  Searches = 1
  Outcomes <- SomeOutcomes
  Locked = TRUE
INVARIANTS ServesOnlyMade NoMoreMatchesThanEvents OnlyMadeAreAsked LastAnnounced EachCountedOnce
PROPERTIES Refines
CHECK_DEADLOCK TRUE
