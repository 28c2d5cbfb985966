SPECIFICATION Spec
INVARIANTS ServesOnlyMade NoMoreMatchesThanEvents OnlyMadeAreAsked LastAnnounced
POSTCONDITION Report
CHECK_DEADLOCK FALSE
