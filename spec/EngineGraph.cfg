CONSTANTS FilterOf <- CachedFilter
          TextOf <- CachedText
INIT Init
NEXT Next
INVARIANTS ViewIsFaithful OneDestPerKey AddDeleteIsNeutral ProbesOk
CHECK_DEADLOCK FALSE
