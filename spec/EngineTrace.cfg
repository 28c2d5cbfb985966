CONSTANTS FilterOf <- CachedFilter
          TextOf <- CachedText
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
