INIT Init
NEXT Next
INVARIANTS RoundTrip PrefixOfTag Nested Discriminates Total
CHECK_DEADLOCK FALSE
