SPECIFICATION TSpec
INVARIANTS RefIntegrity StateBijection
