SPECIFICATION TSpec
INVARIANT Done
CONSTANTS
    S0 <- TrS0
    Apply <- TrApply
    Clauses <- TrClauses
