SPECIFICATION GSpec
CONSTANTS Alphabet = {"a", ",", "q", " ", "-", "7"}
 MaxLen = 4
INVARIANT Emit
