SPECIFICATION Spec
CONSTANTS
  MaxTokens = 3
  MaxPieces = 2
INVARIANTS RoundTrip ConstRendersItself
CHECK_DEADLOCK FALSE
