SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 46, 92, 50, 53, 54}
  MaxText = 6
  EMIT = FALSE
  MaxLabel <- SmallLabel
  MaxLabels <- SmallLabels
  MaxName <- SmallName
INVARIANTS AutomatonRuns Agree SameLabels LabelAgrees RoundTrip NameRoundTrip EmitText
CHECK_DEADLOCK FALSE
