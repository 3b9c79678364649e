SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 66, 46, 92, 50, 53, 54}
  MaxText = 5
  EMIT = FALSE
INVARIANTS AutomatonRuns Agree SameLabels LabelAgrees RoundTrip NameRoundTrip EmitText
CHECK_DEADLOCK FALSE
