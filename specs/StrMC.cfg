SPECIFICATION Spec
CONSTANTS
  Part = 15
  Alpha = {97, 66}
  MaxLen = 3
  MaxLen2 = 3
CONSTRAINT Bound
INVARIANTS CharsKnown LawsHold
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
VIEW MCView
