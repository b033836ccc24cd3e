SPECIFICATION Spec
INVARIANTS AtMostOnce JoinSeesEnd DeadAfterJoin
PROPERTY RunsIfStarted
CHECK_DEADLOCK FALSE
