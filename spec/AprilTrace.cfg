SPECIFICATION Spec
CONSTANT Progs <- ProgsDef
CONSTANT Grain = 200
INVARIANT InvFinally
INVARIANT InvFrames
INVARIANT InvValues
INVARIANT InvDone
CHECK_DEADLOCK FALSE
