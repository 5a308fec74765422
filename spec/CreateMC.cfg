SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS SoundInv OnceOnly NoDefective Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
