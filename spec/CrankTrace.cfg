SPECIFICATION CSpec
CONSTANTS
  S <- TraceS
  NSlots <- TNSlots
  FPOne <- TFPOne
  FeeDen <- TFeeDen
  FeeK <- TFeeK
  SrmSteps <- TSrmSteps
  TierMsrm = 6
  TierStable = 7
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
