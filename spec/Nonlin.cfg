SPECIFICATION NSpec
INVARIANTS DerivativeIsDerivative TanhFromSigmoid Ranges ExpRule
CHECK_DEADLOCK FALSE
