SPECIFICATION Spec
CONSTANTS Steps = 28
          Deterministic = TRUE
INVARIANT Typed
CHECK_DEADLOCK FALSE
