SPECIFICATION Spec
CONSTANTS Steps = 28
          Deterministic = FALSE
INVARIANT Typed
CHECK_DEADLOCK FALSE
