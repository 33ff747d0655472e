SPECIFICATION Spec
CONSTANTS Steps = 36
          Callers = 3
INVARIANT Typed
CHECK_DEADLOCK FALSE
