SPECIFICATION Spec
CONSTANTS B = 2
          AnyCell = FALSE
          FirstRows <- OnePrefix
INVARIANTS NothingLost NeverExhausted ResultValid
PROPERTY Terminates
CHECK_DEADLOCK FALSE
