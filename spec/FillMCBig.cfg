SPECIFICATION Spec
CONSTANTS B = 2
          AnyCell = TRUE
          FirstRows <- OnePerm
INVARIANTS NothingLost NeverExhausted ResultValid
PROPERTY Terminates
CHECK_DEADLOCK FALSE
