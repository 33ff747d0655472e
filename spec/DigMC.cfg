SPECIFICATION Spec
CONSTANTS B = 2
          Sources <- SomeSources
          Syms <- WithSymmetry
INVARIANTS Sound Untouched Minimal SymmetricResult
CHECK_DEADLOCK FALSE
