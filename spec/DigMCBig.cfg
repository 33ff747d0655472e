SPECIFICATION Spec
CONSTANTS B = 2
          Sources <- SomeSources
          Syms <- Symmetries
INVARIANTS Sound Untouched Minimal SymmetricResult
CHECK_DEADLOCK FALSE
