SPECIFICATION Spec
CONSTANT B = 3
INVARIANTS SizeRight Partition Distinct Intersections Agree PeersRight
CHECK_DEADLOCK FALSE
