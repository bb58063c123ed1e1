CONSTANT Side = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OrientLaws CircleLaws SegmentLaws TriLaws IntersectionLaws
