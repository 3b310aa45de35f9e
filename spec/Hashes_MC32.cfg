SPECIFICATION Spec
CONSTANTS Grid = 24 MaxLen = 8
INVARIANTS MixBack FinalBack EveryByteCounts PaddingSmallest Powers FractionNearest
CHECK_DEADLOCK FALSE
