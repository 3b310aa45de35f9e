SPECIFICATION Spec
CONSTANTS Grid = 6 MaxLen = 6
INVARIANTS MixBack FinalBack EveryByteCounts PaddingSmallest Powers FractionNearest
CHECK_DEADLOCK FALSE
