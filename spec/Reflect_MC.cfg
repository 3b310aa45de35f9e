SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Deep = 3
INVARIANTS OthersKeep BitsKeep RefusedKeeps Unknown Addressing Stored RoundTrip ItemAlone
