SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = 4
INVARIANTS OthersKeep BitsKeep RefusedKeeps Unknown Addressing Stored RoundTrip ItemAlone
