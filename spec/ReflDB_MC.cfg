SPECIFICATION Spec
CONSTANTS
  NameHash <- Toy
  Steps = 5
CONSTRAINT Small
INVARIANTS Kept Saveable
PROPERTY Loaded

