SPECIFICATION Spec
CONSTANTS
  MaxText = 5
  MaxPat = 3
INVARIANTS Mirrored Complement Found Ordered Trimmed Inside
