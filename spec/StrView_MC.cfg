SPECIFICATION Spec
CONSTANTS
  MaxText = 4
  MaxPat = 3
INVARIANTS Mirrored Complement Found Ordered Trimmed Inside
