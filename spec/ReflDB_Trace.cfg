SPECIFICATION TSpec
CONSTANT NameHash <- Hashed
POSTCONDITION Accepted

