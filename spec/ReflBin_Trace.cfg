SPECIFICATION TSpec
CONSTANT NameHash <- Wide
POSTCONDITION Accepted
