import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from newprop import P
TV = "TLC validates the recorded calls, results and object contents against the specification; the specification is model checked exhaustively within small bounds"
P("C07","Text stored into a member of a reflected object arrives as that value",
"Storing text into a member of a reflected object - addressed by position, name or alias, and for arrays, vectors and flags also by item, element or flag - stores the value the text denotes: numbers out of range are stored as the nearest value the member can hold and reported, a minus on an unsigned member wraps and is reported, enumerators and flags are found by name, arrays and vectors are filled in order. Text of the wrong form, and addresses that do not exist, are reported and leave every member as it was (a boolean becomes false; array items before a missing or surplus one, and flags that were recognised, are stored). Nothing but the addressed member is ever changed.",
["inputs","configurations","histories"],"all reflected classes, members, addresses and texts, and all sequences of calls",
"The tests use one class and a few texts per type; widths, positions, nesting, boundaries and what a call must not touch are not covered.",
["datas/reflector.cpp","datas/reflector.hpp","datas/internal/reflector.inl","datas/internal/reflector_class.hpp","datas/internal/reflector_type.hpp"],
[("parsers per kind of member","SetReflectedMember"),("array and vector splitting","SetReflectedArray"),("addressing","GetReflectedType")],
["SetReflectedValue","every byte of the object"],
"classes generated per seed are compiled with the library and driven with generated texts; "+TV,
"The generated classes cover all member kinds, alone, in arrays and nested; the texts hit all limits of all widths. Arrays of arrays are not covered.")
P("C08","Reflected members read alike by every path, and their text restores them",
"Every member of a reflected object reads as the text of its current value whichever way it is reached: by position, name or alias, by item, element or flag, as a name/value pair, through its enclosing object or through a numeric setter. Text read from a number, truth value, known enumerator or known flags, stored back, restores the value exactly (floating point numbers to the printed digits), and reading never changes the object. Positions, names and numbers that do not exist read as nothing.",
["inputs","configurations","histories"],"all reflected classes, member values and read paths",
"The tests read back a handful of values by name; most paths, all boundaries and unnamed or aliased members are not read.",
["datas/reflector.cpp","datas/reflector.hpp","datas/internal/reflector.inl","datas/internal/reflector_class.hpp","datas/internal/reflector_type.hpp"],
[("printers per kind of member","GetReflectedPrimitive"),("paths","datas/internal/reflector.inl")],
["GetReflectedValue","GetReflectedPair","GetReflectedSubClass","SetReflectedValueInt/UInt/Float"],
"classes generated per seed, objects filled with raw values and read by every path; "+TV,
"Exact text of floating point values is specified for multiples of 1/16; any other value is checked for stability and closeness of its text.")
