HEAD = """
# Design

Written by tools/design.py from properties.jsonl, known_findings.txt, seeded/ and
tools/design_parts.py.

## Language and approach

The specifications are written in **TLA+** and checked with **TLC**. The components of this library
are byte-exact data transformers and small protocols between threads. TLC evaluates sequences of
bytes and records directly, reads recorded executions (`Json`, `IOUtils` of the CommunityModules)
and decides whether they are behaviours, and explores scaled-down state spaces exhaustively. So one
language and one tool serve the exhaustive bounded checks, the generation of behaviours and the
validation of what the real code did. Quint was tried on paper only: its type checker is
attractive, but the specifications here are mostly recursive functions over byte sequences, which
Apalache unrolls badly, and reading recorded traces back into a Quint specification needs
generated code per trace.

Every component X has

- `spec/X.tla`: state and transitions (or, for pure transformers, the function of the input to the
  result, used as the transition relation of a history of calls);
- `spec/X_MC.tla` + cfg: the system closed with an environment, within small bounds, and
  invariants and action properties that *are* the laws of the property (round trips, nothing lost,
  no two places the same, order kept, termination under fairness ...). TLC explores all of it.
  This shows that the specification says what the property says, independently of the code;
- `spec/X_Trace.tla`: the trace specification. A recorded execution of the real code (one JSON
  record per call with its arguments and results) is replayed; each record has to be a step of X
  with these results. `TraceBase.tla` reports the first record that is not, with what was
  expected (`MISMATCH`), and the check prints `VIOLATION property=... replay=...` with a file that
  replays the session;
- `drivers/x.cpp`: a small interpreter of commands over the *public API* of the library, compiled
  from /repo's working tree on every run, which prints those records. It holds no oracle.
- `comps/cNN.py`: generates sessions of commands (seeded by VERIF_SEED, exhaustive where small),
  runs driver and TLC in parallel chunks, and writes evidence.

`spec/X_Gen.tla` (C01, C14) lets TLC generate behaviours, which are replayed into the code; for
the others the generator is a Python program since inputs are data, not schedules; the
specification still decides every result.

A session that dies (signal, sanitizer-less crash, unexpected exception) or never ends is a
violation as well, as the specification has no such step. A driver that no longer compiles with
headers that do compile is a violation of a property whose text says the operation exists
(`usable`); a repository whose headers do not compile on their own gives no verdict.

Nothing depends on how the code is written: no hooks, no source patterns, no private members. The
drivers use documented public functions, so refactorings stay quiet.

TLC's integers have 32 bits. Words of up to 64 bits are little-endian sequences of bytes
(`Bytes.tla`: arithmetic, comparison, decimal digits), pairs of halves, or scaled; floating point
numbers are triples <<sign, exponent field, fraction>> of their bits or fixed-point numbers chosen
such that every operation asked for is exact.

`python3 check.py ID` is the quick check, `VERIF_TIER=thorough` raises the bounds of the models
and the numbers of sessions (about ten-fold). File system drivers run as an unprivileged user in a
scratch directory made and removed by the check.
"""
P = {}
def D(i, spec, model, bind, cost, why, left=""): P[i] = dict(spec=spec, model=model, bind=bind, cost=cost, why=why, left=left)
D("C01", "Cursor.tla: a byte store with a reader's and a writer's position, origin and saved position; seeks (3 ways), skips, padding, push/pop, origin changes, reads and writes.",
 "Cursor_MC: all histories over stores of up to 3 (quick) or 4 bytes of two values; the store never shrinks, one cursor's operation leaves the other alone, reading changes nothing, padding goes to the next multiple and no further, a pop after a push comes back.",
 "300 (1500) behaviours generated by TLC from Cursor_Gen, 31 steps deep, and seeded random ones over larger streams, on memory streams and on files, and on streams that begin with up to 2^40 zero bytes (a stream buffer of the driver that keeps only what follows; positions in the specification are relative to it); after each call position, size, end and bytes are compared.",
 "quick 45 s.", "tests perform one sequence on one stream.")
D("C02", "TypedIO.tla: a value is a sequence of fields (bytes of scalars); a side with swapped byte order reverses each; containers are prefixed by a count of a chosen type.",
 "TypedIO_MC: two values of up to two fields with every order of either side; what is written comes back, nothing is left over.",
 "random histories of scalars, enums, vectors of all kinds, arrays, strings, containers with 1 to 8 byte counts, both byte orders switched between calls; bytes in the stream, values read, positions.",
 "quick 15 s.", "a mismatch of order and type shows only for particular pairs (arrays of swapped order, one-element arrays).")
D("C03", "Base128.tla: the encoding with parametric group size and number of groups; a word is a function from bits.",
 "Base128_MC: with groups of 2 and 3 bits every word, and every ordered pair, is encoded and decoded: reads back first, nothing left, bounded length.",
 "values at and around every length boundary, signs, all-ones, random; several in one stream; the bytes, lengths and values read.",
 "quick 10 s.", "64 bit boundaries cannot be enumerated by a test; the scaled model shows the scheme has no hole, traces show the code is that scheme.")
D("C04", "Swap.tla: a type is a tree of scalars, arrays, classes with their own swapping (told the way or not) and untouched bytes; swapping maps bytes.",
 "Swap_MC: all types of two levels over scalars of 1, 2, 4 bytes with all bytes different: four swaps in both ways; an involution, a permutation, single bytes unchanged, classes told the right way.",
 "values of 44 types of the library and of classes of the driver, alone and in arrays (stack, std::vector, std::array, es::span), in random histories.",
 "quick 15 s.", "nesting and the way told to classes are combinations a fixed test misses.", "single bytes (refused by an exception), multi-dimensional arrays.")
D("C05", "BitFields.tla: members packed from bit 0 upwards; get, set, byte-swapped layout.",
 "BitFields_MC: every layout of up to four members of a 6 bit storage of two 3 bit bytes, every value: set then get, other members unchanged, conversion of byte order an involution.",
 "layouts generated per seed are compiled with the library: storages of 8 to 64 bits, members of 1 to all bits; random assignments, reads through const and proxies, byte swaps.",
 "quick 40 s (compilation).", "layouts are types: every seed compiles others.", "types of a single member do not compile (language restriction of the class).")
D("C06", "FlagSet.tla: a set of numbers in a word of nb bits, two objects.", "FlagSet_MC: two objects of five flags, all histories; an operation on one leaves the other alone.",
 "seven storage types, random histories of all operators; the word after each.", "quick 12 s.", "flags above 31 in 64 bit words need the right shift type.", "IsPow2(0) is true.")
D("C07", "Reflect.tla: members of every kind (numbers of all sizes, floats, booleans, enums, flags, vectors, strings, nested classes, bit fields, arrays), parsing of text into them with the truncation and refusal rules, addressing by number, name or alias and by item and element.",
 "Reflect_MC: a class with one member of each kind, every text of up to 2 (3) characters into every member: other members and other bits kept, refused text changes nothing, unknown names do nothing, items alone change.",
 "classes generated per seed (members, names, aliases, limits), compiled with the library; random texts (sound, damaged, too long, with blanks, quotes, commas) into members, items and elements; the raw bytes of the whole object after each call.",
 "quick 60 s.", "the space is types x texts; one outside-of-member write is seen only by comparing all bytes.", "class array elements above 255 bytes, 2D arrays, enumerators other than literals.")
D("C08", "Reflect.tla: the text printed for members, typed getters, pairs with alias and description, integer and float setters.",
 "as C07, with RoundTrip: what is printed and stored again gives the same object; Stored: what is read is what has been stored.",
 "classes generated per seed with objects filled with raw bytes, read through all ways of access.", "quick 60 s.", "every raw content of every type; tests use a few texts.")
D("C09", "ReflBin.tla: the saved form (class hash, chunks by member name hash, nested chunks) and loading by name.",
 "ReflBin_MC: every sequence of 3 (6) saves and loads of objects of several versions of a class over one stream; loaded members have the saved values, all others are untouched, each load ends behind its chunk.",
 "classes and versions of them generated per seed; the specification decodes what the library saved and encodes files of foreign versions (unknown members, other order, other sizes), which the library loads; byte order of the stream too.",
 "quick 50 s.", "forward and backward compatibility is a property of pairs of versions.")
D("C10", "ReflXml.tla: the tree saved (two layouts: nodes, attributes), loading, adding to an existing tree, indices of array items in names.",
 "ReflXml_MC: sequences of saves, loads and rewrites with two versions of a class: round trip, a second save changes nothing, shape of the tree.",
 "classes generated per seed, saved to and loaded from its own and random foreign trees (unknown nodes, attributes, items out of range, markup characters).",
 "quick 35 s.", "trees that no save produced are the input that crashed the code.", "strings lose leading blanks on load; limits of double as text; negative item numbers in names.")
D("C11", "ReflDB.tla: a database of classes and enumerations, sections in any order, several databases one behind another.",
 "ReflDB_MC: every sequence of 5 (6) additions, saves and loads of two databases over one stream: nothing a database knows is lost, loaded content equals saved content.",
 "classes and enumerations generated per seed; the bytes saved are decoded by the specification, foreign databases with sections in any order are loaded.", "quick 45 s.", "offsets in the saved form only matter behind other data.")
D("C13", "Printer.tla: messages of threads delivered to sinks whole, once, in one common order; sinks may be added at any time; prefixes of thread and severity.",
 "Printer_MC: 2 (3) threads of two messages, 2 sinks added at any time: Whole, Once, SameOrder, ThreadOrder, Delivered.",
 "up to eight threads and six sinks, slow ones among them, with sinks registered while others print, from two translation units; each sink logs every fragment it receives; TLC decides whether the log is a behaviour (order found by search).",
 "quick 40 s.", "interleavings; a lock taken per sink passes every single-threaded test.")
D("C14", "TaskQueue.tla: tasks handed out in index order to at most min(hw, n) workers; returns when all have ended.",
 "TaskQueue_MC: up to 4 tasks and 0 to 3 hardware threads: at most that many at a time, once per index, all done on return, termination under fairness; MC2: task 0 never ends, the others still run.",
 "TLC enumerates the orders in which tasks can end (TaskQueue_Gen); each is forced on the real code by gates in the task bodies; free-running calls with more tasks; the recorded begin/end log has to be a behaviour. hardware_concurrency is replaced by a function of the driver.",
 "quick 40 s.", "every order of completion instead of the one the scheduler picks.")
D("C15", "ZipVfs.tla: an archive as a sequence of blocks (local entries, directory, ZIP64 records, comments), what it lists, and the protocol of threads that take files out of one stream.",
 "ZipVfs_MC: archives of 3 (4) blocks and two threads taking files step by step (seek and read under the lock): Taken, Right; with Locked = FALSE the model finds the race.",
 "random archives, some of many GB in sparse form through a virtual stream buffer; listing, opening, moving, reading; threads that a slow stream makes overtake each other.", "quick 40 s.", "races of seek and read, offsets above 2 GB.", "truncated archives, empty stored files (not listed).")
D("C16", "FileTree.tla: paths as sequences of names, kinds of entries, what a scan finds, filters, mkdir with its result and permissions, mkdirs.",
 "FileTree_MC: small trees built in every way in 6 (8) steps, scanned from everywhere: the result is closed, sound, complete, typed, each once.",
 "random trees of odd names in a scratch folder by an unprivileged process with few file handles (unreadable folders, sockets, quotes, backslashes, hidden names).", "quick 30 s.", "odd names and kinds.", "symbolic links, file systems that do not tell types; top-level folder names ending in a quote or backslash need a trailing slash.")
D("C17", "PathInfo.tla: where folder, file name and extension of a path begin and end, branches, exploding.",
 "PathInfo_MC: every path of up to 4 (5) characters out of letter, dot, slash, backslash, and every folder: nothing lost, each character where it belongs, exploded parts joined give the path, a branch is caught exactly on whole folder names.",
 "every path of up to five characters and longer random ones, narrow and wide.", "quick 25 s.", "dots in folders, empty parts.")
D("C18", "HybridVec.tla: outside memory regions, vectors linked to parts of them or keeping items themselves; what each operation does to region and link.",
 "HybridVec_MC: two vectors linked to parts of one region through all histories: linked ones show the memory, memory outside of links is never changed, a vector not linked is changed by nobody else.",
 "four vectors over three regions (one constant, on a page that cannot be written) in random histories; memory contents, capacities, numbers of allocations and frees (operator new/delete replaced in the driver).", "quick 11 s.", "ownership after growth, copy, move, swap of linked vectors.", "items that are not trivially copyable; a copy-assigned linked vector may keep its link.")
D("C19", "Pointers.tla: slots with raw offsets become pointers once per thread's record; self relative pointers.",
 "Pointers_MC: two threads walking all graphs of 3 (4) objects: each slot is converted once, to the right place, everything reached is done.",
 "random histories over a block of memory by two threads, pointers of 32 and 64 bits, null, repeated, cleared record.", "quick 7 s.", "shared and circular references, order of conversion.", "a self relative pointer to itself reads null.")
D("C20", "Cipher.tla: xor with a key, Blowfish of both kinds, with tables computed from the hexadecimal digits of pi (PiTable.tla, computed by tools/pi.py, not copied from the code); BlockModes.tla: chaining modes.",
 "BlockModes_MC: every cipher of two bit blocks (all permutations), every mode, vector and short text: decoding gives the text back, same length, injective, errors heal as the mode says, a longer text begins with the shorter one's encoding.",
 "random keys of 1 to 72 bytes, vectors, modes and texts; encrypted bytes and the way back.", "quick 13-24 s.", "the whole cipher is specified, so agreement is bit by bit for any key.", "the vector before one is set; SetKey replaces the vector.")
D("C21", "Elements.tla: handles that own or borrow, lists of objects, default answers.",
 "Elements_MC: all ways of handing on 3 (5) objects between handles and a store: none deleted twice, none lost, none gone while owned.",
 "random histories of Element handles, List, VectorList with owned, shared and plain items; counted constructions and deletions; exceptions of unsupported calls.", "quick 10 s.", "double deletion depends on the history of moves.", "Skeleton/Motion begin/end over a temporary owning list.")
D("C22", "Formats.tla: elements as fields of bits; integers, normalized fractions (rounded as IEEE single precision by integer arithmetic), floats of any width.",
 "Formats_MC: tiny formats of 8 bits: putting together and taking apart, fractions keep order and reach the ends, cutting of fractions to single precision is correct.",
 "all 78 codecs, every value of small ones, boundaries and random of others; the element lies against an unreadable page; rows; codecs both ways.", "quick 11 s.", "reading past the element and low bits mixing are invisible to value tests.", "5-6-5 and 11-11-10 normalized components to the last place of neighbours; 32 bit normalized to 31 bits (pinned by tests).")
D("C23", "StrView.tla: views on texts: find family, compare, substrings, copy, trimming.",
 "StrView_MC: all texts of up to 4 (5), patterns of up to 3 and windows: mirror laws of find and rfind, complements, found at the right place, order, trimming.",
 "all short texts and patterns from every position and random histories of two views, in char, wchar_t, char16_t, char32_t.", "quick 30 s.", "ends of texts, npos, empty views.")
D("C24", "Utf.tla: encoding and decoding of characters in units of 1, 2 and 4 bytes, what is damaged.",
 "Utf_MC: all texts of up to 4 (5) units out of boundary units: round trip, canonical, damaged stays damaged.",
 "sound and damaged texts of all units and all ways of telling them (pointer, string, view), ends included.", "quick 10 s.", "boundaries of lengths and surrogates.", "a text cut within its last character may be refused or lose it.")
D("C25", "Vec.tla: vectors of 2 to 4 components: arithmetic modulo the component size, comparison, shifts, conversion, products, length, clamp, text.",
 "Vec_MC: per component type, all pairs of boundary vectors through operations that undo one another: Within, Laws, Measures, Shifts, Conv.",
 "random vectors of all types (8 to 32 bit integers, float) and both SIMD and scalar classes with all operations.", "quick 48 s.", "types x operations; operations that no test instantiates did not compile.", "division by zero, SIMD float to unsigned above 2^31, negation of unsigned 4-vectors.")
D("C26", "Morton.tla: bits of x and y alternate as far as the shorter side has bits.",
 "Morton_MC: surfaces of sides of up to 3 (4) bits filled pixel by pixel: none twice, within, full, squares within squares, and back.",
 "all pixels of smaller and random pixels of large surfaces of both orientations.", "quick 5 s.", "shape by shape bijection.", "sides below 16 or above 16384.")
D("C27", "Dds.tla: formats by code, masks or number, conversion between ways of telling, level sizes and offsets.",
 "Dds_MC: headers of all 119 formats and small sides through histories of changes: the same format back, forced conversion back, one more level laid behind the other, shape.",
 "random histories of headers of all formats, sides and levels, by raw bytes.", "quick 27 s.", "119 formats x sides x levels.", "A2B10G10R10's missing alpha mask, formats the older way cannot tell, video formats' bits per pixel, sizes above 2 GB.")
D("C29", "Hashes.tla, JenHash.tla: lookup3 and one-at-a-time over words as byte sequences, four character codes, paddings, the fractions of n bits as repeating digits.",
 "Hashes_MC: lookup3 scaled to words of one byte: mixing and finishing are undone step by step (nothing lost), every byte counts, paddings are the smallest multiples, no float is nearer than a fraction.",
 "texts of all lengths up to 60 and random longer ones, at run time and as literals in constant expressions.", "quick 33 s.", "lengths modulo 12, bytes above 127.")
D("C30", "SmallFloat.tla: codes of m mantissa and e exponent bits to and from single precision with rounding as the library states (ties included).",
 "SmallFloat_MC: all codes of formats up to 4 (5) x 4 bits: exact, special values, unique, nearest, monotone.",
 "all codes of half precision and others and single precision numbers at and between them, both ways, and packed 11-11-10.", "quick 18 s.", "subnormals, NaN, ties, overflow: all of them.", "eight exponent bits.")
D("C31", "Xform.tla: rotation, scale, position as matrices and quaternions; products, points, inverse, decomposition, over exact rationals.",
 "Xform_MC: all turns onto axes with scales and positions, chained (thorough: three) and undone: chain of products equals product applied step by step, lengths, handedness, both representations agree, inverse undoes.",
 "all rotations of small whole quaternions and random matrices, within an error bound.", "quick 12 s.", "signs of rotations appear only for particular octants.", "quaternions are told up to sign; scale.W is left.")
D("C34", "Blocks.tla: colour, alpha and channel blocks: ends, ramps, codes; position of block and pixel in the image.",
 "Blocks_MC: images of 2 x 2 blocks drawn in turn with ends out of five and four patterns of codes; ramps of 29 x 29 ends: each pixel from its own block, between the ends, in order, codes packed and unpacked.",
 "random blocks of BC1 to BC5 drawn over one another into images of several shapes, scalar and SIMD.", "quick 11 s.", "ends in either order, opaque and transparent mixes in one image.", "colour order c0<=c1 without alpha; half colours within 2, SIMD decoding within 10.")
D("C33", "XmlFile.tla: a reader and a writer of XML documents under sets of choices (blanks, entities, declarations, comments, fragments, line ends), six encodings with and without a mark, guessing of the encoding, the errors of damaged files and their texts.",
 "XmlFile_MC: documents of up to 3 (4) nodes: RoundTrip (what is written is what is read), Chosen (each choice changes only what it names), Encoded (every encoding reads back), Marked.",
 "random documents written and read under random choices and encodings, damaged files, error texts.", "quick 45 s.", "choices and encodings combined, files cut at any byte; no unit test reads anything but UTF-8.", "node offsets inside error texts; the last character of a fragment file in an ASCII Latin-1 file (lost by the bundled parser).")
D("C35", "Riff.tla: chunks, the header of a sound file and of its samples, loops and cues, the way from one chunk to the next.",
 "Riff_MC: files of up to 3 (4) chunks in any order: Found (each chunk is found if it is there), Whole (sizes add up), Told (no chunk is found that is not there), Kept.",
 "random files of chunks in random order with unknown ones in between, written by the library and by hand; searched and walked.", "quick 53 s.", "orders and repetitions of chunks, headers written and re-read.", "chunks of odd size; computed rates of samples below 8 bits.")
D("C12", "PyWrap.tla: things (bones, tracks, skeletons, motions, lists of them) and Python objects that borrow them, own them or stand for one made for them alone; references, loops, attributes, values at times, what ends with which reference.",
 "PyWrap_MC: a skeleton that is owned, lists made anew, items made anew: references taken and let go in all orders. EndsOnce (what is owned ends exactly with the last reference), OwnedRight, LoopInOrder.",
 "drivers/pyuni.cpp embeds Python 3.12 and uses the objects through the C API (attributes, items, iterators, calls), with C++ objects that report their ends; py2/pyshim.hpp translates the three names Python 3 lacks. Random histories, one complete walk over everything, generated enumerations, and thousands of repetitions whose allocated blocks are counted.", "quick 20 s.", "nothing else compiles this code.", "Python 2's count of references to None (3.12 does not count them), nested loops over one list object (they share their position), items kept beyond the list that owns them, C++ exceptions of calls left to their defaults, rates above 2^31.")
D("C28", "Files.tla: files, who may read or write them, readers and writers with the file they are on, their place and byte order; Errors.tla: texts of errors, characters and numbers of headers.",
 "Files_MC: a reader and writers on two files, opened, moved, used, closed in all orders: Own (a reader reads the file it opened last), Ends (what a writer was given is in the file once it is gone), Alone (no other file changes); all headers of two bytes.",
 "drivers/files.cpp: random histories on real files in a scratch folder as an unprivileged user (files that are missing, forbidden, in folders that do not exist, objects moved and used on), every file compared at the end; errors of random headers, versions and names.", "quick 30 s.", "histories of several objects; the tests open each file once.", "folders opened as files, several writers of one file, origins kept over Open; a header of eight characters without a zero is measured beyond its end (harmless but for sanitizers).")
D("C36", "TestRun.tla: expressions of the language with their meaning, checks, cases, the run of a program step by step and what it prints.",
 "TestRun_MC: all programs of up to 2 (3) cases of up to two of four checks, for several values: Result (number of cases with a failing check), Reported, Told, First (the first failing check is the one told), Quiet, AtOnce; Ends under fairness; opposite checks never agree.",
 "test programs are generated: random expressions written with as few brackets as the language allows, in plain functions, namespaces, classes and templates; 1 to 89 cases, classes and enumerations of 1 to 89 items; run on random values. The text printed is compared line by line.", "quick 30 s.", "expressions of any form; the tests of this repository use the macros only on operands that need no brackets, and never fail.", "NaN operands, expressions with side effects (evaluated twice when a check fails), results of test functions other than 0 and 1.")
D("C32", "Settings.tla on top of Reflect.tla: the help of a class, the header of a log, changes, logs begun, messages.",
 "Settings_MC: two members and a nested class, all orders of changes, logs and messages of 6 (8) steps: Whole (a log holds the values at its beginning and all messages until the next), Grows, Told (different values, different logs), lines of the help.",
 "settings classes are generated (aliases, descriptions, nested classes and arrays of them two levels deep, bit fields, enumerations), compiled, filled, logged and asked for help in a scratch folder as an unprivileged user; the name of a log has to fit a second between call and return.", "quick 25 s.", "classes of every shape, logs begun again, messages of all sizes.", "enumeration values without a name; folders that do not exist.")
PARTS = P
SEEDED = """
## Planted changes

Each is a realistic change that compiles, passes the existing tests and breaks the property, with
a demonstration that fails with it only. They were written from the text of the property; the
checks were run afterwards.
"""
CAUGHT = {}
TAIL = """
## Not addressed

- The 3ds Max part (MAXex) and Windows-only parts cannot be built here.
- Memory safety in general is not a property of its own; crashes, writes outside of objects (C07,
  C18) and reads beyond them (C22) are seen where a property is about them.
- Where the code's choice is arbitrary, or pinned by an existing test, the specification leaves it
  open ("Not covered" above).
"""
