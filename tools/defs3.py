import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from newprop import P
TV = "TLC validates the recorded calls, results and object contents against the specification; the specification is model checked exhaustively within small bounds"
P("C09","Binary saved objects load back by member name across class versions",
"A reflected object saved in binary form, nested objects included, loads back equal from a stream of either byte order with the reader left right behind it, also when members were reordered or replaced by others between the class that saved and the class that loads: members are matched by name, unknown ones are skipped and missing ones keep their value. An object or nested object saved with another number of members is reported and skipped as a whole, keeping its values (as do the items behind it in an array), while the other members still load. Data of another class is reported, leaving object and stream position as they were.",
["inputs","configurations"],"all reflected classes, versions of them, object values, byte orders and surrounding stream contents",
"The tests save and load a couple of fixed classes in one byte order; other versions, nesting shapes, misfits and positions are not covered.",
["datas/reflector_io.cpp","datas/reflector_io.hpp"],
[("saving and chunk sizes","ReflectorBinUtil::Save"),("matching by name hash","ReflectorBinUtil::Load")],
["ReflectorBinUtil::Save","ReflectorBinUtil::Load","every byte of stream and object"],
"classes and versions of them generated per seed are compiled with the library; saved bytes are decoded, and files of foreign versions encoded, by the specification; "+TV,
"Classes whose top level is a bit field are not supported by the library. Files are well formed or misfit as described; truncated files are not covered.")
P("C11","Class and enumeration databases load back as they were saved",
"A database of reflected classes and enumerations describes each by exactly what was declared - hash, name, members with their types, names, aliases, alias hashes and descriptions, enumerators with their values - and, saved anywhere in a stream, loads back describing the same, replacing whatever the loading database held and leaving other databases, earlier stream contents and the saved one alone; the reader ends right behind it. A loaded database can be extended and saved again. Data that is not such a database, or of a newer version, is reported as such and changes nothing.",
["inputs","histories"],"all databases of reflected classes and enumerations, places in a stream, and sequences of additions, saves and loads",
"The tests save and load one fixed pair of databases at the start of a stream; missing parts, empty texts, other section orders, repeated loads and misfits are not covered.",
["datas/reflector_io.cpp","datas/reflector_io.hpp","datas/internal/reflector_class_reg.hpp","datas/internal/reflector_enum_reg.hpp"],
[("fixups of places","ReflectorIO::Save"),("places turned into pointers","ReflectorIO::Load"),("declared values","_REnumInitializer")],
["ReflectorIO::Save","ReflectorIO::Load","Classes()","Enums()"],
"classes and enumerations generated per seed and foreign databases with sections in any order; saved bytes are decoded by the specification; "+TV,
"Little endian databases only, as the library has no other. Truncated or corrupt databases are not covered.")
P("C17","Paths split into folder, name, extension and parts without loss",
"Any path, in narrow or wide characters and with either separator, splits so that folder, file name and extension put together are the path again with uniform separators, name and extension holding no separator and the extension beginning at the last dot of the file name; exploding yields the parts between separators in order. Caught into a folder, the path overlaps where its first part is a whole part of the folder, and otherwise only the file name is appended. Loading another path leaves nothing of the former one.",
["inputs","histories"],"all paths, folders and sequences of loaded paths",
"The tests use a few ordinary paths; dots in folders, empty and wide paths, repeated separators and branches that overlap elsewhere are not covered.",
["datas/fileinfo.hpp"],[("places of the last separator and dot","FileInfo::Load"),("parts","FileInfo::Explode"),("branches","FileInfo::CatchBranch")],
["GetFolder","GetFilename","GetExtension","GetFilenameExt","GetFullPathNoExt","GetFullPath","Explode","CatchBranch"],
"every path of up to five characters and many longer ones, narrow and wide; "+TV,
"A dot that is the very first character of a path starts no extension, as in the library. Paths contain no zero characters.")
P("C23","String views answer searches and comparisons like the C++17 string_view",
"A view of a string, of any character type and on any part of a text, is searched, compared, cut, copied and trimmed as the C++17 string_view does: searches give the first or last position that fits and nothing where none does, comparisons order like the texts viewed, copies and parts never exceed what was asked for or is viewed, and positions outside throw. Nothing outside of the view influences an answer, and only moving the view itself changes what it shows.",
["inputs","histories"],"all texts, windows, patterns, positions and counts, and sequences of window moves",
"There is no test of string views; patterns at the ends, sets of characters, limits and positions outside have to be right for all texts.",
["datas/string_view.hpp","datas/internal/string_view.inl","datas/supercore.hpp"],
[("searches","find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of"),("trimming","es::TrimWhitespace")],
["all public members of es::basic_string_view","es::SkipStartWhitespace","es::SkipEndWhitespace","es::TrimWhitespace"],
"all short texts and patterns from every position, and random histories of two views in four character types; "+TV,
"Blanks are spaces, tabs and, where asked for, line feeds.")
P("C16","Scans find exactly the matching files; folders made for paths exist",
"Scanning a folder adds to the result every entry that is not a folder, in it and in all folders below that can be read, exactly once each and under its path, provided its own name contains one of the filters or there is none; scans accumulate until cleared and touch nothing, and a folder that does not exist adds nothing. Every path is told to be a folder, a file, something else or not there, as it is. Making folders for one or many file paths makes all folders of those paths, as far as nothing is in the way, and nothing else.",
["inputs","histories"],"all trees of folders, files and other entries, filters, ways of writing folders, sets of file paths, and sequences of operations",
"There is no test of scanning; odd names, entries of other kinds, unreadable folders, shared parents and leaked folder handles are not covered.",
["datas/directory_scanner.hpp","datas/directory_scanner.cpp","datas/stat.hpp","datas/internal/stat_ix.inl"],
[("recursive scan","DirectoryScanner::Scan"),("kinds","FileType"),("folders of paths","mkdirs")],
["DirectoryScanner","FileType","mkdirs","the whole tree of the scratch folder after every call"],
"random trees of odd names, scanned, filtered and extended in random histories by an unprivileged process with few file handles; "+TV,
"No symbolic links; the file system tells the kinds of its entries; a folder told without a trailing slash does not end in a quote or backslash.")
P("C15","Stored files of ZIP archives are found and read, by many threads at once",
"Opening a ZIP archive, anywhere in a stream, lists every stored file that has content, directories and all other blocks being passed over, the first of equal names counting; files taken out by name hold exactly the bytes stored, however many threads take files at the same time, and keep reading at their place when they are moved. Archives with encrypted, compressed or unnamed content, or an unknown block, are not taken, and names not listed are reported. The blocks of the format read and write without loss.",
["inputs","schedules","histories"],"all well formed archives, places in a stream, interleavings of threads, and sequences of taking, reading and moving files",
"There is no test of archives; interleavings of threads on the one stream, optional fields, comments, and sizes beyond 2 GB have to be right for all archives.",
["datas/zip_vfs.hpp","formats/ZIP.hpp","formats/ZIP_istream.inl","formats/ZIP_ostream.inl"],
[("seek and read under a lock","ZIPVFS::Get"),("blocks","ZIPVFS::ReadEntry"),("moved readers","ZIPVFSFile")],
["ZIPVFS","ZIPVFSFile","Read and Write of the ZIP blocks"],
"threads taking files from the one stream are interleaved exhaustively in the model; random archives, some of many GB, are opened, and taken from by threads that a slow stream makes overtake each other; "+TV,
"Truncated archives are not covered. The interleaving of real threads is forced by delays, not enumerated.")
P("C10","Objects saved in XML trees load back, and XML of any shape is taken by name",
"A reflected object saved in an XML tree - below any node or in a node of its own, in either of the two layouts - adds nodes and attributes there and changes nothing else, and loading from that place gives an object of the class the same members again, also when the tree was written as text in between, whatever characters the values hold. Loading from any tree sets the members named by its nodes and attributes, by name, alias or hash, to what their text says, skips names, items and elements that do not exist, and leaves all other members alone; an object looked up in a node of its own that is not there stays as it was.",
["inputs","histories","configurations"],"all reflected classes, object values, trees and places in them, layouts, and sequences of saves, loads and rewrites",
"The tests save and load fixed classes with harmless text; markup in strings, classes without names, unknown or excess items and shared nodes are not covered.",
["datas/reflector_xml.cpp","datas/reflector_xml.hpp"],
[("layouts","ReflectorXMLUtil::Save"),("attributes and numbered items","ReflectorXMLUtil::LoadV2"),("hash names","MakeHash")],
["ReflectorXMLUtil::Save","ReflectorXMLUtil::SaveV2a","ReflectorXMLUtil::Load","ReflectorXMLUtil::LoadV2","the whole tree and every byte of the objects"],
"sequences of saves, loads and rewrites of versions of a class are explored exhaustively in the model; classes generated per seed are compiled with the library, saved to and loaded from its own and foreign random trees; "+TV,
"Strings lose blanks in front when loaded, and text of blanks only is lost when a tree is written as text, as in the library and in pugixml.")
P("C04","Swapping byte order reverses every scalar in place and nothing else",
"Swapping the byte order of a value reverses the bytes of each of its scalars where they are - integers, floating point numbers, enumerations, items of arrays and vectors - whatever bits they hold; a class that swaps itself is asked to instead, every item of an array once, and is told the direction. Swapping twice restores the value, and nothing outside of it changes. A block swapped as scalars of one type has all whole scalars reversed, and what remains behind them left alone.",
["inputs","configurations"],"all types of scalars, arrays, vectors and nested classes, all bit patterns and sequences of swaps in both directions",
"The test swaps one class and one array with fixed values; other types, nested classes, directions and bit patterns are not covered.",
["datas/endian.hpp","datas/vectors.hpp","datas/matrix44.hpp"],
[("scalars","_fbswap"),("classes asked","fbswap"),("blocks","FArraySwapper"),("vectors","SwapEndian")],
["FByteswapper","FArraySwapper","SwapEndian of vectors and matrices"],
"types are trees, and all of two levels are swapped back and forth in the model; values of 44 types, alone and in arrays, are swapped in random histories; "+TV,
"Single bytes are not swapped alone; the library refuses them.")
P("C29","Text hashes, character codes and paddings follow their definitions",
"The hashes of a text are those of the one-at-a-time algorithm, in the usual wide and in the canonical form, and of lookup3 with any seed, over every byte of the text, whether computed when compiled or at run time and wherever the text lies; hashes compare as their numbers do. A four character code holds its characters in order; the padding of a size is the least amount missing to the alignment, exactly the powers of two are told to be such, and the fraction of a number of bits is the float nearest to one over their largest number.",
["inputs"],"all texts, seeds, numbers and power of two alignments",
"The tests compare a handful of short words; longer texts, lengths of whole blocks and characters above 127 are not covered.",
["datas/jenkinshash.hpp","datas/jenkinshash3.hpp","datas/supercore.hpp"],
[("one-at-a-time","JenkinsHash_"),("blocks and last block","JenkinsHash3_"),("codes","CompileFourCC"),("padding","GetPadding")],
["JenHash","JenHashCannon","JenHash3","JenkinsHash3_","CompileFourCC","GetPadding","IsPow2"],
"mixing and finishing are shown to lose nothing by taking them back in the model, scaled down; texts of all lengths and contents, at run time and as literals; "+TV,
"Powers of two are asked for positive numbers only.")
P("C20","Encoded byte texts decode to what they were, in every mode",
"Encoding a text and decoding it with the same key, mode and vector, or the other way around, gives the text again, whatever its length and bytes; whole blocks are coded, what remains behind them stays, and nothing else changes. Codes are those of the xor with the repeated key and of the Blowfish algorithm, and of its variant with bytes of words reversed, in ECB, CBC, PCBC, CFB and OFB chaining, whatever way the key was given and however the encoder was used before. An encoder is not changed by being used, so that many threads can use it; a key given in a chaining mode comes with a vector, which can be asked for and replaced.",
["inputs","histories","schedules"],"all keys, texts, modes, vectors and sequences of changing and using them",
"There is no test of encoders; modes, key lengths, repeated use and bytes above 127 have to be right for all inputs.",
["datas/encrypt/blowfish.cpp","datas/encrypt/blowfish.h","datas/encrypt/blowfish2.h","datas/encrypt/xorenc.hpp"],
[("chaining","EncodePCBC"),("rounds","EncodeBlock"),("key schedule","BlowfishEncoder::SetKey")],
["Encode","Decode","the modes' own functions","SetKey","Vector"],
"chaining is explored for every cipher of tiny blocks in the model, and the whole of Blowfish, with tables computed from pi, is specified; "+TV,
"Keys are not empty. The xor key is looked at for as long as the encoder is used. Threads are real threads, not enumerated.")
P("C30","Small floating point numbers convert exactly",
"Every code of a small floating point format - half precision and others of up to 12 mantissa and 7 exponent bits, with or without sign - becomes exactly its number: zeros and subnormals with their sign, infinity, and NaN as NaN, alone or four at a time. A single precision number becomes the code of the same number where there is one, otherwise one of the two next to it, beyond the range the greatest one or infinity, with its sign. The packed vector of 11, 11 and 10 bits becomes its three numbers.",
["inputs"],"all codes of the formats and all single precision numbers",
"The tests convert five numbers; subnormals, signs, small and excessive numbers and other formats are not covered.",
["datas/float.hpp"],[("both ways","esFloat::ToVector4"),("encoding","esFloat::FromVector4"),("packed vector","VectorR11G11B10_UFLOAT")],
["esFloat::ToFloat","esFloat::FromFloat","esFloat::ToVector4","esFloat::FromVector4","VectorR11G11B10_UFLOAT"],
"all codes of tiny formats are compared with their numbers in the model; all codes of half precision and others, and single precision numbers at and between them, are converted both ways; "+TV,
"How numbers between two codes are rounded is left open. Numbers below zero have no code in formats without sign and are not asked for.")
P("C26","Pixels of swizzled surfaces each have a place of their own",
"The places of the pixels of a swizzled surface of any power of two sides from 16 on are the numbers from zero up to the number of pixels, each once: the bits of both coordinates alternate as far as the shorter side goes, with what is left of the longer one above, so that every aligned square of pixels lies in one piece.",
["inputs","configurations"],"all pixels of surfaces of power of two sides from 16 to 16384",
"There is no test of it; surfaces wider than high, higher than wide and of large sides have to be right for every pixel.",
["formats/addr_ps3.hpp"],[("masks","MortonSettings::MortonSettings"),("places","MortonAddr")],
["MortonSettings","MortonAddr"],
"surfaces of up to four bits a side are filled pixel by pixel in the model; all pixels of smaller and random pixels of large surfaces are asked for; "+TV,
"Sides are powers of two.")
P("C22","Elements of vertex and pixel formats decode to their components",
"A codec reads the components of an element from its lowest bit on: integers exactly, with or without sign, normalised numbers as the fraction of the greatest positive one to single precision, floating point numbers exactly, missing components as zero. Rows of elements decode as each one alone does, at any stride not below the size of an element and into vectors of any length, and nothing but the elements is read. There are codecs of exactly the listed combinations; calls of the wrong kind and short strides are reported, and change nothing.",
["inputs","configurations","histories"],"all combinations of component types and sizes, all elements, counts, strides and sequences of calls",
"The tests decode one element of each format; other bit patterns, rows, strides, errors and what lies beyond the last element are not covered.",
["uni/format.hpp","uni/internal/format_full.hpp","uni/uni_format.cpp"],
[("rows","_fmtSampler"),("signs","FormatCodec_t<FormatType::INT, cType>"),("codecs","registry")],
["FormatCodec::Get","FormatCodec::GetValue","FormatCodec::Sample"],
"elements of tiny formats are put together and taken apart, and fractions cut, for all components in the model; elements of all 78 codecs, lying against an unreadable page, alone and in rows; "+TV,
"Components of one bit less than their neighbours (of 5,6,5 and 11,11,10 bits) are told to the neighbours' last place, and normalised numbers of 32 bits without sign to 31 bits, as the existing tests have it.")
P("C19","Offsets in memory become pointers once, wherever they are come across",
"Making a pointer of an offset stored in memory makes it lead to that distance from the given beginning, once: null stays null, and what has been made a pointer is told so and stays as it is until the record is cleared, every thread having a record of its own. Pointers, absolute ones and those of 32 bits which keep the distance to themselves, lead to what they were made or assigned to, null included, in all ways of reading them, and nothing else in memory changes.",
["inputs","histories","schedules"],"all offsets, beginnings, graphs of objects and sequences of making, assigning, reading and clearing, by several threads",
"There is no test of pointers; shared and circular objects, offsets backwards, repeated passes and threads are not covered.",
["datas/pointer.hpp"],[("absolute","Pointer_t::Fixup"),("self relative","PointerX86::Fixup"),("record","usedPts")],
["esPointerX64","esPointerX86","Fixup","Fixed","ClearESPointers"],
"two threads walk all graphs of up to four objects in the model; random histories over one block of memory by two threads; "+TV,
"A self relative pointer cannot lead to itself. Offsets which are pointers already are not made pointers again unless recorded.")
P("C18","Vectors linked to outside memory use it, and leave it when they grow",
"A vector linked to outside memory, constant or not, has what lies there for its items and puts its changes there as long as they fit; growing beyond, it takes its items to memory of its own and leaves the outside as it is. Copies are of their own, moved and swapped vectors take the link with them, and whatever happens, outside memory beyond the link does not change and is never freed, and own memory is freed once.",
["inputs","histories"],"all regions, links, items, and sequences of changes, copies, moves, swaps and disposals of several vectors",
"The test links and disposes of one vector; growing, copying, swapping, empty and constant links are not covered.",
["datas/allocator_hybrid.hpp"],[("linking","allocator_hybrid_base::LinkStorage"),("handing out","allocator_hybrid::allocate"),("giving back","allocator_hybrid::deallocate")],
["LinkStorage","DisposeStorage","vectors with allocator_hybrid, outside memory, all memory they take and free"],
"two vectors linked to parts of a region go through all short histories in the model; four vectors over three regions, one of them constant, in random histories; "+TV,
"Items are plain data. A linked vector that is assigned to may keep its link or not.")
P("C21","Handles delete what they own once, and lists give their items in order",
"A handle that owns an object deletes it once, when it is given up, whatever it was moved through or made constant by; one that borrows never does. A list tells and gives its items by their number and when iterated, borrowed, in order and each once, and reports numbers beyond. Calls which a bone, skin, track or motion leaves to their default report a logic error where its type asks for them and a runtime error otherwise; resampled values are added to, multiplied by, or both, component by component.",
["inputs","histories"],"all sequences of making, handing on, borrowing and dropping handles and of changing lists, all types and overridden calls, and values",
"The only tests are of the Python bindings; ownership along chains of moves, errors and iteration have to be right for all histories.",
["uni/common.hpp","uni/list.hpp","uni/list_vector.hpp","uni/virtual_iterator.hpp","uni/internal/exception.hpp","uni/internal/model.inl","uni/internal/motion.inl","uni/internal/skeleton.inl","datas/deleter_hybrid.hpp"],
[("handles","Element"),("lists","VectorList"),("iterating","VirtualIterator"),("defaults","ThrowVoidCall"),("resampling","PrimitiveDescriptor::Resample")],
["Element","ToElement","List","VectorList","PolyVectorList","VirtualIteratorProxy","GetTM, GetValue and FrameRate of classes that do not override them","Resample"],
"all ways of handing on up to five objects are explored in the model; random histories of handles and lists of values, owned, shared and plain items; "+TV,
"Lists are iterated while they exist; iterating a skeleton or motion that gives out a list of its own is not covered.")
P("C24","Text goes between units of one, two and four bytes unchanged",
"Every text of whole characters, converted to UTF-8 from units of two or four bytes and of any kind, or to wide characters and back, consists of the same characters; embedded zeros are kept where the length is told, and end the text where only its beginning is. Ill-formed text is reported; text that ends within a character is reported or loses but that one. Conversions that have nothing to change change nothing, and a request for help is told in each of its four spellings and no other.",
["inputs"],"all texts, well-formed and not, in units of each size",
"There is no test of conversions; characters beyond the first 65536, boundaries, empty and damaged texts have to be right for all inputs.",
["datas/unicode.hpp","datas/tchar.hpp"],[("units of two","_utf8cvt<_Ty, 2>"),("units of four","_utf8cvt<_Ty, 4>"),("wide","ToUTF1632"),("help","IsHelp")],
["es::ToUTF8","es::ToUTF1632","std::to_string","std::to_wstring","ToTSTRING","IsHelp"],
"all texts of up to four units out of those at boundaries are taken apart and put together in the model; texts long and short, sound and damaged, in all units and ways of telling them; "+TV,
"Wide characters have four bytes here.")
P("C27","Texture headers tell formats both ways and where every mip level lies",
"A header takes up the bytes and flags the file format has for it. A pixel format told the older way by code or masks, put the newer way and back, is what it was but for aliases; what cannot be told the other way is reported and changes nothing, and some is only told if differences are said not to matter. Mip levels lie one after another, up to fifteen, each as large as its pixels or whole blocks of them need, and at least one pixel or block in size.",
["inputs","configurations","histories"],"all formats, sides up to 16384, numbers of levels, flags and sequences of changes of a header",
"There is no test of texture headers; sides which are no power of two, narrow and large textures, formats and conversions of each kind are all covered by the model.",
["formats/DDS.hpp"],[("levels","DDS::ComputeBufferSize"),("bits","DDS::ComputeBPP"),("newer","DDS::FromLegacy"),("older","DDS::ToLegacy"),("count","DDS::NumMipmaps")],
["ComputeBufferSize","ComputeBPP","FromLegacy","ToLegacy","NumMipmaps","IsBC","all bytes of the header"],
"headers of all 119 formats and of small sides go through all short histories in the model; random histories of headers of all formats, named and other pixel formats; "+TV,
"Of planes of video formats and pixels of one bit, sizes are not specified, nor are those of two gigabytes and above.")
P("C25","Vectors compute, compare, convert and tell themselves component by component",
"Arithmetic, bits, shifts, products, lengths, conversions and comparisons of vectors of two, three and four components, with vectors or one number, give in each component what the numbers themselves give, and leave operands alone unless assigned to. Floating point vectors are equal where all components are within the tolerance, which each thread sets for itself. Lengthening fills with zero or what is told, shortening keeps the first components, swapping endianness turns around each component, and text tells all components in order.",
["inputs"],"all operations, kinds of numbers, sizes, and values whose results the numbers can hold; wrapped where they are unsigned or smaller than 32 bits",
"The tests take a few values of some types; every kind of number, component, operand form and boundary has to be right, and mistakes in one component only show for vectors that differ there.",
["datas/vectors.hpp","datas/vectors_simd.hpp","datas/vectors_fwd.hpp","datas/vectors_string.hpp","datas/vectors_stream.hpp"],
[("two","t_Vector2"),("three","t_Vector"),("four","V4ScalarType"),("four at once","V4SimdFltType"),("integers at once","V4SimdIntType_t"),("text","to_string")],
["operators","Dot","Cross","Length","Normalize","IsSymetrical","Sign","Convert","SwapEndian","SetEpsilon","QConjugate","QComputeElement","to_string, to_wstring, operator<<"],
"all pairs of vectors of boundary components go through operations that undo one another in the model; random vectors with all operations of all types; "+TV,
"Overflow of signed 32 bit numbers, division by zero, NaNs and negation of unsigned vectors of four are not specified.")
P("C31","Matrices turn, scale, move, combine and come apart as transformations do",
"A matrix made of a quaternion, scale and position consists of exactly that rotation, its rows scaled, and the position; taken apart it yields them again, mirrored ones with all scales negative, and put together again it is the same matrix. Products are those of matrices also if an operand is assigned to or both are one, points are turned by the first three rows, transposing exchanges rows with columns of the three or all four, and swapping endianness turns around each number. The negated matrix undoes rotation and scale, leaving what has no size, and moves back.",
["inputs"],"all rotations, scales, positions and matrices whose numbers can be held",
"Tests check single matrices; the way back to a quaternion has four cases and mirrored and scaled matrices their own, each of which has to be right for all rotations.",
["datas/matrix44.cpp","datas/matrix44.hpp"],[("quaternions","esMatrix44::FromQuat"),("and back","esMatrix44::ToQuat"),("apart","esMatrix44::Decompose"),("undone","esMatrix44::operator-"),("products","esMatrix44::operator*=")],
["FromQuat","ToQuat","Compose","Decompose","operator*","operator*=","unary minus","RotatePoint","Transpose","TransposeFull","SwapEndian"],
"all turns onto axes with scales and positions, chained and undone, are explored in the model; all rotations of small whole-numbered quaternions, and random matrices; "+TV,
"Known finding: the inverse moves back as if rows were columns. Quaternions are told up to their sign. Shear is not covered.")
P("C34","Compressed pixel blocks decode to the pixels their format tells",
"Decoding a block writes the four by four pixels at its place in the image, whatever kind it is of, and nothing else: colours are the two told and those between by the bits of each pixel, within rounding, alpha is that of the block, in full where it has none, and single values are exactly those of the format's ramp. The quicker decoder gives the same colours but for lowest bits. A third component of directions is such that with the other two they have unit length.",
["inputs","histories"],"all blocks of all kinds, drawn in any order over one another in images of any number of blocks",
"There is no test of the decoders; a wrong bit, ramp, stride or byte shows for few blocks and pixels only.",
["formats/BlockDecoder.inl","formats/BlockDecoder.h","formats/BlockDecoderSimd.hpp"],
[("colours","_DecodeBC1Block"),("with alpha","_DecodeBC1BlockA"),("ramps","_DecodeBC4Block"),("alpha of four bits","_DecodeBC2Block"),("quicker","_SDecodeBC1Block"),("directions","ComputeBC5Blue")],
["DecodeBC1Block","DecodeBC1BlockA","DecodeBC2Block","DecodeBC3Block","DecodeBC4Block","DecodeBC5Block","DecodeBC5BlockGA","_SDecodeBC1Block","ComputeBC5Blue","DecodeRGB565Block"],
"images of blocks drawn in turn, codes packed and unpacked, and ramps between many ends are explored in the model; random blocks of all kinds drawn over one another; "+TV,
"Whether blocks without alpha may have three colours is left open. Components are stored blue first.")
P("C35","Headers of sound files lie as in files, and chunks lead to one another",
"Going from chunk to chunk in a RIFF file comes across every chunk once, in order, whatever is in it, and ends where the file ends. New headers tell the sizes without what RIFF leaves out, the bits of the format they are for, and, when samples are of whole bytes, the bytes of a sample and of a second. Numbers of all headers are read where the files have them, loops follow the header they belong to, and only parts of waves are told to be such.",
["inputs"],"all files of chunks of even sizes, and all contents of headers",
"There is no test of these headers.",
["formats/WAVE.hpp","formats/FWSE.hpp","formats/MSF.hpp","formats/VAG.hpp","formats/XVAG.hpp"],
[("from chunk to chunk","WAVEGenericHeader::Next"),("new headers","RIFFHeader, WAVE_fmt, WAVE_data"),("bytes of samples","WAVE_fmt::CalcData"),("loops","WAVE_smpl::GetSampleLoops"),("parts","IsValidWaveChunk")],
["Next","RIFFHeader","WAVE_fmt","CalcData","GetData","GetSampleLoops","IsValidWaveChunk","members of all headers"],
"files grow chunk by chunk and are walked over in the model; random files, with data looking like chunks, and headers; "+TV,
"Chunks of odd sizes are not specified, nor are bytes of samples of less than eight bits.")
P("C33","XML files are read and written as asked, and errors name what went wrong",
"A file read under any choice of what to keep and how to convert, in any encoding told or shown by the file, yields the document these choices make of it, and a document written under any choice of form and encoding is the text these choices make of it, so that it reads back as it was. A file that is missing, has no element, is malformed or cannot be written is told by an error of its own kind that names the file, and what is malformed. Children are collected in order, all or those of a name, and errors of headers, versions, files and nodes tell what they were given.",
["inputs","histories"],"all documents, sets of choices, encodings and sequences of reading and writing",
"The tests read no file and write none; the choices multiply to thousands of combinations.",
["datas/pugiex.hpp","datas/except.hpp"],
[("reading","XMLFromFile"),("writing","XMLToFile"),("choices","XMLParseFlag, XMLFormatFlag, XMLEncoding"),("children","XMLCollectChildren"),("headers","InvalidHeaderError::DecompileFourCC")],
["documents read","bytes of files written","types and texts of errors"],
"small documents are written and read in all ways in the model; random documents, choices and encodings, damaged files among them; "+TV,
"Where a node lies in a file, as errors of nodes tell it, is not specified; reading and writing within the files is done by pugixml 1.14.")
P("C12","Python objects of skeletons and motions answer as what they stand for",
"Python objects of skeletons, bones, motions and tracks answer with what the objects behind them hold: names, numbers, transformations, parents, rates once set, and the values of a track at every time asked for. Their lists tell their length and give items by number and in loops, each once and in order; enumerations give names by position and numbers by name; whatever is asked for wrongly is reported as an error. What a Python object owns ends once, with the last reference to it, what it borrows never does, and nothing stays behind in memory.",
["input","history"],"any skeletons, motions and lists of them, owned, borrowed or made anew for the caller; any order of references taken, loops and references let go",
"Nothing in this repository compiles the bindings, let alone tests them; a reference counted wrongly, or an error not told, ends the interpreter of the user.",
["uni/python/pyskeleton.inl","uni/python/pymotion.inl","uni/python/pylist.hpp","uni/python/pyenum.hpp","uni/python/pyrts.hpp","datas/python/reflected_enum.hpp","datas/python/vectors.hpp","datas/python/matrix44.hpp","datas/pythonex.hpp"],
[("lists","UniPy::List"),("bones and skeletons","UniPy::Bone, UniPy::Skeleton"),("tracks and motions","UniPy::MotionTrack, UniPy::Motion"),("enumerations","UniPy::Enum, ReflectedEnumPy")],
["attributes, items, lengths, loops and calls through the Python C API","errors raised","ends of the objects behind","allocated blocks"],
"references to objects of a small skeleton are taken and let go in all orders in the model; random and complete histories of calls are made through the C API of Python 3.12; "+TV,
"The bindings are written against Python 2 and are compiled for Python 3 with three names translated; the count of None's references, two loops over one list object at a time, items kept longer than the list that owns them, and calls left to their defaults are not covered.")
P("C28","File readers and writers keep their file; errors name what was wrong",
"A reader or writer of a file is that of the file last opened by it, from its start, as long as it lives, also when it was moved or had another file open before. What a writer was given is in the file once the writer is gone or opens another, and nothing else is. A file that cannot be opened is reported by an error that names it, and the errors of headers and versions tell the characters or numbers that were found.",
["input","history"],"any files, names, contents and headers; any order of opening, moving, reading, writing and closing several readers and writers",
"All formats are read and written through these objects; a reader left on another file or a writer that loses its end gives wrong data without any error.",
["datas/binreader.hpp","datas/binwritter.hpp","datas/internal/bincore_file.hpp","datas/except.hpp"],
[("files","BinReader, BinWritter, BinStreamFile::Open_"),("errors","FileNotFoundError, FileInvalidAccessError, InvalidHeaderError, InvalidVersionError, UnexpectedEOS")],
["bytes read","places and sizes told","contents of files","types and texts of errors"],
"readers and writers of two files are opened, moved, used and closed in all orders in the model; random histories on real files and random headers are replayed; "+TV,
"Folders opened as files, several writers of one file at a time, origins kept over opening another file and uses of objects after they were moved, other than opening a file anew, are not specified. Of headers only the characters up to the first zero are told.")
P("C36","Test programs judge expressions as written and report every failing case",
"A test program built from the library's check and case macros runs all its cases, each up to its first failing check, judges every expression as it is written, and results in the number of cases that failed. It prints how many cases there are and how many succeeded, and for every failing case its name and the place, text and values of its first failing check. Programs, reflected classes and enumerations with any number of items up to 89 lose none of them.",
["input","history"],"any expressions and values in checks, any number and order of cases, checks and items up to 89",
"Everything users test with this library, this repository included, rests on these macros: a check that cannot fail or a case that is not counted hides any other defect.",
["datas/unit_testing.hpp","datas/macroLoop.hpp"],
[("checks","TEST_CHECK, TEST_EQUAL, TEST_GT, TEST_LT, TEST_GT_EQ, TEST_LE_EQ, TEST_NOT_CHECK, TEST_NOT_EQUAL, TEST_THROW"),("cases","TEST_FUNC, TEST_CASES"),("loops","VA_NARGS, StaticFor, StaticForArgID")],
["result of the program","lines printed","members and names reflected"],
"all programs of a few cases are run step by step in the model; random programs of random expressions are generated, compiled and run on random values; "+TV,
"Checks on values that are not a number, expressions with side effects and test functions that return other numbers than 0 and 1 are not specified.")
P("C32","Settings are told by their help and kept with all messages in their log",
"A log of settings is a file named after the given name and the current time; it holds that time, the number of threads, every setting under its alias or name with its value at that moment in order, and then every message printed since, once each and in order, until another log of these settings is begun, with nothing of it coloured. The help names the settings and every member of them and of the classes within, one line each and as deep as its class, with its description and, for enumerations, all values. Neither changes the settings.",
["input","history"],"any settings classes, values, names of logs and messages, in any order of changes, logs and messages",
"Logs are what users send to report what went wrong and the help is all they know of the settings; lost lines and wrong values are only noticed then.",
["datas/settings_manager.hpp"],
[("log","SettingsManager::CreateLog"),("help","SettingsManager::GetHelp"),("messages","SettingsManager::printf, MasterPrinterThread")],
["names and contents of log files","text of the help"],
"the log and the help are operators on classes and values, the order of changes, logs and messages is model checked; settings classes are generated, compiled and used; "+TV,
"Values of enumerations without a name are reported as errors by the library, also in the log, and are not used. Folders of logs exist.")
