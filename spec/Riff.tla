-------------------------------- MODULE Riff --------------------------------
(* Headers of sound files: chunks of RIFF files one behind another, each with   *)
(* its name, size and data (formats/WAVE.hpp), and where the numbers of the     *)
(* other headers lie (FWSE, MSF, VAG, XVAG). Everything is little endian.       *)
EXTENDS Bytes, TLC
Nm == [riff |-> <<82, 73, 70, 70>>, wave |-> <<87, 65, 86, 69>>, fmt |-> <<102, 109, 116, 32>>, data |-> <<100, 97, 116, 97>>,
       fact |-> <<102, 97, 99, 116>>, smpl |-> <<115, 109, 112, 108>>]
Known == {Nm.fmt, Nm.data, Nm.fact, Nm.smpl}
Chunk(c) == c.id \o Small(4, Len(c.d)) \o c.d
RECURSIVE Chunks(_)
Chunks(cs) == IF cs = <<>> THEN <<>> ELSE Chunk(Head(cs)) \o Chunks(Tail(cs))
\* a file as large as told, its first chunk holding all others
Begin(size) == Nm.riff \o Sub(size, Small(4, 8)) \o Nm.wave
File(cs) == LET b == Chunks(cs) IN Begin(Small(4, Len(b) + 12)) \o b
\* sizes in files that are not larger than 2 GB
Num(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
IdAt(f, at) == SubSeq(f, at + 1, at + 4)
SizeAt(f, at) == Num(SubSeq(f, at + 5, at + 8))
\* the chunk behind the one at a place; the places of all
Next(f, at) == at + 8 + SizeAt(f, at)
RECURSIVE Walk(_, _)
Walk(f, at) == IF at + 8 > Len(f) THEN <<>> ELSE <<at>> \o Walk(f, Next(f, at))
\* ----- formats of samples
Bits(f) == CASE f = 1 -> 16 [] f \in {2, 17} -> 4 [] f \in {6, 7} -> 8 [] OTHER -> 0
Fmt(f) == Nm.fmt \o Small(4, 16) \o Small(2, f) \o Small(2, 1) \o Zero(10) \o Small(2, Bits(f))
\* bytes of all channels a second and for one sample, when samples are of whole bytes
RECURSIVE Times(_, _)
Times(w, n) == IF n = 0 THEN Zero(4) ELSE IF n % 2 = 1 THEN Add(w, Times(w, n - 1)) ELSE LET h == Times(w, n \div 2) IN Add(h, h)
Calc(b) == LET ch == b[11] + 256 * b[12]  bytes == (b[23] + 256 * b[24]) \div 8  rate == SubSeq(b, 13, 16)
           IN SubSeq(b, 1, 16) \o Times(rate, ch * bytes) \o Small(2, ch * bytes) \o SubSeq(b, 23, 24)
\* ----- where numbers lie: <<first byte, bytes>>
W4(n) == [i \in 1..n |-> <<4 * (i - 1), 4>>]
Places == [
  riff |-> W4(3), fmt |-> W4(2) \o <<<<8, 2>>, <<10, 2>>, <<12, 4>>, <<16, 4>>, <<20, 2>>, <<22, 2>>>>,
  msadpcm |-> W4(2) \o <<<<8, 2>>, <<10, 2>>, <<12, 4>>, <<16, 4>>, <<20, 2>>, <<22, 2>>, <<24, 2>>, <<26, 2>>>>,
  fact |-> W4(3), smpl |-> W4(11), loop |-> W4(6),
  fwse |-> W4(8), msf |-> W4(8), vag |-> W4(5), xvag |-> W4(2) \o <<<<8, 1>>, <<9, 1>>>>, fmat |-> W4(9)]
Total == [riff |-> 12, fmt |-> 24, msadpcm |-> 28, fact |-> 12, smpl |-> 44, loop |-> 24, fwse |-> 1024, msf |-> 64, vag |-> 64, xvag |-> 32, fmat |-> 36]
Fields(kind, b) == [i \in 1..Len(Places[kind]) |-> SubSeq(b, Places[kind][i][1] + 1, Places[kind][i][1] + Places[kind][i][2])]
=============================================================================
