-------------------------------- MODULE Dds --------------------------------
\* Texture headers: what format the pixels are of, told in the older way (a code, or masks of the components) or the newer one,
\* and where the mip levels lie
EXTENDS Bytes, SequencesExt, TLC
W4(n) == Small(4, n)
Quad(hi, lo) == Small(2, lo) \o Small(2, hi)          \* a word of two halves
Z4 == Zero(4)
\* ----- formats (numbers of the newer way)
Block(f) == f \in 70..84 \/ f \in 94..99
Video == (103..114) \cup (116..118)
Bpp(f) == CASE f = 0 -> 0 [] f \in 1..4 -> 128 [] f \in 5..8 -> 96 [] f \in 9..22 -> 64 [] f \in 23..47 -> 32 [] f \in 48..59 -> 16
            [] f \in 60..65 -> 8 [] f = 66 -> 1 [] f \in 67..69 -> 32 [] f \in 70..72 -> 4 [] f \in 73..78 -> 8 [] f \in 79..81 -> 4
            [] f \in 82..84 -> 8 [] f \in {85, 86} -> 16 [] f \in 87..93 -> 32 [] f \in 94..99 -> 8 [] f \in {100, 101} -> 32
            [] f = 102 -> 64 [] f = 115 -> 16 [] OTHER -> 0
\* ----- pixel formats told the older way: 32 bytes
Pf(flags, code, bpp, r, g, b, a) == W4(32) \o flags \o code \o W4(bpp) \o r \o g \o b \o a
Coded(code, bpp) == Pf(W4(4), code, bpp, Z4, Z4, Z4, Z4)
Fl(set) == FromBits(4, LAMBDA i : IF i \in set THEN 1 ELSE 0)
RGBA == Fl({6, 0})  RGB == Fl({6})  LUM == Fl({17})  LUMA == Fl({17, 0})  ALPHA == Fl({1})
Masks(flags, bpp, r, g, b, a) == Pf(flags, Z4, bpp, r, g, b, a)
Chr(s) == CASE s = "DXT1" -> <<68, 88, 84, 49>> [] s = "DXT2" -> <<68, 88, 84, 50>> [] s = "DXT3" -> <<68, 88, 84, 51>>
            [] s = "DXT4" -> <<68, 88, 84, 52>> [] s = "DXT5" -> <<68, 88, 84, 53>> [] s = "BC4U" -> <<66, 67, 52, 85>>
            [] s = "BC4S" -> <<66, 67, 52, 83>> [] s = "BC5U" -> <<66, 67, 53, 85>> [] s = "BC5S" -> <<66, 67, 53, 83>>
            [] s = "ATI1" -> <<65, 84, 73, 49>> [] s = "ATI2" -> <<65, 84, 73, 50>> [] s = "RBGB" -> <<82, 66, 71, 66>>
            [] s = "GRGB" -> <<71, 82, 71, 66>> [] s = "YUY2" -> <<89, 85, 89, 50>> [] s = "UYVY" -> <<85, 89, 86, 89>>
            [] s = "DX10" -> <<68, 88, 49, 48>>
Code4 == {"DXT1", "BC4U", "BC4S", "ATI1"}                               \* bits of a pixel
Code8 == {"DXT2", "DXT3", "DXT4", "DXT5", "BC5U", "BC5S", "ATI2"}
Code32 == {"RBGB", "GRGB", "YUY2", "UYVY"}
Codes == Code4 \cup Code8 \cup Code32
CodeBpp(s) == IF s \in Code4 THEN 4 ELSE IF s \in Code8 THEN 8 ELSE 32
Num == (36 :> 64) @@ (110 :> 64) @@ (113 :> 64) @@ (115 :> 64) @@ (111 :> 16) @@ (112 :> 32) @@ (114 :> 32) @@ (116 :> 128)
DX10 == Coded(Chr("DX10"), 0)
Named ==                                                             \* every named pixel format
  [n \in Codes |-> Coded(Chr(n), CodeBpp(n))] @@ ("DX10" :> DX10) @@
  ("A2B10G10R10" :> Masks(RGBA, 32, Quad(0, 1023), Quad(15, 64512), Quad(16368, 0), Z4)) @@
  ("A8R8G8B8" :> Masks(RGBA, 32, Quad(255, 0), Quad(0, 65280), Quad(0, 255), Quad(65280, 0))) @@
  ("A1R5G5B5" :> Masks(RGBA, 16, Quad(0, 31744), Quad(0, 992), Quad(0, 31), Quad(0, 32768))) @@
  ("A4R4G4B4" :> Masks(RGBA, 16, Quad(0, 3840), Quad(0, 240), Quad(0, 15), Quad(0, 61440))) @@
  ("A8L8" :> Masks(LUMA, 16, Quad(0, 255), Z4, Z4, Quad(0, 65280))) @@
  ("X8R8G8B8" :> Masks(RGB, 32, Quad(255, 0), Quad(0, 65280), Quad(0, 255), Z4)) @@
  ("G16R16" :> Masks(RGB, 32, Quad(0, 65535), Quad(65535, 0), Z4, Z4)) @@
  ("R8G8B8" :> Masks(RGB, 24, Quad(255, 0), Quad(0, 65280), Quad(0, 255), Z4)) @@
  ("R5G6B5" :> Masks(RGB, 16, Quad(0, 63488), Quad(0, 2016), Quad(0, 31), Z4)) @@
  ("L16" :> Masks(LUM, 16, Quad(0, 65535), Z4, Z4, Z4)) @@
  ("L8" :> Masks(LUM, 8, Quad(0, 255), Z4, Z4, Z4)) @@
  ("A8" :> Masks(ALPHA, 8, Z4, Z4, Z4, Quad(0, 255)))
OtherA8 == Masks(RGBA, 32, Quad(0, 255), Quad(0, 65280), Quad(255, 0), Quad(65280, 0))
OtherX8 == Masks(RGBA, 32, Quad(0, 255), Quad(0, 65280), Quad(255, 0), Z4)
OtherA4 == Masks(RGBA, 16, Quad(0, 15), Quad(0, 240), Quad(0, 3840), Quad(0, 61440))
PfCode(pf) == SubSeq(pf, 9, 12)
PfBpp(pf) == pf[13] + 256 * pf[14]                     \* of those in use here
WithBpp(pf, n) == SubSeq(pf, 1, 12) \o W4(n) \o SubSeq(pf, 17, 32)
\* ----- the newer way from the older one: by code ...
NumFormat == (36 :> 11) @@ (110 :> 13) @@ (111 :> 54) @@ (112 :> 34) @@ (113 :> 10) @@ (114 :> 41) @@ (115 :> 16) @@ (116 :> 2)
CodeFormat == ("DXT1" :> 71) @@ ("DXT2" :> 74) @@ ("DXT3" :> 74) @@ ("DXT4" :> 77) @@ ("DXT5" :> 77) @@ ("BC4U" :> 80) @@ ("ATI1" :> 80) @@
              ("BC4S" :> 81) @@ ("BC5U" :> 83) @@ ("ATI2" :> 83) @@ ("BC5S" :> 84) @@ ("RBGB" :> 68) @@ ("GRGB" :> 69) @@ ("YUY2" :> 107)
ByCode(c) == LET S == {CodeFormat[s] : s \in {s \in DOMAIN CodeFormat : Chr(s) = c}} \cup {NumFormat[n] : n \in {n \in DOMAIN NumFormat : W4(n) = c}}
             IN  IF S = {} THEN -1 ELSE CHOOSE f \in S : TRUE
\* ... or by what the components are
ByMasks(pf) == CASE pf = Named["A2B10G10R10"] -> 24 [] pf = Named["A8R8G8B8"] -> 28 [] pf = Named["G16R16"] -> 35 [] pf = Named["A8"] -> 65
                 [] pf = Named["R5G6B5"] -> 85 [] pf = Named["A1R5G5B5"] -> 86 [] pf = Named["A8L8"] -> 49 [] pf = Named["L16"] -> 56
                 [] pf = Named["L8"] -> 61 [] pf = OtherA8 -> 87 [] pf = OtherX8 -> 88 [] pf = OtherA4 -> 115 [] OTHER -> -1
FormatOf(pf) == LET c == ByCode(PfCode(pf)) IN IF c >= 0 THEN c ELSE ByMasks(pf)
Premultiplied(pf) == PfCode(pf) \in {Chr("DXT2"), Chr("DXT4")}
\* ----- the older way from the newer one; some only if it is said that a difference does not matter
Older(f, alpha) ==
  CASE f \in {NumFormat[n] : n \in DOMAIN NumFormat} -> LET n == CHOOSE n \in DOMAIN NumFormat : NumFormat[n] = f IN Coded(W4(n), Num[n])
    [] f = 24 -> Named["A2B10G10R10"] [] f = 28 -> Named["A8R8G8B8"] [] f = 35 -> Named["G16R16"] [] f = 65 -> Named["A8"]
    [] f = 68 -> Named["RBGB"] [] f = 69 -> Named["GRGB"] [] f = 71 -> Named["DXT1"]
    [] f = 74 -> Named[IF alpha = 2 THEN "DXT2" ELSE "DXT3"] [] f = 77 -> Named[IF alpha = 2 THEN "DXT4" ELSE "DXT5"]
    [] f = 80 -> Named["BC4U"] [] f = 81 -> Named["BC4S"] [] f = 83 -> Named["ATI2"] [] f = 84 -> Named["BC5S"]
    [] f = 85 -> Named["R5G6B5"] [] f = 86 -> Named["A1R5G5B5"] [] f = 107 -> Named["YUY2"] [] OTHER -> <<>>
Forced(f) ==
  CASE f = 29 -> Named["A8R8G8B8"] [] f = 49 -> Named["A8L8"] [] f \in {55, 56} -> Named["L16"] [] f = 61 -> Named["L8"]
    [] f = 72 -> Named["DXT1"] [] f = 75 -> Named["DXT3"] [] f = 78 -> Named["DXT5"] [] f \in {87, 91} -> OtherA8 [] f \in {88, 93} -> OtherX8
    [] f = 115 -> OtherA4 [] OTHER -> <<>>
\* ----- the header: all that can be told by it
Fresh == [w |-> 0, h |-> 0, mips |-> 0, many |-> FALSE, pf |-> Pf(Z4, Z4, 0, Z4, Z4, Z4, Z4), f |-> 0, alpha |-> 0, on |-> {}]
From(x) == LET f == FormatOf(x.pf) IN
  IF f < 0 THEN [r |-> 1, x |-> x]
  ELSE [r |-> 0, x |-> [x EXCEPT !.f = f, !.pf = DX10, !.alpha = IF Premultiplied(x.pf) THEN 2 ELSE @]]
To(x, force) == LET o == Older(x.f, x.alpha)
                    p == IF o # <<>> THEN o ELSE IF force THEN Forced(x.f) ELSE <<>>
                IN  IF p = <<>> THEN [r |-> 1, x |-> x] ELSE [r |-> 0, x |-> [x EXCEPT !.pf = p]]
Mips(x, n) == [x EXCEPT !.mips = n, !.many = n > 1]
CodedBpp(c) == LET S == {CodeBpp(s) : s \in {s \in Codes \ {"UYVY"} : Chr(s) = c}} \cup {Num[n] : n \in {n \in DOMAIN Num : W4(n) = c}}
               IN  IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE
Told(x) == PfBpp(x.pf)
Measure(x) == IF Told(x) # 0 THEN x
              ELSE IF x.pf = DX10 THEN [x EXCEPT !.pf = WithBpp(@, Bpp(x.f))]
              ELSE [x EXCEPT !.pf = WithBpp(@, CodedBpp(PfCode(x.pf)))]
\* what else a header tells: <<where, bit>>
Extras == ("Pitch" :> <<1, 3>>) @@ ("LinearSize" :> <<1, 19>>) @@ ("Depth" :> <<1, 23>>) @@ ("CubeMap" :> <<2, 9>>) @@ ("PositiveX" :> <<2, 10>>) @@
          ("NegativeX" :> <<2, 11>>) @@ ("PositiveY" :> <<2, 12>>) @@ ("NegativeY" :> <<2, 13>>) @@ ("PositiveZ" :> <<2, 14>>) @@
          ("NegativeZ" :> <<2, 15>>) @@ ("Volume" :> <<2, 21>>) @@ ("CubeTexture" :> <<3, 2>>)
On(x, g) == {Extras[n][2] : n \in {n \in x.on : Extras[n][1] = g}}
\* the file: 148 bytes
Bytes148(x) ==
  <<68, 68, 83, 32>> \o W4(124) \o Fl({0, 1, 2, 12} \cup (IF x.many THEN {17} ELSE {}) \cup On(x, 1)) \o W4(x.h) \o W4(x.w) \o Z4 \o W4(1) \o W4(x.mips) \o Zero(44)
  \o x.pf \o Fl({12} \cup (IF x.many THEN {3, 22} ELSE {})) \o Fl(On(x, 2)) \o Zero(12)
  \o W4(x.f) \o W4(3) \o Fl(On(x, 3)) \o W4(1) \o W4(x.alpha)
\* ----- mip levels
MaxMips == 15
Blocked(x) == IF x.f # 0 THEN Block(x.f) ELSE \E s \in Codes \ Code32 : Chr(s) = PfCode(x.pf)
Max2(a, b) == IF a > b THEN a ELSE b
Up4(n) == ((n + 3) \div 4) * 4
Side(n, m) == Max2(1, n \div (2 ^ m))
LevelSize(x, m) ==          \* level m, from 0
  LET w == IF Blocked(x) THEN Up4(Side(x.w, m)) ELSE Side(x.w, m)
      h == IF Blocked(x) THEN Up4(Side(x.h, m)) ELSE Side(x.h, m)
      b == Told(x)
  IN  IF b % 8 = 0 THEN w * h * (b \div 8) ELSE IF b = 4 THEN (w * h + 1) \div 2 ELSE (w * h * b + 7) \div 8
Levels(x) == LET n == Max2(1, x.mips) IN IF Told(x) = 0 THEN 0 ELSE IF n > MaxMips THEN MaxMips ELSE n
Sizes(x) == [m \in 1..Levels(x) |-> LevelSize(x, m - 1)]
Offsets(x) == LET s == Sizes(x) IN FoldLeft(LAMBDA acc, m : Append(acc, IF m = 1 THEN 0 ELSE acc[m - 1] + s[m - 1]), <<>>, [m \in 1..Len(s) |-> m])
Total(x) == FoldLeft(LAMBDA a, b : a + b, 0, Sizes(x))
=============================================================================
