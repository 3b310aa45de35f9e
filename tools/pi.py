# hexadecimal digits of pi (Machin), independent of the library's tables
N=(18+1024)*32
prec=N+64
def arctan_inv(x):
    s=t=(1<<prec)//x; n=1; sg=1
    x2=x*x
    while t:
        t//=x2; n+=2; sg=-sg
        s+=sg*(t//n)
    return s
pi=4*(4*arctan_inv(5)-arctan_inv(239))
frac=pi-(3<<prec)
words=[(frac>>(prec-32*(i+1)))&0xffffffff for i in range(18+1024)]
assert words[0]==0x243f6a88 and words[17]==0x8979fb1b and words[18]==0xd1310ba6 and words[-1]==0x3ac372e6,[hex(w) for w in (words[0],words[-1])]
def tab(name,ws):
    lines=["  "+", ".join("<<%d,%d>>"%(w>>16,w&0xffff) for w in ws[i:i+8]) for i in range(0,len(ws),8)]
    return name+" == <<\n"+",\n".join(lines)+" >>\n"
open('/verif/spec/PiTable.tla','w').write("------------------------------ MODULE PiTable ------------------------------\n(* The fraction of pi in words of 32 bits, each as its upper and lower half;    *)\n(* computed from Machin's formula by tools/pi.py, not taken from the library.   *)\nLOCAL INSTANCE Integers\n"+tab("PiP",words[:18])+tab("PiS",words[18:])+"=============================================================================\n")
