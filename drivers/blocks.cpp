// Compressed blocks of pixels
#include "common.hpp"
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"
using namespace drv;
int main() {
  std::string kind;
  std::vector<char> mem;
  uint32 w = 0;
  const size_t PAD = 64;
  bool spill = false;
  auto give = [&](Out &o) {
    for (size_t i = 0; i < PAD; i++)
      if (mem[i] != 0x5a || mem[mem.size() - 1 - i] != 0x5a)
        spill = true;
    o.i("ok", !spill).raw("img", jbytes(mem.data() + PAD, mem.size() - 2 * PAD));
  };
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      spill = false;
      o.i("ok", 1);
    } else if (op == "image") {
      kind = l.word();
      w = (uint32)l.num();
      uint32 h = (uint32)l.num();
      auto fill = l.hex();
      mem.assign(fill.size() + 2 * PAD, 0x5a);
      std::copy(fill.begin(), fill.end(), mem.begin() + PAD);
      (void)h;
      give(o);
    } else if (op == "draw") {
      uint32 x = (uint32)l.num(), y = (uint32)l.num();
      auto s = l.hex();
      std::vector<char> data(s.begin(), s.end()); // of just their size
      char *out = mem.data() + PAD;
      const char *d = data.data();
      if (kind == "bc1") DecodeBC1Block(d, out, x, y, w);
      else if (kind == "bc1a") DecodeBC1BlockA(d, out, x, y, w);
      else if (kind == "bc2") DecodeBC2Block(d, out, x, y, w);
      else if (kind == "bc3") DecodeBC3Block(d, out, x, y, w);
      else if (kind == "bc4") DecodeBC4Block(d, out, x, y, w);
      else if (kind == "bc5") DecodeBC5Block(d, out, x, y, w);
      else if (kind == "bc5ga") DecodeBC5BlockGA(d, out, x, y, w);
      else if (kind == "sbc1") _SDecodeBC1Block(d, out, x, y, w);
      give(o);
    } else if (op == "blue") {
      auto s = l.hex();
      std::vector<char> b(s.begin(), s.end());
      ComputeBC5Blue(b.data(), (uint32)b.size());
      o.i("ok", 1).raw("out", jbytes(b.data(), b.size()));
    } else if (op == "unpack") {
      uint16 c = (uint16)l.num();
      Vector v(9);
      DecodeRGB565Block(reinterpret_cast<const char *>(&c), v);
      o.i("ok", 1).raw("out", jints(std::vector<long long>{llround(v.X * 10000), llround(v.Y * 10000), llround(v.Z * 10000)}));
    }
  });
}
