// Small floating point numbers
#include "common.hpp"
#include "datas/float.hpp"
using namespace drv;
static std::string triple(float f) {
  uint32 b;
  memcpy(&b, &f, 4);
  return "[" + std::to_string(b >> 31) + "," + std::to_string((b >> 23) & 255) + "," + std::to_string(b & 0x7fffff) + "]";
}
static float mkfloat(uint32 s, uint32 x, uint32 f) {
  uint32 b = s << 31 | x << 23 | f;
  float r;
  memcpy(&r, &b, 4);
  return r;
}
template <class C> void codes(size_t from, size_t n, Out &o) {
  std::vector<std::string> one, four;
  std::vector<long long> bone, bfour;
  for (size_t i = 0; i < n; i += 4) {
    IVector4A16 in((int)(from + i), (int)(from + i + 1), (int)(from + i + 2), (int)(from + i + 3));
    Vector4A16 v = C::ToVector4(in);
    Vector4A16 w;
    for (size_t k = 0; k < 4; k++) {
      float f = C::ToFloat(from + i + k);
      one.push_back(triple(f));
      four.push_back(triple(v._arr[k]));
      bone.push_back((long long)C::FromFloat(f));
      w._arr[k] = f;
    }
    IVector4A16 b = C::FromVector4(w);
    for (size_t k = 0; k < 4; k++)
      bfour.push_back((uint32)b._arr[k]);
  }
  o.raw("one", jlist(one)).raw("four", jlist(four)).raw("bone", jints(bone)).raw("bfour", jints(bfour));
}
template <class C> void enc(Line &l, Out &o) {
  std::vector<long long> one, four;
  while (l.more()) {
    Vector4A16 w;
    for (int k = 0; k < 4; k++) {
      uint32 s = (uint32)l.num(), x = (uint32)l.num(), f = (uint32)l.num();
      w._arr[k] = mkfloat(s, x, f);
      one.push_back((long long)C::FromFloat(w._arr[k]));
    }
    IVector4A16 b = C::FromVector4(w);
    for (int k = 0; k < 4; k++)
      four.push_back((uint32)b._arr[k]);
  }
  o.raw("one", jints(one)).raw("four", jints(four));
}
#define FMTS(F) F("h", float16) F("10.5.1", esFloat<10, 5, true>) F("6.5.0", esFloat<6, 5, false>) F("5.5.0", esFloat<5, 5, false>) \
  F("5.5.1", esFloat<5, 5, true>) F("2.5.1", esFloat<2, 5, true>) F("3.4.1", esFloat<3, 4, true>) F("12.6.0", esFloat<12, 6, false>) \
  F("8.7.1", esFloat<8, 7, true>) F("10.5.0", esFloat<10, 5, false>) F("4.3.0", esFloat<4, 3, false>)
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "codes") {
      std::string t = l.word();
      size_t from = (size_t)l.num(), n = (size_t)l.num();
#define X(k, ...) if (t == k) codes<__VA_ARGS__>(from, n, o);
      FMTS(X)
#undef X
    } else if (op == "enc") {
      std::string t = l.word();
#define X(k, ...) if (t == k) enc<__VA_ARGS__>(l, o);
      FMTS(X)
    } else if (op == "pack") {
      VectorR11G11B10_UFLOAT p;
      uint32 hi = (uint32)l.num();
      p.data = hi << 16 | (uint32)l.num();
      Vector4A16 v = p;
      o.raw("out", jlist({triple(v.X), triple(v.Y), triple(v.Z), triple(v.W)}));
    }
  });
}
