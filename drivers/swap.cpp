// Values of many types swapped in place (datas/endian.hpp)
#include "common.hpp"
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include "datas/vectors_simd.hpp"
#include <functional>
#include <map>
#include <memory>
using namespace drv;

static std::vector<int> way;
enum class E2 : uint16 { a };
enum class E4 : int32 { a };
enum class E8 : uint64 { a };
#pragma pack(push, 1)
struct Plain { // swaps all members
  uint16 a; float b; uint64 c[2]; E2 d; int32 e;
  void SwapEndian() { FByteswapper(a); FByteswapper(b); FByteswapper(c); FByteswapper(d); FByteswapper(e); }
};
struct Tag { // one member stays as it is
  uint8 kind; uint32 v; uint8 rest[3];
  void SwapEndian() { FByteswapper(v); }
};
struct Way { // is told the way
  uint32 v; uint8 k; int16 w;
  void SwapEndian(bool out) { way.push_back(out); FByteswapper(v, out); FByteswapper(w, out); }
};
struct Nest {
  Way x; Plain p; Way ys[2]; double z[3]; Tag t[2];
  void SwapEndian(bool out) {
    way.push_back(out);
    FByteswapper(x, out); FByteswapper(p, out); FByteswapper(ys, out); FByteswapper(z, out); FByteswapper(t, out);
  }
};
struct Same { uint8 b[5]; void SwapEndian() {} };
// no swap of its own: one scalar of its size
struct Raw2 { uint8 b[2]; };
struct Raw4 { uint16 a, b; };
struct Raw8 { uint8 a; uint16 b; uint32 c; uint8 d; };
#pragma pack(pop)
struct Derived : Plain {};
union Un { uint32 a; float b; };

struct Any {
  virtual ~Any() {}
  virtual size_t size() = 0;
  virtual unsigned char *p() = 0;
  virtual void swap(bool w, bool dflt) = 0;
  virtual void as(const std::string &e) = 0;
};
template <class T> struct Impl : Any {
  struct alignas(16) { unsigned char g0[16]; T v; unsigned char g1[16]; } s;
  Impl() { memset((void *)&s, 0x6b, sizeof s); }
  ~Impl() {}
  size_t size() override { return sizeof(T); }
  unsigned char *p() override { return reinterpret_cast<unsigned char *>(&s.v); }
  void swap(bool w, bool dflt) override { if (dflt) FByteswapper(s.v); else FByteswapper(s.v, w); }
  void as(const std::string &e) override {
    if (e == "u16") FArraySwapper<uint16>(s.v);
    else if (e == "i16") FArraySwapper<int16>(s.v);
    else if (e == "u32") FArraySwapper<uint32>(s.v);
    else if (e == "f32") FArraySwapper<float>(s.v);
    else if (e == "u64") FArraySwapper<uint64>(s.v);
    else if (e == "f64") FArraySwapper<double>(s.v);
  }
};
typedef std::function<std::unique_ptr<Any>()> mk;
template <class T> mk M() { return [] { return std::unique_ptr<Any>(new Impl<T>()); }; }
#define ARR(k, ...) {k, M<__VA_ARGS__>()}, {k "*1", M<__VA_ARGS__[1]>()}, {k "*3", M<__VA_ARGS__[3]>()}, {k "*5", M<__VA_ARGS__[5]>()}
static const std::map<std::string, mk> types{
    ARR("u16", uint16), ARR("i16", int16), ARR("u32", uint32), ARR("i32", int32), ARR("u64", uint64),
    ARR("i64", int64), ARR("f32", float), ARR("f64", double), ARR("e2", E2), ARR("e4", E4), ARR("e8", E8),
    ARR("c16", char16_t), ARR("c32", char32_t), ARR("wc", wchar_t), ARR("sz", size_t), ARR("long", long),
    ARR("plain", Plain), ARR("tag", Tag), ARR("way", Way), ARR("nest", Nest), ARR("same", Same),
    ARR("raw2", Raw2), ARR("raw4", Raw4), ARR("raw8", Raw8), ARR("derived", Derived), ARR("union", Un),
    ARR("v2", Vector2), ARR("v3", Vector), ARR("v4", Vector4), ARR("sv2", SVector2), ARR("usv3", USVector),
    ARR("sv4", SVector4), ARR("uiv3", UIVector), ARR("iv2", IVector2), ARR("iv4", IVector4), ARR("cv2", CVector2),
    ARR("ucv3", UCVector), ARR("ucv4", UCVector4), ARR("d3", t_Vector<double>), ARR("l4", t_Vector4<int64>),
    ARR("v4s", Vector4A16), ARR("iv4s", IVector4A16), ARR("uiv4s", UIVector4A16), ARR("m44", esMatrix44)};

int main() {
  std::unique_ptr<Any> v;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      v.reset();
      way.clear();
    } else if (op == "set") {
      v = types.at(l.word())();
      bytes b = l.hex();
      o.i("size", (long long)v->size());
      memcpy(v->p(), b.data(), std::min(b.size(), v->size()));
      way.clear();
    } else if (op == "swap") {
      int w = (int)l.num();
      v->swap(w == 1, w == 2);
    } else if (op == "as")
      v->as(l.word());
    bool ok = true;
    if (v)
      for (int i = 1; i <= 16; i++) // nothing around the value is touched
        ok = ok && v->p()[-i] == 0x6b && v->p()[v->size() + i - 1] == 0x6b;
    o.i("ok", ok);
    o.raw("mem", v ? jbytes(v->p(), v->size()) : "[]");
    std::string w = "[";
    for (size_t i = 0; i < way.size(); i++)
      w += std::string(i ? "," : "") + (way[i] ? "true" : "false");
    o.raw("log", w + "]");
  });
}
