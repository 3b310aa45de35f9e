// Codecs of vertex and pixel formats; their input lies against an unreadable page
#include "common.hpp"
#include "datas/matrix44.hpp"
#include "uni/model.hpp"
#include "uni/rts.hpp"
#include <stdexcept>
#include <sys/mman.h>
using namespace drv;
using namespace uni;
static FormatType ft(const std::string &s) {
  const char *n[] = {"INVALID", "INT", "UINT", "NORM", "UNORM", "FLOAT", "UFLOAT"};
  for (int i = 0; i < 7; i++)
    if (s == n[i])
      return FormatType(i);
  abort();
}
static DataType dt(const std::string &s) {
#define T(x) if (s == #x) return DataType::x;
  T(CUSTOM) T(R32G32B32A32) T(R32G32B32) T(R16G16B16A16) T(R32G32) T(R16G16B16) T(R32) T(R16G16) T(R10G10B10A2) T(R11G11B10)
  T(R8G8B8A8) T(R24G8) T(R8G8B8) T(R8G8) T(R16) T(R5G6B5) T(R5G5B5A1) T(R8)
  abort();
}
static std::string ints(const IVector4A16 &v) {
  std::vector<std::string> r;
  for (int i = 0; i < 4; i++) {
    uint32 u = (uint32)v._arr[i];
    r.push_back("[" + std::to_string(u >> 16) + "," + std::to_string(u & 0xffff) + "]");
  }
  return jlist(r);
}
static std::string nums(const Vector4A16 &v) {
  std::vector<std::string> r;
  for (int i = 0; i < 4; i++) {
    uint32 u;
    float f = v._arr[i];
    memcpy(&u, &f, 4);
    r.push_back("[" + std::to_string(u >> 31) + "," + std::to_string((u >> 23) & 255) + "," + std::to_string(u & 0x7fffff) + "]");
  }
  return jlist(r);
}
static char *area;
struct Stream : PrimitiveDescriptor {
  FormatDescr d;
  Stream(FormatDescr d_) : d(d_) {}
  const char *RawBuffer() const override { return nullptr; }
  size_t Stride() const override { return 0; }
  size_t Offset() const override { return 0; }
  size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Undefined; }
  FormatDescr Type() const override { return d; }
  BBOX UnpackData() const override { return {}; }
  UnpackDataType_e UnpackDataType() const override { return UnpackDataType_e::None; }
};
static const size_t PAGE = 4096, PAGES = 4;
static const char *place(const std::string &where, const bytes &b) {
  memset(area, 0xa5, PAGE * PAGES);
  char *p = where == "end" ? area + PAGE * PAGES - b.size() : area;
  if (b.size())
    memcpy(p, b.data(), b.size());
  return p;
}
int main() {
  char *m = (char *)mmap(nullptr, PAGE * (PAGES + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m, PAGE, PROT_NONE);
  mprotect(m + PAGE * (PAGES + 1), PAGE, PROT_NONE);
  area = m + PAGE;
  FormatCodec::ivec iv;
  FormatCodec::fvec fv;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset") {
      iv.clear();
      fv.clear();
      return;
    }
    if (op == "order") {
      FormatDescr a{FormatType(l.num()), DataType(l.num())};
      FormatDescr b{FormatType(l.num()), DataType(l.num())};
      o.i("eq", a == b).i("lt", a < b).i("gt", b < a);
      return;
    }
    FormatDescr d{ft(l.word()), DataType::CUSTOM};
    d.compType = dt(l.word());
    const FormatCodec *c = nullptr;
    try {
      // also as a vertex stream of that format tells it
      static unsigned turn;
      c = turn++ % 3 ? &FormatCodec::Get(d) : &Stream(d).Codec();
    } catch (const std::out_of_range &) {
    }
    o.i("none", !c);
    if (!c)
      return;
    if (op == "get") {
      std::string where = l.word();
      const char *p = place(where, l.hex());
      IVector4A16 i(77);
      Vector4A16 f(77.f);
      int ie = 0, fe = 0;
      try {
        c->GetValue(i, p);
      } catch (const std::runtime_error &) {
        ie = 1;
      }
      try {
        c->GetValue(f, p);
      } catch (const std::runtime_error &) {
        fe = 1;
      }
      o.i("ierr", ie).i("ferr", fe).raw("ints", ints(i)).raw("nums", nums(f));
    } else if (op == "sample") {
      std::string k = l.word(), where = l.word();
      size_t n = (size_t)l.num(), stride = (size_t)l.num();
      const char *p = place(where, l.hex());
      int err = 0;
      try {
        if (k == "i")
          c->Sample(iv, p, n, stride);
        else
          c->Sample(fv, p, n, stride);
      } catch (const std::runtime_error &) {
        err = 1;
      }
      std::vector<std::string> r;
      if (k == "i")
        for (auto &v : iv)
          r.push_back(ints(v));
      else
        for (auto &v : fv)
          r.push_back(nums(v));
      o.i("err", err).i("len", (long long)r.size()).raw("out", jlist(r));
    }
  });
}
