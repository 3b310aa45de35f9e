// Texture headers
#include <memory>
#include "common.hpp"
#include "datas/supercore.hpp"
#include "formats/DDS.hpp"
using namespace drv;
#define NAMES(F) F(DXT1) F(DXT2) F(DXT3) F(DXT4) F(DXT5) F(BC4U) F(BC4S) F(BC5U) F(BC5S) F(UYVY) F(YUY2) F(ATI1) F(ATI2) F(DX10) F(A2B10G10R10) \
  F(A8R8G8B8) F(A1R5G5B5) F(A4R4G4B4) F(A8L8) F(X8R8G8B8) F(G16R16) F(R8G8B8) F(R5G6B5) F(L16) F(L8) F(A8)
static const DDS_PixelFormat &named(const std::string &n) {
#define X(k) if (n == #k) return DDSFormat_##k;
  NAMES(X)
  if (n == "RBGB") return DDSFormat_R8G8_B8G8;
  return DDSFormat_G8R8_G8B8;
}
struct Guarded {
  DDS::Mips m;
  uint32 after[64];
};
int main() {
  auto d = std::make_unique<DDS>();
  d->width = d->height = 0;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset" || op == "new") {
      d = std::make_unique<DDS>();
      d->width = d->height = 0;
    } else if (op == "dims") {
      d->width = (uint32)l.num();
      d->height = (uint32)l.num();
    } else if (op == "fmt") {
      DDS_HeaderDX10 h((DXGI_FORMAT)l.num());
      *d = h;
      *d = DDSFormat_DX10;
    } else if (op == "alpha")
      d->alphaMode = (DDS::AlphaMode)l.num();
    else if (op == "named")
      *d = named(l.word());
    else if (op == "same")
      o.i("is", static_cast<DDS_PixelFormat &>(*d) == named(l.word()));
    else if (op == "pf") {
      bytes b = l.hex();
      memcpy(static_cast<DDS_PixelFormat *>(d.get()), b.data(), 32);
    } else if (op == "set") {
      std::string n = l.word();
      bool v = l.num() == 1;
#define H(k) if (n == #k) d->flags.Set(DDS_Header::Flags_##k, v);
      H(Pitch) H(LinearSize) H(Depth)
#define C(k) if (n == #k) d->caps01.Set(DDS_HeaderEnd::Caps01Flags_CubeMap_##k, v);
      C(PositiveX) C(NegativeX) C(PositiveY) C(NegativeY) C(PositiveZ) C(NegativeZ)
      if (n == "CubeMap") d->caps01.Set(DDS_HeaderEnd::Caps01Flags_CubeMap, v);
      if (n == "Volume") d->caps01.Set(DDS_HeaderEnd::Caps01Flags_Volume, v);
      if (n == "CubeTexture") d->miscFlag.Set(DDS_HeaderDX10::MiscFlag_CubeTexture, v);
    } else if (op == "zero")
      d->bpp = 0;
    else if (op == "nofmt")
      d->dxgiFormat = DXGI_FORMAT_UNKNOWN;
    else if (op == "mips")
      d->NumMipmaps((int)l.num());
    else if (op == "from")
      o.i("r", d->FromLegacy());
    else if (op == "to") {
      int f = (int)l.num();
      o.i("r", f == 2 ? d->ToLegacy() : d->ToLegacy(f == 1));
    } else if (op == "bpp")
      d->ComputeBPP();
    else if (op == "sizes") {
      auto g = std::make_unique<Guarded>();
      memset(g.get(), 0xcd, sizeof(Guarded));
      const DDS &c = *d;
      o.i("total", c.ComputeBufferSize(g->m));
      size_t n = !d->bpp ? 0 : d->mipMapCount ? d->mipMapCount : 1;
      if (n > 15)
        n = 15;
      std::vector<uint32> s(g->m.sizes, g->m.sizes + n), f(g->m.offsets, g->m.offsets + n);
      int beyond = 0;
      for (size_t i = n; i < 15; i++)
        beyond += g->m.sizes[i] != 0xcdcdcdcd || g->m.offsets[i] != 0xcdcdcdcd;
      for (uint32 a : g->after)
        beyond += a != 0xcdcdcdcd;
      o.raw("sizes", jints(s)).raw("offsets", jints(f)).i("beyond", beyond);
    } else if (op == "block") {
      std::vector<int> v;
      for (int i = 0; i < 130; i++)
        v.push_back(IsBC((DXGI_FORMAT)i));
      o.raw("is", jints(v));
    }
    if (op != "reset")
      o.raw("raw", jbytes(d.get(), DDS::DDS_SIZE));
  });
}
