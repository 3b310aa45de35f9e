// Places of pixels in swizzled surfaces
#include "common.hpp"
#include "formats/addr_ps3.hpp"
using namespace drv;
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset")
      return;
    size_t w = (size_t)l.num(), h = (size_t)l.num();
    const MortonSettings s(size_t(1) << w, size_t(1) << h);
    if (op == "points") {
      std::vector<long long> out;
      while (l.more()) {
        size_t x = (size_t)l.num(), y = (size_t)l.num();
        out.push_back((long long)MortonAddr(x, y, s));
      }
      o.raw("out", jints(out));
    } else if (op == "rows") {
      size_t from = (size_t)l.num(), n = (size_t)l.num();
      std::vector<std::string> rows;
      for (size_t y = from; y < from + n; y++) {
        std::vector<long long> r;
        for (size_t x = 0; x < (size_t(1) << w); x++)
          r.push_back((long long)MortonAddr(x, y, s));
        rows.push_back(jints(r));
      }
      o.raw("out", jlist(rows));
    }
  });
}
