#include "common.hpp"
#include "datas/base_128.hpp"
#include <sstream>
using namespace drv;

int main() {
  std::stringstream *ss = new std::stringstream();
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      delete ss;
      ss = new std::stringstream(std::ios::in | std::ios::out | std::ios::binary);
      o.i("ok", 1);
      return;
    }
    if (op == "w") {
      int sg = (int)l.num();
      bytes v = l.hex();
      size_t before = ss->str().size();
      BinWritterRef wr(*ss);
      if (sg)
        wr.Write(bint128(from<int64>(v)));
      else
        wr.Write(buint128(from<uint64>(v)));
      std::string all = ss->str();
      o.i("ok", ss->good());
      o.str("out", all.substr(std::min(before, all.size())));
      return;
    }
    if (op == "r") {
      int sg = (int)l.num();
      BinReaderRef rd(*ss);
      std::string got, ret;
      if (sg) {
        bint128 v;
        int64 r = v.Read(rd);
        int64 c = v;
        got = jval(c);
        ret = jval(r);
      } else {
        buint128 v;
        uint64 r = v.Read(rd);
        uint64 c = v;
        got = jval(c);
        ret = jval(r);
      }
      bool good = ss->good();
      long long left = (long long)ss->str().size() - (long long)ss->tellg();
      o.i("ok", good).raw("got", got).raw("ret", ret).i("left", left);
      return;
    }
    if (op == "raw") {
      int sg = (int)l.num();
      bytes b = l.hex();
      std::stringstream s2(std::string(b.begin(), b.end()));
      BinReaderRef rd(s2);
      std::string got;
      if (sg) {
        bint128 v = int64(0x5555);
        rd.Read(v);
        int64 c = v;
        got = jval(c);
      } else {
        buint128 v = uint64(0x5555);
        rd.Read(v);
        uint64 c = v;
        got = jval(c);
      }
      o.i("ok", s2.good()).raw("got", got).i("used", (long long)s2.tellg());
    }
  });
}
