#include "reflect_common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector_io.hpp"
#include "classes.inc"

int main() {
  RegisterAll();
  std::unique_ptr<Any> c[3];
  std::unique_ptr<std::stringstream> ss;
  BinReaderRef rd;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      for (auto &x : c) {
        int i = static_cast<int>(l.num());
        x.reset(MakeClass(i, static_cast<int>(l.num())));
      }
      ss.reset(new std::stringstream(std::ios::in | std::ios::out | std::ios::binary));
      rd = BinReaderRef(*ss);
    } else if (op == "raw") {
      int s = static_cast<int>(l.num());
      int f = static_cast<int>(l.num());
      c[s]->load(f, l.hex());
    } else if (op == "bytes") {
      ss->seekp(0, std::ios::end);
      std::string b = l.str();
      ss->write(b.data(), static_cast<std::streamsize>(b.size()));
    } else if (op == "save") {
      int s = static_cast<int>(l.num());
      size_t at = ss->str().size();
      ss->seekp(0, std::ios::end);
      BinWritterRef wr(*ss);
      wr.SwapEndian(l.num() != 0);
      const Reflector &cr = c[s]->refl();
      o.i("rc", ReflectorBinUtil::Save(cr, wr));
      o.str("out", ss->str().substr(at));
    } else if (op == "load") {
      int s = static_cast<int>(l.num());
      rd.SwapEndian(l.num() != 0);
      o.i("rc", ReflectorBinUtil::Load(c[s]->refl(), rd));
      o.i("pos", static_cast<long long>(rd.Tell()));
    }
    bool ok = !ss->fail();
    std::string v = "[";
    for (auto &x : c) {
      ok = ok && x->intact();
      v += (v.size() > 1 ? "," : "") + x->dump();
    }
    o.i("ok", ok);
    o.raw("vals", v + "]");
  });
}
