// Readers and writers of files, and what errors say
#include "common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/except.hpp"
#include <map>
#include <memory>
#include <sys/stat.h>
using namespace drv;
static std::map<int, std::unique_ptr<BinReader>> rs;
static std::map<int, std::unique_ptr<BinWritter>> ws;
static Out *out;
static void told(const char *cls, const std::exception &e) { out->raw("err", std::string("\"") + cls + "\"").str("msg", e.what()); }
// an error of opening, by its most derived kind
template <class F> void tried(F f) {
  try {
    f();
    out->raw("err", "\"\"").str("msg", "");
  } catch (const es::FileNotFoundError &e) {
    told("FileNotFoundError", e);
  } catch (const es::FileInvalidAccessError &e) {
    told("FileInvalidAccessError", e);
  } catch (const std::exception &e) {
    told("exception", e);
  }
}
template <class S> void files(const std::string &op, Line &l, S &slots, bool reader) {
  typedef typename S::mapped_type::element_type C;
  int x = l.num();
  if (op == "new")
    slots[x].reset(new C());
  else if (op == "make" || op == "open") {
    std::string name = l.str();
    bool text = l.num();
    tried([&] {
      if (op == "make")
        slots[x].reset(text ? new C(name) : new C(name.c_str()));
      else if (text)
        slots.at(x)->Open(name);
      else
        slots.at(x)->Open(name.c_str());
    });
  } else if (op == "move") {
    int y = l.num();
    slots[y].reset(new C(std::move(*slots.at(x))));
  } else if (op == "del")
    slots.erase(x);
  else if (op == "valid")
    out->i("r", slots.at(x)->IsValid());
  else if (op == "tell")
    out->i("r", (long long)slots.at(x)->Tell());
  else if (op == "size")
    out->i("r", (long long)slots.at(x)->GetSize());
  else if (op == "seek")
    slots.at(x)->Seek((size_t)l.num());
  else if (op == "swap")
    slots.at(x)->SwapEndian(l.num());
}
template <class E> void thrown(const char *cls, const E &e) {
  try {
    throw e;
  } catch (const std::runtime_error &r) { // as users catch them, and copied
    E c(e);
    told(std::string(c.what()) == r.what() ? cls : "another text in the copy", r);
  }
}
int main() {
  return loop([&](Line &l, Out &o) {
    out = &o;
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset") {
      rs.clear();
      ws.clear();
      while (l.more()) {
        std::string n = l.str();
        chmod(n.c_str(), 0600);
        remove(n.c_str());
      }
    } else if (op == "put") {
      std::string n = l.str(), d = l.str();
      FILE *f = fopen(n.c_str(), "wb");
      fwrite(d.data(), 1, d.size(), f);
      fclose(f);
    } else if (op == "cat") {
      std::string n = l.str(), d;
      FILE *f = fopen(n.c_str(), "rb");
      o.i("there", f != nullptr);
      if (f) {
        char b[4096];
        for (size_t k; (k = fread(b, 1, sizeof(b), f));)
          d.append(b, k);
        fclose(f);
      }
      o.str("d", d);
    } else if (op == "mode") {
      std::string n = l.str();
      chmod(n.c_str(), l.num() ? 0600 : 0);
    } else if (op == "read") {
      int x = l.num();
      std::string d(l.num(), '?');
      rs.at(x)->ReadBuffer(&d[0], d.size());
      bool v = rs.at(x)->IsValid();
      o.i("v", v).str("d", v ? d : "");
    } else if (op == "read16") {
      uint16 v = 0;
      rs.at(l.num())->Read(v);
      o.val("d", v);
    } else if (op == "write") {
      int x = l.num();
      std::string d = l.str();
      ws.at(x)->WriteBuffer(d.data(), d.size());
    } else if (op == "write16") {
      int x = l.num();
      ws.at(x)->Write(from<uint16>(l.hex()));
    } else if (op == "error") {
      std::string k = l.word();
      std::string s;
      if (k == "plainfile") thrown("", es::FileNotFoundError());
      if (k == "plainaccess") thrown("", es::FileInvalidAccessError());
      if (k == "plainheader") thrown("", es::InvalidHeaderError());
      if (k == "plainversion") thrown("", es::InvalidVersionError());
      if (k == "plainend") thrown("", es::UnexpectedEOS());
      if (k == "file") s = l.str(), thrown("", es::FileNotFoundError(es::string_view(s.data(), s.size())));
      if (k == "access") s = l.str(), thrown("", es::FileInvalidAccessError(es::string_view(s.data(), s.size())));
      if (k == "header") s = l.str(), thrown("", es::InvalidHeaderError(es::string_view(s.data(), s.size())));
      if (k == "version") s = l.word(), thrown("", es::InvalidVersionError(std::stoull(s)));
      if (k == "magic") {
        bytes b = l.hex();
        long long n = l.num();
        size_t w = b.size();
#define MAGIC(T)                                                                         \
  if (w == sizeof(T)) {                                                                  \
    if (n < 0)                                                                           \
      thrown("", es::InvalidHeaderError(from<T>(b)));                                    \
    else                                                                                 \
      thrown("", es::InvalidHeaderError(from<T>(b), n));                                 \
  }
        MAGIC(uint8) MAGIC(uint16) MAGIC(uint32) MAGIC(uint64)
      }
    } else {
      bool reader = l.word() == "r";
      if (reader)
        files(op, l, rs, true);
      else
        files(op, l, ws, false);
    }
  });
}
