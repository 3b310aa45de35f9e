#include "reflect_common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector_io.hpp"
#include "classes.inc"

static std::string opt(bool has, const std::string &v) { return has ? "[" + v + "]" : "[]"; }
static std::string sv(es::string_view s) { return jbytes(s.data(), s.size()); }

static std::string Class(const reflectorStatic &c) {
  std::vector<std::string> t, nm, al, ah, ds;
  for (uint32 i = 0; i < c.nTypes; i++) {
    t.push_back(jval(c.types[i]));
    if (c.typeNames)
      nm.push_back(jstr(c.typeNames[i]));
    if (c.typeAliases)
      al.push_back(opt(c.typeAliases[i], c.typeAliases[i] ? jstr(c.typeAliases[i]) : ""));
    if (c.typeAliasHashes)
      ah.push_back(jval(c.typeAliasHashes[i]));
    if (c.typeDescs)
      ds.push_back("[" + sv(c.typeDescs[i].part1) + "," + sv(c.typeDescs[i].part2) + "]");
  }
  Out o;
  o.val("h", c.classHash);
  o.raw("t", jlist(t));
  o.raw("nm", opt(c.typeNames, jlist(nm)));
  o.raw("cn", opt(c.className, c.className ? jstr(c.className) : ""));
  o.raw("al", opt(c.typeAliases, jlist(al)));
  o.raw("ah", opt(c.typeAliasHashes, jlist(ah)));
  o.raw("ds", opt(c.typeDescs, jlist(ds)));
  return o.s + "}";
}

static std::string Enum(const ReflectedEnum &e) {
  std::vector<std::string> nm, v;
  for (size_t i = 0; i < e.size(); i++) {
    nm.push_back(sv(e[i]));
    v.push_back(jval(e.values[i]));
  }
  Out o;
  o.val("h", e.hash);
  o.raw("nm", jlist(nm));
  o.raw("v", jlist(v));
  o.raw("cn", sv(e.name));
  return o.s + "}";
}

static std::string Dump(const ReflectorIO &r) {
  std::vector<std::string> c, e;
  for (auto i : r.Classes())
    c.push_back(Class(*i));
  for (auto &i : r.Enums())
    e.push_back(Enum(i));
  return "{\"c\":" + jlist(c) + ",\"e\":" + jlist(e) + "}";
}

int main() {
  std::unique_ptr<ReflectorIO> db[2];
  std::unique_ptr<std::stringstream> ss;
  BinReaderRef rd;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    bool show = false;
    if (op == "reset") {
      for (auto &x : db)
        x.reset(new ReflectorIO);
      ss.reset(new std::stringstream(std::ios::in | std::ios::out | std::ios::binary));
      std::string b = l.str();
      ss->write(b.data(), static_cast<std::streamsize>(b.size()));
      rd = BinReaderRef(*ss);
    } else if (op == "class") {
      ReflectorIO &d = *db[l.num()];
      int c = static_cast<int>(l.num());
      AddClass(d, c, l.num() != 0);
      o.raw("c", Class(*d.Classes().back()));
      show = true;
    } else if (op == "enum") {
      ReflectorIO &d = *db[l.num()];
      int c = static_cast<int>(l.num());
      AddEnum(d, c, l.num() != 0);
      o.raw("e", Enum(d.Enums().back()));
      show = true;
    } else if (op == "bytes") {
      std::string b = l.str();
      ss->seekp(0, std::ios::end);
      ss->write(b.data(), static_cast<std::streamsize>(b.size()));
    } else if (op == "seek") {
      rd.Seek(static_cast<size_t>(l.num()));
    } else if (op == "save") {
      size_t at = ss->str().size();
      ss->seekp(0, std::ios::end);
      BinWritterRef wr(*ss);
      o.i("rc", db[l.num()]->Save(wr));
      std::string all = ss->str();
      o.str("old", all.substr(0, at));
      o.str("out", all.substr(std::min(at, all.size())));
      o.i("at", static_cast<long long>(wr.Tell()));
      show = true;
    } else if (op == "load") {
      o.i("rc", db[l.num()]->Load(rd));
      o.i("pos", static_cast<long long>(rd.Tell()));
      show = true;
    }
    if (show)
      o.raw("dbs", "[" + Dump(*db[0]) + "," + Dump(*db[1]) + "]");
    o.i("ok", !ss->fail());
  });
}
