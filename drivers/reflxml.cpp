#include "reflect_common.hpp"
#include "datas/pugiex.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector_xml.hpp"
#include "classes.inc"

static std::string Tree(pugi::xml_node n) {
  std::string o = "{\"n\":" + jstr(n.name()) + ",\"a\":[";
  bool first = true;
  for (auto a : n.attributes()) {
    o += std::string(first ? "" : ",") + "[" + jstr(a.name()) + "," + jstr(a.value()) + "]";
    first = false;
  }
  o += "],\"t\":" + jstr(n.text().get()) + ",\"c\":[";
  first = true;
  for (auto c : n.children()) {
    if (c.type() != pugi::node_element)
      continue;
    o += (first ? "" : ",") + Tree(c);
    first = false;
  }
  return o + "]}";
}
static pugi::xml_node Child(pugi::xml_node n, int at) {
  for (auto c : n.children())
    if (c.type() == pugi::node_element && !--at)
      return c;
  return {};
}
static std::string PathOf(pugi::xml_node n, pugi::xml_node root) {
  if (!n)
    return "[0]";
  std::string o;
  while (n && n != root) {
    int k = 0;
    for (auto c : n.parent().children()) {
      k += c.type() == pugi::node_element;
      if (c == n)
        break;
    }
    o = std::to_string(k) + (o.empty() ? "" : ",") + o;
    n = n.parent();
  }
  return "[" + o + "]";
}

int main() {
  RegisterAll();
  std::unique_ptr<Any> c[3];
  pugi::xml_document doc;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    bool ok = true;
    if (op == "reset") {
      for (auto &x : c) {
        int i = static_cast<int>(l.num());
        x.reset(MakeClass(i, static_cast<int>(l.num())));
      }
      doc.reset();
      doc.append_child("r");
    } else if (op == "raw") {
      int s = static_cast<int>(l.num());
      int f = static_cast<int>(l.num());
      c[s]->load(f, l.hex());
    } else if (op == "doc") {
      std::string b = l.str();
      ok = doc.load_buffer(b.data(), b.size());
    } else if (op == "again") {
      std::stringstream ss;
      doc.save(ss, "", pugi::format_raw);
      std::string b = ss.str();
      ok = doc.load_buffer(b.data(), b.size());
    } else {
      int s = static_cast<int>(l.num());
      int lay = static_cast<int>(l.num());
      bool own = l.num() != 0;
      int sa = static_cast<int>(l.num());
      auto root = doc.document_element();
      auto n = root;
      for (auto k : l.hex())
        n = Child(n, k);
      pugi::xml_node r;
      if (op == "save") {
        const Reflector &cr = c[s]->refl();
        if (lay == 1)
          r = own ? ReflectorXMLUtil::Save(cr, n, true) : ReflectorXMLUtil::Save(cr, n);
        else if (sa == 2)
          r = ReflectorXMLUtil::SaveV2(cr, n, own);
        else {
          ReflectorXMLUtil::flag_type f;
          f.Set(ReflectorXMLUtil::Flags_ClassNode, own);
          f.Set(ReflectorXMLUtil::Flags_StringAsAttribute, sa == 1);
          r = ReflectorXMLUtil::SaveV2a(cr, n, f);
        }
      } else if (lay == 1)
        r = ReflectorXMLUtil::Load(c[s]->refl(), n, own);
      else
        r = ReflectorXMLUtil::LoadV2(c[s]->refl(), n, own);
      o.raw("at", PathOf(r, root));
    }
    std::string v = "[";
    for (auto &x : c) {
      ok = ok && x->intact();
      v += (v.size() > 1 ? "," : "") + x->dump();
    }
    o.i("ok", ok);
    o.raw("vals", v + "]");
    o.raw("doc", Tree(doc.document_element()));
  });
}
