// XML files and errors
#include "common.hpp"
#include "datas/except.hpp"
#include "datas/pugiex.hpp"
#ifndef ONLY_HEADERS
#include <fstream>
#include <map>
using namespace drv;

#define N(x) {#x, x_t::x}
static XMLParseFlags PFlags(const std::string &list) {
  typedef XMLParseFlag x_t;
  static const std::map<std::string, XMLParseFlag> names{N(PI), N(Comments), N(CDATA), N(WhiteSpacePCDATA), N(Escapes), N(EOL), N(WConvAttribute), N(WNormAttribute), N(Declaration), N(DocType), N(WhiteSpavePCDATASingle), N(TrimPCDATA), N(Fragment), N(EmbedPCDATA)};
  XMLParseFlags r;
  std::istringstream ss(list);
  std::string w;
  while (std::getline(ss, w, ','))
    r += names.at(w);
  return r;
}
static XMLFormatFlags FFlags(const std::string &list) {
  typedef XMLFormatFlag x_t;
  static const std::map<std::string, XMLFormatFlag> names{N(Indent), N(WriteBOM), N(Raw), N(NoDeclaration), N(NoEscapes), N(SaveFileText), N(IndentAttributes), N(NoEmptyElementTaggs), N(SkipControlChars)};
  XMLFormatFlags r;
  std::istringstream ss(list);
  std::string w;
  while (std::getline(ss, w, ','))
    r += names.at(w);
  return r;
}
static XMLEncoding Enc(const std::string &n) {
  typedef XMLEncoding x_t;
  static const std::map<std::string, XMLEncoding> names{N(Auto), N(UTF8), N(UTF16_LE), N(UTF16_BE), N(UFT16), N(UTF32_LE), N(UTF32_be), N(UTF32), N(Wchar), N(Latin1)};
  return names.at(n);
}
static std::string quote(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += '\\';
    if ((unsigned char)c < 32)
      r += '?';
    else
      r += c;
  }
  return r + "\"";
}
static std::string Dump(pugi::xml_node n) {
  static const char *kinds[] = {"null", "document", "element", "text", "cdata", "comment", "pi", "decl", "doctype"};
  std::vector<std::string> as, cs;
  for (auto a : n.attributes())
    as.push_back(jlist({jstr(a.name()), jstr(a.value())}));
  for (auto c : n.children())
    cs.push_back(Dump(c));
  return jlist({quote(kinds[n.type()]), jstr(n.name()), jstr(n.value()), jlist(as), jlist(cs)});
}
template <class Fn> static void guarded(Out &o, Fn f) {
  try {
    f();
    o.raw("err", "\"\"");
  } catch (const es::FileNotFoundError &e) {
    o.raw("err", "\"notfound\"").raw("what", quote(e.what()));
  } catch (const es::FileInvalidAccessError &e) {
    o.raw("err", "\"access\"").raw("what", quote(e.what()));
  } catch (const es::InvalidHeaderError &e) {
    o.raw("err", "\"header\"").raw("what", quote(e.what()));
  } catch (const std::runtime_error &e) {
    o.raw("err", "\"other\"").raw("what", quote(e.what()));
  }
}
template <class Fn> static void thrown(Out &o, Fn f) {
  try {
    f();
  } catch (const std::runtime_error &e) {
    const char *t = "other";
    if (dynamic_cast<const es::FileNotFoundError *>(&e))
      t = "notfound";
    else if (dynamic_cast<const es::FileInvalidAccessError *>(&e))
      t = "access";
    else if (dynamic_cast<const es::InvalidHeaderError *>(&e))
      t = "header";
    else if (dynamic_cast<const es::InvalidVersionError *>(&e))
      t = "version";
    else if (dynamic_cast<const es::UnexpectedEOS *>(&e))
      t = "eos";
    o.raw("type", quote(t)).raw("what", quote(e.what()));
  }
}
int main() {
  pugi::xml_document doc;
  auto at = [&](Line &l) {
    pugi::xml_node n = doc;
    for (long long k = l.num(); k > 0; k--) {
      long long i = l.num();
      n = n.first_child();
      while (--i > 0)
        n = n.next_sibling();
    }
    return n;
  };
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "fresh") {
      doc.reset();
      while (l.more())
        std::remove(l.word().c_str());
    } else if (op == "put") {
      std::string name = l.word(), b = l.str();
      std::ofstream(name, std::ios::binary) << b;
    } else if (op == "load" || op == "loaddef" || op == "bad") {
      std::string name = l.word();
      XMLEncoding e = XMLEncoding::Auto;
      XMLParseFlags f;
      if (op != "loaddef") {
        e = Enc(l.word());
        std::string w = l.word();
        f = PFlags(w == "-" ? "" : w);
      }
      guarded(o, [&] {
        if (op == "loaddef")
          doc = XMLFromFile(name);
        else if (op == "load")
          doc = XMLFromFile(name, f, e);
        else
          XMLFromFile(name, f, e);
        if (op != "bad")
          o.raw("tree", Dump(doc));
      });
      if (op == "bad") {
        pugi::xml_document other;
        auto r = other.load_file(name.c_str(), static_cast<uint32>(f), static_cast<pugi::xml_encoding>(e));
        o.i("status", r.status).i("offset", r.offset);
      }
    } else if (op == "save") {
      std::string name = l.word();
      std::string e = l.word(), w = l.word(), ind = l.str();
      guarded(o, [&] {
        if (e == "-")
          XMLToFile(name, doc);
        else
          XMLToFile(name, doc, FFlags(w == "-" ? "" : w), ind.c_str(), Enc(e));
        std::ifstream s(name, std::ios::binary);
        std::stringstream ss;
        ss << s.rdbuf();
        o.str("bytes", ss.str());
      });
    } else if (op == "collect") {
      std::string nm = l.str();
      std::vector<std::string> r;
      for (auto n : XMLCollectChildren(at(l), nm))
        r.push_back(Dump(n));
      o.raw("out", jlist(r));
    } else if (op == "err") {
      std::string kind = l.word();
      long long named = l.num();
      std::string name = l.str();
      bytes b = l.hex();
      thrown(o, [&] {
        if (kind == "notfound") {
          if (named)
            throw es::FileNotFoundError(name);
          throw es::FileNotFoundError();
        } else if (kind == "access") {
          if (named)
            throw es::FileInvalidAccessError(name);
          throw es::FileInvalidAccessError();
        } else if (kind == "header")
          throw es::InvalidHeaderError();
        else if (kind == "headername")
          throw es::InvalidHeaderError(es::string_view(name));
        else if (kind == "magic") {
          if (b.size() == 2)
            throw es::InvalidHeaderError(from<uint16>(b));
          if (b.size() == 4)
            throw es::InvalidHeaderError(from<uint32>(b));
          if (b.size() == 8)
            throw es::InvalidHeaderError(from<uint64>(b));
          throw es::InvalidHeaderError(from<uint64>(b), b.size());
        } else if (kind == "version") {
          if (named)
            throw es::InvalidVersionError(std::stoull(name));
          throw es::InvalidVersionError();
        } else if (kind == "eos")
          throw es::UnexpectedEOS();
      });
    } else if (op == "nodeerr") {
      std::string kind = l.word(), nm = l.str();
      auto n = at(l);
      std::string begin = "XML node " + std::string(n.name()) + " at offset ", end, what;
      try {
        if (kind == "child") {
          end = ": Missing child " + nm;
          throw XMLMissingNodeException(nm, n);
        } else if (kind == "attr") {
          end = ": Missing attribute " + nm;
          throw XMLMissingNodeAttributeException(nm, n);
        }
        end = ": Missing data";
        throw XMLEmptyData(n);
      } catch (const XMLBaseException &e) {
        what = e.what();
      }
      o.i("begin", what.compare(0, begin.size(), begin) == 0);
      o.i("end", what.size() >= end.size() && what.compare(what.size() - end.size(), end.size(), end) == 0);
    }
  });
}
#endif
