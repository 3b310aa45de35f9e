// Encoders of byte texts
#include "common.hpp"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include <memory>
#include <thread>
using namespace drv;
static std::string key; // the encoder may look at it for as long as it lives

typedef void (BlowfishEncoder::*Fn)(char *, size_t) const;
static const char *names[]{"ECB", "CBC", "PCBC", "CFB", "OFB"};
static int modeOf(const std::string &n) {
  for (int i = 0; i < 5; i++)
    if (n == names[i])
      return i;
  throw 1;
}
static const Fn encs[]{&BlowfishEncoder::EncodeECB, &BlowfishEncoder::EncodeCBC, &BlowfishEncoder::EncodePCBC,
                       &BlowfishEncoder::EncodeCFB, &BlowfishEncoder::EncodeOFB};
static const Fn decs[]{&BlowfishEncoder::DecodeECB, &BlowfishEncoder::DecodeCBC, &BlowfishEncoder::DecodePCBC,
                       &BlowfishEncoder::DecodeCFB, &BlowfishEncoder::DecodeOFB};

int main() {
  std::unique_ptr<IEncryptor> e;
  BlowfishEncoder *bf = nullptr;
  BlowfishEncoder2 *bf2 = nullptr;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    int ok = 1;
    auto run = [&](const bytes &t, size_t off, auto &&f) {
      std::vector<char> buf(off + t.size() + 16, 0x3c);
      std::copy(t.begin(), t.end(), buf.begin() + off);
      f(buf.data() + off, t.size());
      for (size_t i = 0; i < buf.size(); i++)
        if ((i < off || i >= off + t.size()) && buf[i] != 0x3c)
          ok = 0;
      return std::string(buf.begin() + off, buf.begin() + off + t.size());
    };
    auto outs = [&](const std::vector<std::string> &v) {
      std::vector<std::string> r;
      for (auto &s : v)
        r.push_back(jstr(s));
      o.raw("out", jlist(r));
    };
    if (op == "reset") {
      std::string a = l.word();
      bf = nullptr;
      bf2 = nullptr;
      if (a == "xor")
        e.reset(new XOREncoder());
      else if (a == "bf")
        e.reset(bf = new BlowfishEncoder());
      else if (a == "bf2") {
        e.reset(bf2 = new BlowfishEncoder2());
        bf = bf2;
      }
    } else if (op == "key") {
      std::string k = l.str();
      int how = (int)l.num();
      if (how == 1 && bf2) {
        key = k + "and more";
        bf2->SetKey(key.data(), (int)k.size());
      } else {
        key = "before" + k + "behind";
        e->SetKey(es::string_view(key.data() + 6, k.size()));
      }
      if (bf) // looks no longer at the key
        key.assign(key.size(), '?');
      if (bf)
        o.val("v", bf->Vector());
      else
        o.raw("v", "[]");
    } else if (op == "mode") {
      bf->Mode(static_cast<enum BlowfishEncoder::Mode>(modeOf(l.word())));
    } else if (op == "vec") {
      bf->Vector(from<uint64>(l.hex()));
      o.val("got", bf->Vector());
    } else if (op == "enable") {
      int how = (int)l.num();
      how == 2 ? bf->Enable() : bf->Enable(how);
    } else if (op == "enc" || op == "dec") {
      bytes t = l.hex();
      size_t off = (size_t)l.num();
      const IEncryptor &c = *e;
      outs({run(t, off, [&](char *p, size_t n) { op == "enc" ? c.Encode(p, n) : c.Decode(p, n); })});
    } else if (op == "encas" || op == "decas") {
      int m = modeOf(l.word());
      bytes t = l.hex();
      outs({run(t, 16, [&](char *p, size_t n) { (bf->*(op == "encas" ? encs : decs)[m])(p, n); })});
    } else if (op == "back") {
      bytes t = l.hex();
      outs({run(t, 8, [&](char *p, size_t n) { e->Encode(p, n); e->Decode(p, n); }),
            run(t, 3, [&](char *p, size_t n) { e->Decode(p, n); e->Encode(p, n); })});
    } else if (op == "par") { // many threads use the one encoder
      bool enc = l.word() == "enc";
      bytes t = l.hex();
      std::vector<std::string> r(6);
      std::vector<std::thread> ts;
      for (size_t i = 0; i < r.size(); i++)
        ts.emplace_back([&, i] {
          for (int k = 0; k < 30; k++) {
            std::string s(t.begin(), t.end());
            enc ? e->Encode(&s[0], s.size()) : e->Decode(&s[0], s.size());
            if (k && s != r[i]) { r[i] = s; break; }
            r[i] = s;
          }
        });
      for (auto &x : ts)
        x.join();
      outs(r);
    }
    o.i("ok", ok).i("on", bf && bf->Valid());
    if (bf)
      o.val("vec", bf->Vector());
    else
      o.raw("vec", "[]");
  });
}
