#include "common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <fstream>
using namespace drv;

// a stream that begins with so many zeros that are kept nowhere
struct Far : std::streambuf {
  uint64 base;
  std::string mem;
  long long at[2] = {0, 0};
  explicit Far(uint64 b) : base(b) {}
  pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which) override {
    long long size = (long long)(base + mem.size()), r = -1;
    for (int i = 0; i < 2; i++)
      if (which & (i ? std::ios_base::out : std::ios_base::in)) {
        long long to = off + (way == std::ios_base::beg ? 0 : way == std::ios_base::cur ? at[i] : size);
        if (to < 0 || to > size)
          return pos_type(off_type(-1));
        r = at[i] = to;
      }
    return pos_type(r);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode which) override { return seekoff(off_type(p), std::ios_base::beg, which); }
  std::streamsize xsgetn(char *s, std::streamsize n) override {
    std::streamsize k = 0;
    for (; k < n && at[0] < (long long)(base + mem.size()); k++, at[0]++)
      s[k] = (uint64)at[0] < base ? 0 : mem[at[0] - base];
    return k;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    for (std::streamsize k = 0; k < n; k++, at[1]++) {
      if ((uint64)at[1] < base)
        return k;
      uint64 q = at[1] - base;
      if (q == mem.size())
        mem.push_back(s[k]);
      else
        mem[q] = s[k];
    }
    return n;
  }
  int_type overflow(int_type c) override {
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  int_type underflow() override { return at[0] < (long long)(base + mem.size()) ? traits_type::to_int_type((uint64)at[0] < base ? 0 : mem[at[0] - base]) : traits_type::eof(); }
  int_type uflow() override {
    int_type c = underflow();
    at[0] += c != traits_type::eof();
    return c;
  }
};
static std::iostream *ss;
static Far *far_;
// positions told with a base of 2^20 in place of the stream's
static const long long TOLD = 1 << 20;
static long long in(long long n) {
  if (!far_)
    return n;
  long long k = (n + (n < 0 ? -TOLD / 2 : TOLD / 2)) / TOLD;
  return n + k * ((long long)far_->base - TOLD);
}
static long long outn(long long v) {
  if (!far_)
    return v;
  long long b = far_->base, k = (v + (v < 0 ? -b / 2 : b / 2)) / b, n = v - k * b;
  if (n < -TOLD / 2 || n > TOLD / 2 || k > 100 || k < -100)
    return -777777777; // nowhere near
  return n + k * TOLD;
}

template <class R> bool nav(R &r, const std::string &op, Line &l, Out &o) {
  typedef typename R::navi_type::seekdir dir;
  if (op == "tell") {
    o.i("n1", outn(r.Tell()));
  } else if (op == "size") {
    o.i("n1", outn(r.GetSize()));
  } else if (op == "seekb") {
    r.Seek((size_t)in(l.num()));
  } else if (op == "seekc") {
    r.Seek((size_t)in(l.num()), std::ios_base::cur);
  } else if (op == "seeke") {
    r.Seek((size_t)in(l.num()), std::ios_base::end);
  } else if (op == "push") {
    o.i("n1", outn(r.Push()));
  } else if (op == "pop") {
    r.Pop();
  } else if (op == "org") {
    r.SetRelativeOrigin((size_t)in(l.num()));
  } else if (op == "orgn") {
    r.SetRelativeOrigin((size_t)in(l.num()), false);
  } else if (op == "rorg") {
    r.ResetRelativeOrigin();
  } else if (op == "rorgn") {
    r.ResetRelativeOrigin(false);
  } else if (op == "skip") {
    r.Skip((int)l.num());
  } else if (op == "pad") {
    int a = (int)l.num();
    if (a == 16)
      r.ApplyPadding();
    else
      r.ApplyPadding(a);
  } else
    return false;
  return true;
}

int main() {
  BinReaderRef *rd = nullptr;
  BinWritterRef *wr = nullptr;
  BinWritter *fw = nullptr;
  BinReader *fr = nullptr;
  bool file = false;
  const char *fname = "cursor.bin";
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      std::string mode = l.word();
      file = mode == "file";
      delete rd;
      delete wr;
      delete fw;
      delete fr;
      fw = nullptr;
      fr = nullptr;
      rd = nullptr;
      wr = nullptr;
      delete ss;
      delete far_;
      far_ = nullptr;
      if (mode == "far")
        ss = new std::iostream(far_ = new Far(std::stoull(l.word())));
      else
        ss = new std::stringstream(std::ios::in | std::ios::out | std::ios::binary);
      if (file) {
        remove(fname);
        fw = new BinWritter(std::string(fname));
        fr = new BinReader(fname);
      } else {
        rd = new BinReaderRef(*ss);
        wr = new BinWritterRef(*ss);
      }
      o.i("ok", 1);
      return;
    }
    if (op == "reopen") {
      delete fr;
      fr = new BinReader(fname);
      o.i("ok", 1);
      return;
    }
    BinReaderRef &r = file ? *fr : *rd;
    BinWritterRef &w = file ? *fw : *wr;
    bool isw = true;
    if (op == "dump" || op == "past") {
      std::string all;
      if (file) {
        delete fw;
        fw = nullptr;
        std::ifstream f(fname, std::ios::binary);
        std::stringstream t;
        t << f.rdbuf();
        all = t.str();
      } else
        all = far_ ? far_->mem : static_cast<std::stringstream *>(ss)->str();
      if (op == "dump") {
        o.raw("mem", jstr(all)).i("ok", 1);
        return;
      }
      long long extra = l.num();
      // the number of bytes that remain, plus extra
      size_t left = (size_t)l.num();
      std::vector<char> b(left + extra, char(0x77));
      r.ReadBuffer(b.data(), left + extra);
      o.raw("r", jbytes(b.data(), left)).i("eof", r.IsEOF()).i("ok", 1);
      return;
    }
    if (op == "write") {
      bytes b = l.hex();
      w.WriteBuffer((const char *)b.data(), b.size());
    } else if (op == "read") {
      isw = false;
      size_t n = (size_t)l.num();
      std::vector<char> b(n);
      r.ReadBuffer(b.data(), n);
      o.raw("r", jbytes(b.data(), n));
    } else {
      std::string c = l.word();
      isw = c == "w";
      if (isw)
        nav(w, op, l, o);
      else
        nav(r, op, l, o);
    }
    bool good = file ? (isw ? fw->IsValid() : fr->IsValid()) : !ss->fail();
    o.i("ok", good);
    o.i("tell", outn(isw ? w.Tell() : r.Tell()));
  });
}
