#include "common.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <thread>
using namespace drv;

// bytes with holes of zeros; where asked for, everything is done slowly, so that whoever shares the stream is overtaken
struct Sparse : std::streambuf {
  std::map<uint64_t, bytes> parts; // by where they begin
  uint64_t size = 0;
  std::atomic<uint64_t> pos{0};
  std::atomic<bool> slow{false};
  void add(const bytes &b, uint64_t gap) {
    parts[size] = b;
    size += b.size() + gap;
  }
  void nap() const {
    if (slow)
      std::this_thread::sleep_for(std::chrono::microseconds(60));
  }
  int at(uint64_t p) const {
    if (p >= size)
      return -1;
    auto it = std::prev(parts.upper_bound(p));
    return p - it->first < it->second.size() ? it->second[p - it->first] : 0;
  }
  int_type underflow() override { return at(pos); }
  int_type uflow() override { return at(pos++); }
  std::streamsize xsgetn(char *s, std::streamsize n) override {
    std::streamsize i = 0;
    for (; i < n; i++) {
      if (i == n / 2)
        nap();
      int c = at(pos);
      if (c < 0)
        break;
      s[i] = static_cast<char>(c);
      pos++;
    }
    return i;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    off_type n = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? off_type(pos) : off_type(size)) + o;
    if (n < 0 || uint64_t(n) > size)
      return pos_type(off_type(-1));
    pos = n;
    nap();
    return pos_type(n);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

struct Fields {
  std::vector<std::string> s;
  template <class T> Fields &operator()(const T &v) {
    s.push_back(jval(v));
    return *this;
  }
};
static Fields Of(const ZIPLocalFile &f) {
  return Fields()(f.id)(f.extractVersion)(static_cast<uint16>(f.flags))(f.compression)(f.lastModFileTime)(f.lastModFileDate)(
      f.crc)(f.compressedSize)(f.uncompressedSize)(f.fileNameSize)(f.extraFieldSize);
}
static Fields Of(const ZIPFile &f) {
  return Fields()(f.id)(f.madeBy)(f.extractVersion)(static_cast<uint16>(f.flags))(f.compression)(f.lastModFileTime)(
      f.lastModFileDate)(f.crc)(f.compressedSize)(f.uncompressedSize)(f.fileNameSize)(f.extraFieldSize)(f.fileCommentSize)(
      f.diskNumberStart)(f.internalFileAttrs)(f.externalFileAttrs)(f.localHeaderOffset);
}
static Fields Of(const ZIPSignature &f) { return Fields()(f.id)(f.dataSize); }
static Fields Of(const ZIPExtraData &f) { return Fields()(f.id)(f.dataSize); }
static Fields Of(const ZIPCentralDir &f) {
  return Fields()(f.id)(f.diskNumber)(f.startDiskNumber)(f.numDiskEntries)(f.numDirEntries)(f.dirSize)(f.dirOffset)(
      f.commentSize);
}
static Fields Of(const ZIP64CentralDir &f) {
  return Fields()(f.id)(f.dirRecord)(f.madeBy)(f.extractVersion)(f.diskNumber)(f.startDiskNumber)(f.numDiskEntries)(
      f.numDirEntries)(f.dirSize)(f.dirOffset);
}
static Fields Of(const ZIP64CentralDirLocator &f) {
  return Fields()(f.id)(f.diskNumber)(f.centralDirOffset)(f.numDisks);
}
template <class T> void Block(Line &l, Out &o) {
  std::string s = l.str();
  std::istringstream in(s);
  std::ostringstream out;
  BinReaderRef rd(in);
  BinWritterRef wr(out);
  T v;
  std::memset(static_cast<void *>(&v), 0xaa, sizeof(v));
  rd.Read(v);
  wr.Write(v);
  o.raw("fs", jlist(Of(v).s)).str("w", out.str()).i("at", static_cast<long long>(rd.Tell()));
}

int main() {
  std::unique_ptr<Sparse> buf;
  std::unique_ptr<std::istream> in;
  std::unique_ptr<ZIPVFS> vfs;
  std::map<int, std::unique_ptr<ZIPVFSFile>> files;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "fresh") {
      files.clear();
      vfs.reset();
    } else if (op == "open") {
      // way, what is before it, pieces and gaps
      int way = l.num();
      vfs.reset();
      buf.reset(new Sparse);
      bytes before = l.hex();
      buf->add(before, 0);
      while (l.more()) {
        bytes b = l.hex();
        buf->add(b, l.unum());
      }
      in.reset(new std::istream(buf.get()));
      BinReaderRef rd(*in);
      if (way)
        rd.SetRelativeOrigin(before.size());
      else
        rd.Seek(before.size());
      vfs.reset(new ZIPVFS(rd));
      std::vector<std::string> ls;
      for (auto &f : *vfs) {
        uint32_t n = f.second.second;
        if (f.second.second >> 32)
          throw std::runtime_error("size");
        ls.push_back("[" + jstr(f.first) + "," + jval(n) + "]");
      }
      o.raw("ls", jlist(ls));
      if (ls.size() != vfs->size() || ls.empty() != vfs->empty())
        throw std::runtime_error("count");
    } else if (op != "block" && !vfs) {
      throw std::runtime_error("no archive");
    } else if (op == "has")
      o.i("r", vfs->find(l.str()) != vfs->end());
    else if (op == "take") {
      int h = l.num(), way = l.num();
      std::string n = l.str();
      if (way == 1 && vfs->find(n) != vfs->end())
        files[h].reset(new ZIPVFSFile(vfs->Get(vfs->find(n))));
      else if (way == 2)
        files[h].reset(new ZIPVFSFile(vfs->Get(vfs->at(n))));
      else
        files[h].reset(new ZIPVFSFile(vfs->Get(n)));
    } else if (op == "read") {
      ZIPVFSFile &f = *files.at(l.num());
      size_t n = l.num();
      int way = l.num();
      std::string r(n, 0);
      if (way == 0)
        f.reader.ReadBuffer(&r[0], n);
      else if (way == 1) {
        BinReaderRef rd = f;
        rd.ReadContainer(r, n);
      } else
        f.buffer.read(&r[0], n);
      o.str("r", r);
    } else if (op == "seek") {
      ZIPVFSFile &f = *files.at(l.num());
      f.reader.Seek(l.num());
    } else if (op == "tell") {
      ZIPVFSFile &f = *files.at(l.num());
      o.i("r", static_cast<long long>(f.reader.Tell())).i("s", static_cast<long long>(f.reader.GetSize()));
    } else if (op == "move") {
      // the old one is gone afterwards
      int from = l.num(), to = l.num();
      bool assign = l.num();
      std::unique_ptr<ZIPVFSFile> old = std::move(files.at(from));
      files.erase(from);
      if (assign && files[to])
        *files[to] = std::move(*old);
      else
        files[to].reset(new ZIPVFSFile(std::move(*old)));
      std::memset(static_cast<void *>(&old->reader), 0, sizeof(old->reader));
    } else if (op == "all") {
      std::vector<std::vector<std::string>> ns, rs;
      while (l.more()) {
        ns.emplace_back();
        for (int k = l.num(); k; k--)
          ns.back().push_back(l.str());
      }
      rs.resize(ns.size());
      std::atomic<size_t> ready{0};
      std::atomic<bool> failed{false};
      std::vector<std::thread> ts;
      buf->slow = true;
      for (size_t t = 0; t < ns.size(); t++)
        ts.emplace_back([&, t] {
          ready++;
          while (ready < ns.size())
            std::this_thread::yield();
          try {
            for (auto &n : ns[t]) {
              ZIPVFSFile f = vfs->Get(n);
              std::string r(f.reader.GetSize(), 0);
              f.reader.ReadBuffer(&r[0], r.size());
              rs[t].push_back(jstr(r));
            }
          } catch (...) {
            failed = true;
          }
        });
      for (auto &t : ts)
        t.join();
      buf->slow = false;
      in->clear();
      std::vector<std::string> r;
      for (auto &s : rs)
        r.push_back(jlist(s));
      o.raw("r", jlist(r));
      if (failed)
        throw std::runtime_error("thread");
    } else if (op == "block") {
      std::string k = l.word();
      if (k == "local")
        Block<ZIPLocalFile>(l, o);
      else if (k == "entry")
        Block<ZIPFile>(l, o);
      else if (k == "signature")
        Block<ZIPSignature>(l, o);
      else if (k == "central")
        Block<ZIPCentralDir>(l, o);
      else if (k == "central64")
        Block<ZIP64CentralDir>(l, o);
      else if (k == "locator64")
        Block<ZIP64CentralDirLocator>(l, o);
      else
        Block<ZIPExtraData>(l, o);
    }
    o.i("ok", 1);
  });
}
