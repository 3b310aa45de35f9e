// Settings, their help and their logs (classes.inc is generated)
#include "datas/settings_manager.hpp"
#include "reflect_common.hpp"
#ifndef ONLY_HEADERS
#include "classes.inc"
#include <chrono>
#include <dirent.h>
#include <fstream>
#include <sstream>

struct Man {
  virtual ~Man() {}
  virtual Any &any() = 0;
  virtual void log(const std::string &name) = 0;
  virtual void help(std::ostream &str) = 0;
  virtual void flush() = 0;
};
template <class T> struct ManOf : Man {
  ByBase<T> b;
  Any &any() override { return b; }
  void log(const std::string &name) override { b.obj->CreateLog(name); }
  void help(std::ostream &str) override { b.obj->GetHelp(str); }
  void flush() override { T::GetLogger().flush(); }
};
static Man *MakeMan(int i);
#include "table.inc"

// time() is some milliseconds behind
static time_t now() { return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); }
static std::string format(time_t t, const char *f) {
  char b[128]{};
  std::tm tm = *localtime(&t);
  strftime(b, sizeof(b), f, &tm);
  return b;
}
int main() {
  RegisterAll();
  std::unique_ptr<Man> c;
  std::map<std::string, std::string> files;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      c.reset(MakeMan((int)l.num()));
    } else if (op == "raw") {
      int f = static_cast<int>(l.num());
      c->any().load(f, l.hex());
    } else if (op == "log") {
      std::string name = l.word();
      time_t t0 = now();
      c->log(name);
      time_t t1 = now();
      std::vector<std::string> times;
      for (time_t t = t0; t <= t1; t++)
        times.push_back("{\"stamp\":" + jstr(format(t, "_%y_%m_%d-%H.%M.%S")) + ",\"text\":" +
                        jstr(format(t, "%c %Z")) + "}");
      std::string dir = ".", base = name;
      if (name.rfind('/') != name.npos) {
        dir = name.substr(0, name.rfind('/'));
        base = name.substr(name.rfind('/') + 1);
      }
      long long n = 0;
      std::string found;
      DIR *d = opendir(dir.c_str());
      while (dirent *e = readdir(d))
        if (std::string(e->d_name).compare(0, base.size() + 1, base + "_") == 0) {
          n++;
          found = (dir == "." ? "" : dir + "/") + e->d_name;
        }
      closedir(d);
      files[name] = found;
      o.i("files", n).str("file", found).raw("times", jlist(times));
      o.i("threads", (long long)std::thread::hardware_concurrency());
    } else if (op == "say") {
      std::string k = l.word(), t = l.str();
      if (k == "line") {
        printline(t);
      } else if (k == "warning") {
        printwarning(t);
      } else {
        printerror(t);
      }
    } else if (op == "read") {
      std::string name = l.word();
      c->flush();
      std::ifstream s(files[name], std::ios::binary);
      std::stringstream t;
      t << s.rdbuf();
      o.str("out", t.str());
    } else if (op == "help") {
      std::stringstream t;
      c->help(t);
      o.str("out", t.str());
    }
    o.i("ok", c->any().intact());
  });
}
#endif
