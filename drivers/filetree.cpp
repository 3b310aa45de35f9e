#include "common.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/stat.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
using namespace drv;

// runs in a scratch folder and makes one folder per session in it
static std::string Kind(const struct stat &s) {
  return S_ISDIR(s.st_mode) ? ((s.st_mode & 0777) == 0755 ? "dir" : s.st_mode & 0777 ? "odd" : "closed") : S_ISREG(s.st_mode) ? "file" : "other";
}
static void Walk(const std::string &dir, const std::string &path, std::vector<std::string> &r) {
  DIR *d = opendir(dir.c_str());
  if (!d)
    return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::string p = path + (path.empty() ? "" : ",") + jstr(n), f = dir + "/" + n;
    struct stat s;
    if (lstat(f.c_str(), &s))
      continue;
    r.push_back("[[" + p + "],\"" + Kind(s) + "\"]");
    if (S_ISDIR(s.st_mode))
      Walk(f, p, r);
  }
  closedir(d);
}

// "~/" stands for the folder of the session
static std::string here;
static std::string Full(const std::string &s) { return s.substr(0, 2) == "~/" ? here + s.substr(1) : s; }
static std::string Short(const std::string &s) {
  return s.substr(0, here.size() + 1) == here + "/" ? "~" + s.substr(here.size()) : s;
}

int main() {
  char buf[4096];
  if (!getcwd(buf, sizeof(buf)))
    return 9;
  const std::string home = buf;
  int sessions = 0;
  DirectoryScanner sc;
  umask(022);
  // scans keep no more folders open than they are within
  rlimit few{40, 40};
  setrlimit(RLIMIT_NOFILE, &few);
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    bool ok = true;
    if (op == "fresh") {
      sc = DirectoryScanner();
      std::string d = home + "/s" + std::to_string(sessions++);
      ok = !::mkdir(d.c_str(), 0755) && !chdir(d.c_str());
      here = d;
    } else if (op == "put") {
      std::string k = l.word(), p = l.str();
      if (k == "dir")
        ok = !::mkdir(p.c_str(), 0755);
      else if (k == "closed")
        ok = !::mkdir(p.c_str(), 0);
      else if (k == "file") {
        int f = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
        ok = f >= 0 && write(f, "x", 1) == 1;
        close(f);
      } else if (l.num())
        ok = !mkfifo(p.c_str(), 0644);
      else {
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        ok = p.size() < sizeof(a.sun_path);
        p.copy(a.sun_path, sizeof(a.sun_path) - 1);
        ok = ok && !bind(s, reinterpret_cast<sockaddr *>(&a), sizeof(a));
        close(s);
      }
    } else if (op == "scan")
      sc.Scan(Full(l.str()));
    else if (op == "filter")
      sc.AddFilter(l.str());
    else if (op == "nofilters")
      sc.ClearFilters();
    else if (op == "clear")
      sc.Clear();
    else if (op == "type") {
      const char *n[] = {"error", "invalid", "directory", "file"};
      FileType_e t = FileType(Full(l.str()));
      o.raw("r", std::string("\"") + n[t == Error ? 0 : t == Invalid ? 1 : t == Directory ? 2 : 3] + "\"");
    } else if (op == "mkdir") {
      std::string how = l.word(), k = l.word(), p = Full(l.str());
      int r = how == "text" ? (k == "dir" ? es::mkdir(p) : es::mkdir(p, 0))
                            : (k == "dir" ? es::mkdir(p.c_str()) : es::mkdir(p.c_str(), 0));
      o.i("r", r == 0);
    } else if (op == "mkdirs")
      mkdirs(Full(l.str()));
    else if (op == "mkdirsin") {
      std::string base = Full(l.str());
      std::vector<std::string> fs;
      while (l.more())
        fs.push_back(l.str());
      mkdirs(base, fs, [](const std::string &s) -> const std::string & { return s; });
    }
    std::vector<std::string> fs, tr;
    for (auto &f : sc)
      fs.push_back(jstr(Short(f)));
    ok = ok && fs.size() == sc.Files().size() &&
         static_cast<size_t>(std::distance(sc.cbegin(), sc.cend())) == fs.size();
    Walk(".", "", tr);
    o.raw("files", jlist(fs));
    o.raw("tree", jlist(tr));
    o.i("ok", ok);
  });
}
