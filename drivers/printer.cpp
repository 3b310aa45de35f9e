// A session of the message printer: sinks, threads and their messages come in on stdin,
// everything the sinks receive is logged together with the begin and end of each message.
#include "common.hpp"
#include "printer_say.hpp"
#include <atomic>
#include <chrono>
#include <mutex>
#include <pthread.h>
#include <random>
#include <thread>

static std::mutex g_m;
static std::string g_log;
static std::atomic<int> g_slow{0};
static std::atomic<bool> g_tid{false};
static thread_local int t_no = 1;

static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '\n')
      r += "\\n";
    else if (c == '"' || c == '\\')
      (r += '\\') += c;
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
      r += b;
    } else
      r += c;
  }
  return r;
}
static void put(const char *op, int t, int s, const std::string &text, const char *type = "",
                int nl = 0, const std::string &tid = "") {
  std::lock_guard<std::mutex> g(g_m);
  g_log += std::string("{\"op\":\"") + op + "\",\"t\":" + std::to_string(t) + ",\"s\":" +
           std::to_string(s) + ",\"text\":\"" + esc(text) + "\",\"type\":\"" + type +
           "\",\"nl\":" + std::to_string(nl) + ",\"tid\":\"" + tid + "\"}\n";
}

void Pause(int k) {
  if (!g_slow)
    return;
  if (k == 1)
    std::this_thread::yield();
  else if (k == 2)
    std::this_thread::sleep_for(std::chrono::microseconds(30));
}
void BeginMsg(const Msg &m) {
  std::string tid;
  if (g_tid) {
    char b[32];
    snprintf(b, sizeof b, "%X", (unsigned)(uintptr_t)pthread_self());
    tid = b;
  }
  put("begin", t_no, 0, m.text, m.type.c_str(), m.nl, tid);
}
void EndMsg() { put("end", t_no, 0, ""); }

template <int N> void Sink(const char *c) {
  std::string s(c);
  // escape sequences are told apart from text
  size_t i = 0;
  bool any = false;
  while (i < s.size()) {
    size_t e = s.find('\033', i);
    if (e == i) {
      size_t m = s.find('m', e);
      std::string code = s.substr(e, m == s.npos ? s.npos : m - e + 1);
      std::string name = code == "\033[0m" ? "none"
                         : code == "\033[38;2;255;255;0m" ? "yellow"
                         : code == "\033[38;2;255;0;0m" ? "red" : "other";
      put("ink", 0, N, name);
      i = m == s.npos ? s.size() : m + 1;
    } else {
      size_t to = e == s.npos ? s.size() : e;
      put("chunk", 0, N, s.substr(i, to - i));
      i = to;
    }
    any = true;
  }
  static thread_local unsigned r = 12345 + N;
  r = r * 1103515245 + 12345;
  Pause((r >> 16) & 7);
}
typedef void (*sink_t)(const char *);
static const sink_t SINKS[] = {nullptr, Sink<1>, Sink<2>, Sink<3>, Sink<4>, Sink<5>, Sink<6>};

static void add(int s, int color) {
  put("addb", color, s, "");
  if (color)
    printer.AddPrinterFunction(SINKS[s]); // the default
  else
    printer.AddPrinterFunction(SINKS[s], false);
  put("adde", 0, s, "");
}

int main() {
  std::vector<std::vector<Msg>> work(9);
  std::vector<std::vector<int>> adds; // sink, color, delay
  std::string s;
  while (std::getline(std::cin, s)) {
    drv::Line l(s);
    std::string op = l.word();
    if (op == "add") {
      int k = (int)l.num(), c = (int)l.num();
      add(k, c);
    } else if (op == "lateadd") {
      std::vector<int> a;
      for (int i = 0; i < 3; i++)
        a.push_back((int)l.num());
      adds.push_back(a);
    } else if (op == "slow")
      g_slow = (int)l.num();
    else if (op == "tid") {
      g_tid = l.num() != 0;
      printer.PrintThreadID(g_tid);
    } else if (op == "msg") {
      Msg m;
      int t = (int)l.num();
      m.type = l.word();
      m.nl = (int)l.num();
      m.style = (int)l.num();
      m.tu = (int)l.num();
      m.typeAt = l.unum();
      while (l.more())
        m.pieces.push_back(l.str());
      for (auto &p : m.pieces)
        m.text += p;
      work[t].push_back(m);
    } else if (op == "go") {
      std::vector<std::thread> ths;
      std::atomic<int> ready{0};
      int n = 0;
      for (auto &w : work)
        n += !w.empty();
      auto speak = [&](int t) {
        t_no = t;
        ready++;
        while (ready < n)
          std::this_thread::yield();
        for (auto &m : work[t])
          m.tu ? Say2(m, 0) : Say(m, 0);
      };
      for (int t = 2; t < 9; t++)
        if (!work[t].empty())
          ths.emplace_back(speak, t);
      std::thread adder([&] {
        for (auto &a : adds) {
          std::this_thread::sleep_for(std::chrono::microseconds(a[2]));
          add(a[0], a[1]);
        }
      });
      if (!work[1].empty())
        speak(1); // the main thread keeps its printer
      for (auto &t : ths)
        t.join();
      adder.join();
      adds.clear();
      for (auto &w : work)
        w.clear();
      put("quiet", 0, 0, "");
    }
  }
  fwrite(g_log.data(), 1, g_log.size(), stdout);
  return 0;
}
