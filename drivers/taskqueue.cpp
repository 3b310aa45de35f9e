// Runs RunThreadedQueue with task bodies that log their begin and end.
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <random>
#include <set>
#include <stdexcept>
#include <thread>
#include <datas/multi_thread.hpp>

static std::atomic<unsigned> g_hw{1};
// what the "machine" reports: this definition takes precedence over the library's
unsigned std::thread::hardware_concurrency() noexcept { return g_hw; }

struct Log {
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::string> ev;
  std::set<long long> begun, ended, released;
  bool releaseAll = false, returned = false;
  void add(const char *op, long long i) {
    drv::Out o;
    o.raw("op", std::string("\"") + op + "\"").i("i", i);
    ev.push_back(o.s + "}");
  }
};

struct Body { // handed over by value or by reference, as the caller likes
  Log *L;
  bool gated;
  unsigned seed, spread, throwMask;
  int operator()(size_t i) const {
    {
      std::unique_lock<std::mutex> g(L->m);
      L->add("begin", (long long)i);
      L->begun.insert((long long)i);
      L->cv.notify_all();
      if (gated)
        L->cv.wait(g, [&] { return L->releaseAll || L->released.count((long long)i); });
    }
    if (!gated && spread) {
      std::mt19937 r(seed + (unsigned)i * 7919u);
      unsigned us = r() % 8 == 0 ? spread * 6 : r() % (spread + 1);
      if (us > 3)
        std::this_thread::sleep_for(std::chrono::microseconds(us));
      else
        std::this_thread::yield();
    }
    {
      std::unique_lock<std::mutex> g(L->m);
      L->add("end", (long long)i);
      L->ended.insert((long long)i);
      L->cv.notify_all();
    }
    if (throwMask && (seed + i * 2654435761u) % throwMask == 0)
      throw std::runtime_error("task");
    return (int)i;
  }
};

int main() {
  return drv::loop([](drv::Line &l, drv::Out &o) {
    std::string op = l.word(); // free | gate
    size_t n = l.unum();
    g_hw = (unsigned)l.unum();
    unsigned seed = (unsigned)l.unum(), spread = (unsigned)l.unum(), thr = (unsigned)l.unum();
    int form = (int)l.num();
    std::vector<long long> ends;
    while (l.more())
      ends.push_back(l.num());
    Log L;
    bool gated = op == "gate";
    std::thread ctl;
    if (gated)
      ctl = std::thread([&] {
        for (long long e : ends) {
          std::unique_lock<std::mutex> g(L.m);
          L.cv.wait_for(g, std::chrono::seconds(20),
                        [&] { return L.returned || L.begun.count(e); });
          if (!L.begun.count(e)) {
            L.add("stall", e);
            break;
          }
          L.released.insert(e);
          L.cv.notify_all();
          L.cv.wait_for(g, std::chrono::seconds(20), [&] { return L.ended.count(e) != 0; });
        }
        std::unique_lock<std::mutex> g(L.m);
        L.releaseAll = true;
        L.cv.notify_all();
      });
    Body b{&L, gated, seed, spread, thr};
    bool escaped = false;
    try {
      if (form == 0)
        RunThreadedQueue(n, b);
      else if (form == 1)
        RunThreadedQueue(n, [&](size_t i) { b(i); }); // returns nothing
      else if (form == 2)
        RunThreadedQueue(n, Body(b));
      else {
        const Body &cb = b;
        std::vector<int> slots(n + 1); // the usual use: results by index
        RunThreadedQueue(n, [&](size_t i) -> std::string { slots.at(i) = cb(i); return "r"; });
      }
    } catch (...) {
      escaped = true;
    }
    {
      std::unique_lock<std::mutex> g(L.m);
      L.add(escaped ? "escaped" : "return", 0);
      L.returned = true;
      L.cv.notify_all();
    }
    if (gated)
      ctl.join();
    // whatever still runs after the return shows up behind it
    std::this_thread::sleep_for(std::chrono::microseconds(300 + spread * 8));
    {
      std::unique_lock<std::mutex> g(L.m);
      o.raw("events", drv::jlist(L.ev));
      if (L.begun.size() != L.ended.size()) { // threads still use L
        o.s += "}\n";
        fwrite(o.s.data(), 1, o.s.size(), stdout);
        fflush(stdout);
        _Exit(0);
      }
    }
  });
}
