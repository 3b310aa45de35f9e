#pragma once
#include <datas/master_printer.hpp>
#include <string>
#include <vector>
struct Msg {
  std::string type, text;
  int nl, style, tu;
  size_t typeAt;
  std::vector<std::string> pieces;
};
void BeginMsg(const Msg &m);
void EndMsg();
void Pause(int k);

static inline void Say(const Msg &m, int) {
  auto setType = [&] {
    if (m.type == "WRN")
      printer << MPType::WRN;
    else if (m.type == "ERR")
      printer << MPType::ERR;
    else if (m.type == "INF")
      printer << MPType::INF;
  };
  if (m.style == 1 && m.type != "INF" && m.nl) { // the macros, one piece
    std::string all;
    for (auto &p : m.pieces)
      all += p;
    BeginMsg(m);
    if (m.type == "WRN") {
      printwarning(all)
    } else if (m.type == "ERR") {
      printerror(all)
    } else {
      printline(all)
    }
    EndMsg();
    return;
  }
  for (size_t i = 0; i < m.pieces.size(); i++) {
    if (i == m.typeAt)
      setType();
    const std::string &p = m.pieces[i];
    if (p.size() == 1)
      printer << p[0];
    else if (p.size() < 9 && p.find_first_not_of("0123456789") == std::string::npos && p[0] != '0')
      printer << std::stoi(p);
    else if (i & 1)
      printer << p.c_str();
    else
      printer << p;
    Pause(int(p.size()) & 3);
  }
  if (m.typeAt >= m.pieces.size())
    setType();
  BeginMsg(m);
  printer >> m.nl;
  EndMsg();
}
void Say2(const Msg &m, int tid);
