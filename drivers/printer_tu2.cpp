#include "printer_say.hpp"
void Say2(const Msg &m, int tid) { Say(m, tid); }
