// Bridge to the code under test and the simulated application runtime.
#pragma once
#include "run.h"

struct TaskSched { double period = 0; std::vector<long double> init, starts; long double p = 0; };
struct PubSched { bool ok = false; long double omega = 0; std::map<std::string, TaskSched> t; std::string raw; };
PubSched parseSched(const std::string& s);

// executes a published time-triggered schedule; returns "" or what went wrong
std::string executeSchedule(Ctx& c, const Graph& g, const PubSched& s, bool jitter, int iterations, double slack = 1e-7);
// reads the schedule lines printed by the scheduling commands
PubSched parsePrinted(const std::string& out, const std::string& periodKey);
// self-timed execution with stalls up to a horizon, then fault free; long-run rate of every task per iteration
struct Stall { int maxDelay = 0; ll until = 0; };
Thr disturbed(Ctx& c, const Graph& g, const Stall& st, ll budget);
double ratio(const Thr& t);
std::string thrStr(const Thr& t);
