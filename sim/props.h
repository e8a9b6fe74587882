// The properties: how a run is generated from a seed, executed and judged.
#pragma once
#include "app.h"
#include "plan.h"
#include "results.h"

namespace sim {

struct Outcome {
  Failures f;
  std::string inconclusive;      // reason for no verdict (simulator limits)
  std::string sig;               // what makes this run distinct; empty: nothing was decided
  uint64_t hash = 0;             // everything observed
  std::map<std::string, double> probes; // rare conditions, fired faults
  std::map<std::string, double> worst;  // extreme measured values
  // decisions of every scheduled run (for replay with explicit decisions)
  std::map<int, std::vector<std::pair<uint64_t, int>>> decisions;
};

std::vector<std::string> propIds();
Plan genPlan(const std::string &prop, uint64_t seed, const std::string &tier);
Outcome runPlan(const Plan &p);
// the other build of the same program (C16)
AppRun makeRun(const Plan &p, int run); // settings of one run of a plan
// writes a plan's inputs and its true geometry to a directory (for demonstrations)
void exportScene(const Plan &p, const std::string &dir, bool images);
void setOtherBinary(const std::string &path);

} // namespace sim
