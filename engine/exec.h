// Symbolic executor over the parsed IR.
#pragma once
#include "ir.h"
#include "solver.h"
#include <set>
struct JobOpts {
  std::string fn; std::vector<int64_t> params; uint64_t maxInstr = 400000; double maxTime = 600; uint64_t maxPaths = 0; unsigned slice = 0, slices = 1; unsigned sliceDepth = 6; unsigned ites = 2;
  unsigned samples = 8; bool keepGoing = false; bool trace = false;
};
struct Sample { std::vector<u128> inputs; std::vector<u128> obs; };
struct Violation { std::string kind, msg, where; std::vector<u128> inputs; };
struct JobResult {
  std::string status = "ok"; std::string reason;      // ok / violation / inconclusive / error
  uint64_t paths = 0, killed = 0, panics = 0, instrs = 0, forks = 0, checks = 0, checksTrivial = 0, checksSolved = 0, symInputs = 0, skippedSlices = 0; double secs = 0;
  std::set<std::string> covers; std::set<std::string> functions; std::vector<Sample> samples; std::vector<Violation> violations; std::set<std::string> checkMsgs;
  unsigned maxDepth = 0; uint64_t undefs = 0;
};
JobResult runJob(Module& M, const JobOpts& o);
