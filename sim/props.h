// Properties: how each one's runs are generated from a seed and judged.
#pragma once
#include "world.h"
struct RunResult { u64 hash = 0, sig = 0, rhash = 0, steps = 0, clk_span = 0; bool nontrivial = false; };
void gen_plan(const string &prop, u64 seed, u64 index, bool thorough, Plan &p);
void run_plan(const Plan &p, bool trace, RunResult &out, std::map<string, u64> *totals);
vector<string> prop_list();
