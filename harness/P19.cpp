// P19: calibrations between coordinate frames give the truth whatever the delivery, alone and in parallel.
#include "catjudge.h"
SCENARIO(orientation, 2) { one(cat::orientation); }
SCENARIO(scale, 2) { one(cat::scale); }
SCENARIO(tooltip, 2) { one(cat::tooltip); }
SCENARIO(handeye, 2) { one(cat::handeye); }
SCENARIO(correlation, 2) { one(cat::correlation); }
SCENARIO(matching, 2) { one(cat::matching); }
SCENARIO(parallel, 6) { std::vector<cat::Gen> g; { sim::Rt r; g.push_back(cat::orientation); g.push_back(cat::scale); g.push_back(cat::tooltip); g.push_back(cat::handeye); g.push_back(cat::correlation); g.push_back(cat::matching); } mixed(g); }
