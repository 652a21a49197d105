// P20: camera calibrations and poses from images give the truth whatever the delivery, alone and in parallel.
#include "catjudge.h"
SCENARIO(homography, 2) { one(cat::homography); }
SCENARIO(fundamental, 2) { one(cat::fundamental); }
SCENARIO(projection, 2) { one(cat::projection); }
SCENARIO(pose2d3d, 2) { one(cat::pose2d3d); }
SCENARIO(points, 2) { one(cat::points); }
SCENARIO(lens, 2) { one(cat::lens); }
SCENARIO(bundle, 2) { one(cat::bundle); }
SCENARIO(multicam, 2) { one(cat::multicam); }
SCENARIO(bundles, 2) { one(cat::bundles); }
SCENARIO(parallel, 6) { std::vector<cat::Gen> g; { sim::Rt r; g.push_back(cat::homography); g.push_back(cat::fundamental); g.push_back(cat::projection); g.push_back(cat::pose2d3d); g.push_back(cat::points); g.push_back(cat::lens); g.push_back(cat::bundle); g.push_back(cat::multicam); g.push_back(cat::bundles); } mixed(g); }
