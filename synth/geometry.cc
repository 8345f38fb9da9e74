// Instantiates the templated entry points of the geometry base classes so that the analysis sees them.
#include <memory>
#include <utility>

#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/kd_tree_strategy.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"

namespace gb = maliput::geometry_base;
template gb::Lane* gb::Segment::AddLane<gb::Lane>(std::unique_ptr<gb::Lane>);
template gb::Segment* gb::Junction::AddSegment<gb::Segment>(std::unique_ptr<gb::Segment>);
template gb::Junction* gb::RoadGeometry::AddJunction<gb::Junction>(std::unique_ptr<gb::Junction>);
template gb::BranchPoint* gb::RoadGeometry::AddBranchPoint<gb::BranchPoint>(std::unique_ptr<gb::BranchPoint>);
template void gb::RoadGeometry::InitializeStrategy<gb::BruteForceStrategy>();
