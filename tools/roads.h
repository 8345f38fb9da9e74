// A road network of straight lanes in the plane.
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "maliput/api/road_network.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/traffic_light_book.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/brute_force_find_road_positions_strategy.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"
#include "maliput/geometry_base/strategy_base.h"
namespace roads {
using namespace maliput;
using maliput::math::Vector3;
struct Lane : geometry_base::Lane {
  Vector3 a, b; double half;
  Lane(const std::string& id, Vector3 a_, Vector3 b_, double half_) : geometry_base::Lane(api::LaneId(id)), a(a_), b(b_), half(half_) {}
  Vector3 dir() const { return (b - a).normalized(); }
  Vector3 left() const { return Vector3(-dir().y(), dir().x(), 0.); }
  double do_length() const override { return (b - a).norm(); }
  api::RBounds do_lane_bounds(double) const override { return {-half, half}; }
  api::RBounds do_segment_bounds(double) const override { return {-half, half}; }
  api::HBounds do_elevation_bounds(double, double) const override { return {0., 5.}; }
  api::InertialPosition DoToInertialPosition(const api::LanePosition& p) const override {
    return api::InertialPosition::FromXyz(a + p.s() * dir() + p.r() * left() + Vector3(0., 0., p.h())); }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override { return api::Rotation::FromRpy(0., 0., std::atan2(dir().y(), dir().x())); }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity& v) const override { return {v.sigma_v, v.rho_v, v.eta_v}; }
  api::LanePositionResult DoToLanePosition(const api::InertialPosition& q) const override {
    const Vector3 d = q.xyz() - a;
    auto clamp = [](double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; };
    const api::LanePosition lp(clamp(d.dot(dir()), 0., do_length()), clamp(d.dot(left()), -half, half), clamp(d.z(), 0., 5.));
    const api::InertialPosition n = DoToInertialPosition(lp);
    return {lp, n, n.Distance(q)}; }
};
struct RG : geometry_base::RoadGeometry {
  RG() : geometry_base::RoadGeometry(api::RoadGeometryId("rg"), 1e-3, 1e-3, 1., Vector3(0., 0., 0.)) {}
  std::vector<api::RoadPositionResult> DoFindRoadPositions(const api::InertialPosition& q, double radius) const override {
    std::vector<api::RoadPositionResult> r;
    for (const auto& l : ById().GetLanes()) { const auto p = l.second->ToLanePosition(q); if (p.distance <= radius) r.push_back({{l.second, p.lane_position}, p.nearest_position, p.distance}); }
    return r; }
  api::RoadPositionResult DoToRoadPosition(const api::InertialPosition& q, const std::optional<api::RoadPosition>&) const override {
    auto all = DoFindRoadPositions(q, 1e9); size_t best = 0;
    for (size_t i = 1; i < all.size(); ++i) if (all[i].distance < all[best].distance) best = i;
    return all[best]; }
};
struct Net {
  std::unique_ptr<RG> rg = std::make_unique<RG>();
  geometry_base::Junction* junction = rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j")));
  std::map<std::string, geometry_base::BranchPoint*> bps;
  // A segment from a to b with n lanes, right to left, each `width` wide, the rightmost centred on a-b.
  geometry_base::Segment* segment(const std::string& id, Vector3 a, Vector3 b, int n = 1, double width = 4.) {
    auto* s = junction->AddSegment(std::make_unique<geometry_base::Segment>(api::SegmentId(id)));
    const Vector3 d = (b - a).normalized(), left(-d.y(), d.x(), 0.);
    for (int i = 0; i < n; ++i) s->AddLane(std::make_unique<Lane>(id + ":" + std::to_string(i), a + (i * width) * left, b + (i * width) * left, width / 2));
    return s; }
  Lane* lane(geometry_base::Segment* s, int i) { return const_cast<Lane*>(static_cast<const Lane*>(static_cast<api::Segment*>(s)->lane(i))); }
  Lane* lane(const std::string& id) { return const_cast<Lane*>(static_cast<const Lane*>(rg->ById().GetLane(api::LaneId(id)))); }
  geometry_base::BranchPoint* bp(const std::string& id) {
    if (!bps.count(id)) bps[id] = rg->AddBranchPoint(std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(id)));
    return bps[id]; }
  void a(const std::string& bpid, const std::string& lane_id, bool start) { bp(bpid)->AddABranch(lane(lane_id), start ? api::LaneEnd::kStart : api::LaneEnd::kFinish); }
  void b(const std::string& bpid, const std::string& lane_id, bool start) { bp(bpid)->AddBBranch(lane(lane_id), start ? api::LaneEnd::kStart : api::LaneEnd::kFinish); }
  std::unique_ptr<api::RoadNetwork> done() {
    const api::RoadGeometry* g = rg.get();
    auto book = std::make_unique<ManualRulebook>(); const ManualRulebook* k = book.get();
    return std::make_unique<api::RoadNetwork>(std::move(rg), std::move(book), std::make_unique<TrafficLightBook>(),
        std::make_unique<IntersectionBook>(g), std::make_unique<ManualPhaseRingBook>(), std::make_unique<ManualPhaseProvider>(),
        std::make_unique<api::rules::RuleRegistry>(), std::make_unique<ManualDiscreteValueRuleStateProvider>(k),
        std::make_unique<ManualRangeValueRuleStateProvider>(k)); }
};
}  // namespace roads
