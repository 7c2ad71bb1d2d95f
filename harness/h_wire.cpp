// What crosses the socket between the scenario and the simulator: messages whole, answers to whom they belong (C29).
#include <google/protobuf/message.h>
#include <google/protobuf/descriptor.h>
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/operators.hpp>
#include <simulation_interface/zmq_multi_client.hpp>
#include <simulation_interface/zmq_multi_server.hpp>
#include <status_monitor/status_monitor.hpp>
#include "mc.hpp"
namespace
{
using mc::cat;
namespace pb = google::protobuf;
namespace si = simulation_interface;
using Text = std::map<std::string, std::string>;  // path -> value

// ------------------------------------------------------------------------------------------------ what a message holds, by name
template <class T> std::string number(const T & x) { std::ostringstream o; o.precision(17); o << +x; return o.str(); }
void dump(const pb::Message & m, const std::string & path, Text & out)
{
  auto r = m.GetReflection();
  auto d = m.GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    auto f = d->field(i);
    const int n = f->is_repeated() ? r->FieldSize(m, f) : 1;
    if (f->is_repeated()) out[path + std::string(f->name()) + "#"] = cat(n);
    if (f->containing_oneof() and not r->HasField(m, f)) continue;
    for (int k = 0; k < n; ++k) {
      const bool rep = f->is_repeated();
      const std::string p = path + std::string(f->name()) + (rep ? cat("[", k, "]") : std::string());
      switch (f->cpp_type()) {
        case pb::FieldDescriptor::CPPTYPE_MESSAGE: dump(rep ? r->GetRepeatedMessage(m, f, k) : r->GetMessage(m, f), p + ".", out); break;
        case pb::FieldDescriptor::CPPTYPE_DOUBLE: out[p] = number(rep ? r->GetRepeatedDouble(m, f, k) : r->GetDouble(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_FLOAT: out[p] = number(rep ? r->GetRepeatedFloat(m, f, k) : r->GetFloat(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_INT32: out[p] = number(rep ? r->GetRepeatedInt32(m, f, k) : r->GetInt32(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_UINT32: out[p] = number(rep ? r->GetRepeatedUInt32(m, f, k) : r->GetUInt32(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_INT64: out[p] = number(rep ? r->GetRepeatedInt64(m, f, k) : r->GetInt64(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_UINT64: out[p] = number(rep ? r->GetRepeatedUInt64(m, f, k) : r->GetUInt64(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_BOOL: out[p] = (rep ? r->GetRepeatedBool(m, f, k) : r->GetBool(m, f)) ? "true" : "false"; break;
        case pb::FieldDescriptor::CPPTYPE_STRING: out[p] = rep ? r->GetRepeatedString(m, f, k) : r->GetString(m, f); break;
        case pb::FieldDescriptor::CPPTYPE_ENUM: { auto v = f->enum_type()->FindValueByNumber(r->GetEnumValue(m, f)); out[p] = v ? std::string(v->name()) : cat("?", r->GetEnumValue(m, f)); break; }
      }
    }
  }
}
template <class M> auto dumpRos(const M & m, const std::string & path, Text & out) -> decltype(M::stub_constants(), void());
template <class T> auto dumpValue(const T & x, const std::string & p, Text & out, const std::vector<std::pair<std::string, long long>> & names)
{
  if constexpr (std::is_same_v<T, bool>) out[p] = x ? "true" : "false";
  else if constexpr (std::is_same_v<T, std::string>) out[p] = x;
  else if constexpr (std::is_integral_v<T>) {
    out[p] = number(x);
    if (names.size() and p.find("stamp") == std::string::npos) { out[p] = cat("?", +x); for (auto & [n, v] : names) if (v == (long long)x) out[p] = n; }
  } else if constexpr (std::is_floating_point_v<T>) out[p] = number(x);
  else dumpRos(x, p + ".", out);
}
template <class T> void dumpField(const std::string & p, const T & x, Text & out, const std::vector<std::pair<std::string, long long>> & names) { dumpValue(x, p, out, names); }
template <class T> void dumpField(const std::string & p, const std::vector<T> & x, Text & out, const std::vector<std::pair<std::string, long long>> & names)
{
  out[p + "#"] = cat(x.size());
  for (std::size_t i = 0; i < x.size(); ++i) dumpValue(x[i], cat(p, "[", i, "]"), out, names);
}
template <class M> auto dumpRos(const M & m, const std::string & path, Text & out) -> decltype(M::stub_constants(), void())
{
  m.stub_fields([&](const char * n, auto & x) { dumpField(path + n, x, out, M::stub_constants()); });
}

// ------------------------------------------------------------------------------------------------ every field set to its own value, one of them to a special one
struct Filler  // fields are numbered in order of visiting; field `special` takes its `pick`-th special value; two elements in each list
{
  int special = -1, pick = 0, seed = 0, lists = 2, same = 0, absent = -1;
  int n = 0, parts = 0;
  int own() const { return same ? n % same : n; }  // with `same`, values repeat
  bool hit = false;  // the special field exists and has that many special values
  template <class T> T value(const std::vector<T> & specials, T ordinary)
  {
    const int i = n++;
    if (i == special and pick < int(specials.size())) { hit = true; return specials[pick]; }
    return ordinary;
  }
  double real() { return value<double>({0.0, -0.0, -1.5, 1e-310, 1.7976931348623157e308, 0.1, 1e15 + 0.3, INFINITY, -INFINITY, NAN}, own() + 1.25 + seed); }
  float real32() { return value<float>({0.f, -0.f, -1.5f, 1e-40f, 3.4e38f, 0.1f, INFINITY, NAN}, own() + 1.25f + seed); }
  template <class T> T integer() { using L = std::numeric_limits<T>; return value<T>({0, 1, L::max(), L::min(), T(L::max() / 3)}, T(own() + 3 + seed)); }
  bool boolean() { return value<bool>({true, false}, (own() + seed) % 2); }
  std::string text() { return value<std::string>({"", " ", "a\nb", "\xe3\x81\x82", std::string(300, 'x')}, cat("text", own() + seed)); }
  int choice(int size) { std::vector<int> all; for (int i = 0; i < size; ++i) all.push_back(i); return value<int>(all, (own() + seed) % size); }
};
void fill(pb::Message & m, Filler & v)
{
  auto r = m.GetReflection();
  auto d = m.GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    auto f = d->field(i);
    const int n = f->is_repeated() ? v.lists : 1;
    for (int k = 0; k < n; ++k) {
      const bool rep = f->is_repeated();
      switch (f->cpp_type()) {
        case pb::FieldDescriptor::CPPTYPE_MESSAGE: if (not rep and v.parts++ == v.absent) break; fill(rep ? *r->AddMessage(&m, f) : *r->MutableMessage(&m, f), v); break;
        case pb::FieldDescriptor::CPPTYPE_DOUBLE: { auto x = v.real(); rep ? r->AddDouble(&m, f, x) : r->SetDouble(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_FLOAT: { auto x = v.real32(); rep ? r->AddFloat(&m, f, x) : r->SetFloat(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_INT32: { auto x = v.integer<std::int32_t>(); rep ? r->AddInt32(&m, f, x) : r->SetInt32(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_UINT32: { auto x = v.integer<std::uint32_t>(); rep ? r->AddUInt32(&m, f, x) : r->SetUInt32(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_INT64: { auto x = v.integer<std::int64_t>(); rep ? r->AddInt64(&m, f, x) : r->SetInt64(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_UINT64: { auto x = v.integer<std::uint64_t>(); rep ? r->AddUInt64(&m, f, x) : r->SetUInt64(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_BOOL: { auto x = v.boolean(); rep ? r->AddBool(&m, f, x) : r->SetBool(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_STRING: { auto x = v.text(); rep ? r->AddString(&m, f, x) : r->SetString(&m, f, x); break; }
        case pb::FieldDescriptor::CPPTYPE_ENUM: { auto x = f->enum_type()->value(v.choice(f->enum_type()->value_count()))->number(); rep ? r->AddEnumValue(&m, f, x) : r->SetEnumValue(&m, f, x); break; }
      }
    }
  }
}
template <class M> auto fillRos(M & m, Filler & v) -> decltype(M::stub_constants(), void());
template <class T> void fillValue(T & x, Filler & v, const std::vector<std::pair<std::string, long long>> & names)
{
  if constexpr (std::is_same_v<T, bool>) x = v.boolean();
  else if constexpr (std::is_same_v<T, std::string>) x = v.text();
  else if constexpr (std::is_integral_v<T>) x = names.empty() ? v.integer<T>() : T(names[v.choice(names.size())].second);
  else if constexpr (std::is_same_v<T, float>) x = v.real32();
  else if constexpr (std::is_floating_point_v<T>) x = v.real();
  else fillRos(x, v);
}
template <class T> void fillField(T & x, Filler & v, const std::vector<std::pair<std::string, long long>> & names) { fillValue(x, v, names); }
template <class T> void fillField(std::vector<T> & x, Filler & v, const std::vector<std::pair<std::string, long long>> & names) { x.resize(v.lists); for (auto & y : x) fillValue(y, v, names); }
template <class M> auto fillRos(M & m, Filler & v) -> decltype(M::stub_constants(), void())
{
  m.stub_fields([&](const char *, auto & x) { fillField(x, v, M::stub_constants()); });
}

// ------------------------------------------------------------------------------------------------ conversions
template <class Ros, class Proto> void there(const Ros & m, Proto & p)
{
  if constexpr (std::is_same_v<Proto, traffic_simulator_msgs::Vertex> or std::is_same_v<Proto, traffic_simulator_msgs::Polyline> or std::is_same_v<Proto, traffic_simulator_msgs::PolylineTrajectory>) p = si::toProtobufMessage(m);
  else si::toProto(m, p);
}
template <class Ros, class Proto> void back(const Proto & p, Ros & m)
{
  if constexpr (std::is_same_v<Proto, traffic_simulator_msgs::Vertex> or std::is_same_v<Proto, traffic_simulator_msgs::Polyline> or std::is_same_v<Proto, traffic_simulator_msgs::PolylineTrajectory>) m = si::toROS2Message(p);
  else si::toMsg(p, m);
}
bool compare(const Text & from, const Text & to, const std::string & key, const std::string & what, const std::set<std::string> & not_there = {})
{
  bool ok = true;
  std::set<std::string> paths;
  for (auto & [k, v] : from) paths.insert(k);
  for (auto & path : paths) {
    bool skip = false;
    for (auto & x : not_there) skip |= path.compare(0, x.size(), x) == 0 or path.find("." + x) != std::string::npos;
    if (skip) continue;
    auto i = to.find(path);
    if (i == to.end()) mc::violation(cat(key, " ", path), cat(path, " is lost ", what)), ok = false;
    else if (i->second != from.at(path)) mc::violation(cat(key, " ", path), cat(path, " ", from.at(path), " becomes ", i->second, " ", what)), ok = false;
  }
  return ok;
}
// fields that only one side has
const std::set<std::string> only_proto{"control_time", "is_defined_", "property"};
template <class Ros, class Proto> void pair(const char * name, const std::set<std::string> & only_ros = {})
{
  auto one = [&](Filler v, bool over, const std::string & which) {
    {
      Ros m, m2;
      Proto p;
      Filler a = v, b;
      b.seed = 7, b.lists = 1;
      fillRos(m, a);
      if (over) fill(p, b), fillRos(m2, b);  // into messages that held something else
      there(m, p);
      Text tm, tp, t2;
      dumpRos(m, "", tm), dump(p, "", tp);
      compare(tm, tp, cat(name, " to proto ", which), "on the way to the simulator", only_ros);
      back(p, m2);
      dumpRos(m2, "", t2);
      compare(tm, t2, cat(name, " round ", which), "on the way there and back", only_ros);
      if constexpr (std::is_same_v<Proto, simulation_api_schema::EntityStatus>) {
        Ros d;
        Text td;
        d.bounding_box = {}, d.lanelet_pose = {}, d.lanelet_pose_valid = false;
        dumpRos(d, "", td);
        for (auto & [k, x] : td) if ((k.find("bounding_box") == 0 or k.find("lanelet_pose") == 0) and t2[k] != x) mc::violation(cat(name, " rest ", k), cat(k, " is ", t2[k], " though nothing of it was sent"));
      }
      mc::executed(2);
      std::string all;
      for (auto & [k, x] : tp) all += k + x;
      mc::state(all), mc::outcome(all);
    }
    {
      Proto p;
      Ros m;
      Filler a = v, b;
      b.seed = 9, b.lists = 1;
      fill(p, a);
      if (over) fillRos(m, b);
      const std::string wire = p.SerializeAsString();
      Proto q;
      q = zeromq::toProto<Proto>(zeromq::toZMQ(p));
      Text ta, tb, tm;
      dump(p, "", ta), dump(q, "", tb);
      compare(ta, tb, cat(name, " wire ", which), "on the wire");
      back(p, m);
      dumpRos(m, "", tm);
      compare(ta, tm, cat(name, " to ros ", which), "on the way from the simulator", only_proto);
      mc::executed(3);
      std::string all;
      for (auto & [k, x] : ta) all += k + x;
      mc::outcome(all);
    }
  };
  for (bool over : {false, true}) {
    for (int lists = 0; lists <= 3; ++lists) for (int seed = 0; seed < 5; ++seed) {
      if (not mc::mine()) continue;
      Filler v;
      v.lists = lists, v.seed = seed;
      one(v, over, cat("plain ", lists, " ", seed));
    }
    for (int lists = 2; lists <= 3; ++lists) for (int same = 1; same <= 6; ++same) for (int seed = 0; seed < 2; ++seed) {
      if (not mc::mine()) continue;
      Filler v;
      v.lists = lists, v.seed = seed, v.same = same;
      one(v, over, cat("repeating ", lists, " ", same, " ", seed));
    }
    Filler parts;
    Proto whole;
    fill(whole, parts);
    for (int absent = 0; absent < parts.parts; ++absent) {
      if (not mc::mine()) continue;
      Filler v;
      v.absent = absent;
      one(v, over, cat("without ", absent));
    }
    Ros m;
    Filler count;
    fillRos(m, count);
    for (int i = 0; i < count.n + 5; ++i) for (int k = 0; k < 26; ++k) {
      if (not mc::mine()) continue;
      Filler v;
      v.special = i, v.pick = k;
      one(v, over, cat("field ", i, " value ", k));
    }
  }
}
void conversions()
{
  namespace T = traffic_simulator_msgs;
  pair<geometry_msgs::msg::Point, geometry_msgs::Point>("Point");
  pair<geometry_msgs::msg::Quaternion, geometry_msgs::Quaternion>("Quaternion");
  pair<geometry_msgs::msg::Pose, geometry_msgs::Pose>("Pose");
  pair<geometry_msgs::msg::Vector3, geometry_msgs::Vector3>("Vector3");
  pair<geometry_msgs::msg::Twist, geometry_msgs::Twist>("Twist");
  pair<geometry_msgs::msg::Accel, geometry_msgs::Accel>("Accel");
  pair<T::msg::BoundingBox, T::BoundingBox>("BoundingBox");
  pair<T::msg::Performance, T::Performance>("Performance");
  pair<T::msg::Axle, T::Axle>("Axle");
  pair<T::msg::Axles, T::Axles>("Axles");
  pair<T::msg::VehicleParameters, T::VehicleParameters>("VehicleParameters", {"subtype"});
  pair<T::msg::PedestrianParameters, T::PedestrianParameters>("PedestrianParameters", {"subtype"});
  pair<T::msg::MiscObjectParameters, T::MiscObjectParameters>("MiscObjectParameters", {"subtype"});
  pair<T::msg::ActionStatus, T::ActionStatus>("ActionStatus");
  pair<T::msg::LaneletPose, T::LaneletPose>("LaneletPose");
  pair<T::msg::EntityType, T::EntityType>("EntityType");
  pair<T::msg::EntitySubtype, T::EntitySubtype>("EntitySubtype");
  pair<T::msg::EntityStatus, T::EntityStatus>("EntityStatus");
  pair<T::msg::EntityStatus, simulation_api_schema::EntityStatus>("EntityStatus of the interface", {"bounding_box", "lanelet_pose", "lanelet_pose_valid"});
  pair<builtin_interfaces::msg::Duration, builtin_interfaces::Duration>("Duration");
  pair<builtin_interfaces::msg::Time, builtin_interfaces::Time>("Time");
  pair<rosgraph_msgs::msg::Clock, rosgraph_msgs::Clock>("Clock");
  pair<std_msgs::msg::Header, std_msgs::Header>("Header");
  pair<autoware_control_msgs::msg::Lateral, autoware_control_msgs::Lateral>("Lateral", only_proto);
  pair<autoware_control_msgs::msg::Longitudinal, autoware_control_msgs::Longitudinal>("Longitudinal", only_proto);
  pair<autoware_control_msgs::msg::Control, autoware_control_msgs::Control>("Control", only_proto);
  pair<autoware_vehicle_msgs::msg::GearCommand, autoware_vehicle_msgs::GearCommand>("GearCommand");
  pair<T::msg::Vertex, T::Vertex>("Vertex");
  pair<T::msg::Polyline, T::Polyline>("Polyline");
  pair<T::msg::PolylineTrajectory, T::PolylineTrajectory>("PolylineTrajectory");
}
void kinds()  // enumerated values there are not, and their names
{
  namespace T = traffic_simulator_msgs;
  for (int i = 0; i < 256; ++i) {
    if (not mc::mine()) continue;
    T::msg::EntityType t;
    T::msg::EntitySubtype s;
    t.type = i, s.value = i;
    std::string names[4];
    bool refused[2] = {false, false};
    T::EntityType pt;
    T::EntitySubtype ps;
    try { si::toProto(t, pt); } catch (const std::exception &) { refused[0] = true; }
    try { si::toProto(s, ps); } catch (const std::exception &) { refused[1] = true; }
    auto print = [](auto & x) { std::ostringstream o; try { using namespace traffic_simulator_msgs; o << x; } catch (const std::exception &) { return std::string("refused"); } return o.str(); };
    auto nameOf = [](auto & x, int v) { for (auto & [n, k] : std::decay_t<decltype(x)>::stub_constants()) if (k == v) return n; return std::string("refused"); };
    names[0] = print(t), names[1] = print(s);
    const std::string want[] = {nameOf(t, i), nameOf(s, i)};
    for (int k = 0; k < 2; ++k) {
      if (refused[k] != (want[k] == "refused")) mc::violation(cat("kind ", k, " ", i), cat(k ? "EntitySubtype " : "EntityType ", i, refused[k] ? " is refused" : " is sent"));
      if (names[k] != want[k]) mc::violation(cat("name ", k, " ", i), cat(k ? "EntitySubtype " : "EntityType ", i, " is called ", names[k], " instead of ", want[k]));
    }
    if (not refused[0] and print(pt) != want[0]) mc::violation(cat("proto name ", i), cat("EntityType ", i, " is called ", print(pt)));
    if (not refused[1] and print(ps) != want[1]) mc::violation(cat("proto name s", i), cat("EntitySubtype ", i, " is called ", print(ps)));
    pt.set_type(T::EntityType::Enum(i)), ps.set_value(T::EntitySubtype::Enum(i));
    refused[0] = refused[1] = false;
    try { si::toMsg(pt, t); } catch (const std::exception &) { refused[0] = true; }
    try { si::toMsg(ps, s); } catch (const std::exception &) { refused[1] = true; }
    for (int k = 0; k < 2; ++k) if (refused[k] != (want[k] == "refused")) mc::violation(cat("back ", k, " ", i), cat(k ? "EntitySubtype " : "EntityType ", i, refused[k] ? " is refused" : " is taken"));
    mc::executed(8), mc::outcome(cat(want[0], want[1]));
  }
}

// ------------------------------------------------------------------------------------------------ requests and their answers
using namespace simulation_api_schema;
struct Call { std::string kind; Text request; };
std::vector<Call> handled;
int answers;
template <class Q, class S> std::function<S(const Q &)> handler()
{
  return [](const Q & q) {
    Call c{std::string(Q::descriptor()->name()), {}};
    dump(q, "", c.request);
    handled.push_back(c);
    S s;
    Filler v;
    v.seed = 10 * ++answers;
    fill(s, v);
    return s;
  };
}
template <class Q, class S> bool ask(zeromq::MultiClient & c, int seed, const std::string & trace, bool open)
{
  Q q;
  Filler v;
  v.seed = seed, v.lists = seed % 3;
  fill(q, v);
  const auto before = handled.size();
  const int answer = answers + 1;
  S s = c.call(q);
  S want;
  Filler w;
  w.seed = 10 * answer;
  if (open) fill(want, w);
  Text a, b, t;
  dump(want, "", a), dump(s, "", b), dump(q, "", t);
  if (a != b) { mc::violation(cat("answer ", trace), cat("the answer to ", Q::descriptor()->name(), " is not what the simulator answered: ", trace)); return false; }
  if (handled.size() != before + open) { mc::violation(cat("handled ", trace), cat(Q::descriptor()->name(), " is handled ", handled.size() - before, " times: ", trace)); return false; }
  if (open and (handled.back().kind != Q::descriptor()->name() or handled.back().request != t)) { mc::violation(cat("request ", trace), cat(Q::descriptor()->name(), " reaches the simulator as another request (", handled.back().kind, "): ", trace)); return false; }
  mc::executed();
  return true;
}
#define EACH(F) F(Initialize) F(UpdateFrame) F(SpawnVehicleEntity) F(SpawnPedestrianEntity) F(SpawnMiscObjectEntity) F(DespawnEntity) F(UpdateEntityStatus) F(AttachImuSensor) F(AttachLidarSensor) F(AttachDetectionSensor) F(AttachOccupancyGridSensor) F(UpdateTrafficLights) F(AttachPseudoTrafficLightDetector) F(UpdateStepTime)
const std::vector<std::pair<const char *, bool (*)(zeromq::MultiClient &, int, const std::string &, bool)>> kinds_of_request{
#define F(X) {#X, ask<X##Request, X##Response>},
  EACH(F)
#undef F
};
std::unique_ptr<zeromq::MultiServer> server(unsigned port)
{
  return std::make_unique<zeromq::MultiServer>(si::TransportProtocol::TCP, si::HostName::ANY, port
#define F(X) , handler<X##Request, X##Response>()
    EACH(F)
#undef F
  );
}
void requests()
{
  // every sequence of requests up to the depth; `close` in between ends the conversation
  const int n = kinds_of_request.size(), depth = mc::thorough() ? 3 : 2;
  rclcpp::ok_flag() = true;
  handled.clear(), answers = 0;
  {
    const unsigned port = 7000;
    auto s = server(port);
    std::function<void(std::vector<int> &)> go = [&](std::vector<int> & q) {
      if (q.size() == std::size_t(depth) or (q.size() and q.back() == n)) {
        if (not mc::mine()) return;
        zeromq::MultiClient c(si::TransportProtocol::TCP, "localhost", port);
        std::string trace;
        bool open = true;
        int seed = 0;
        for (auto k : q) trace += cat(k == n ? "close" : kinds_of_request[k].first, " ");
        mc::current(trace);
        for (auto k : q) {
          if (k == n) c.closeConnection(), open = false;
          else if (not kinds_of_request[k].second(c, seed++, trace, open)) return;
        }
        if (not open) for (auto & k : kinds_of_request) if (not k.second(c, seed++, trace, false)) return;
        mc::outcome(trace), mc::state(trace);
        return;
      }
      for (int k = 0; k <= n; ++k) { q.push_back(k); go(q); q.pop_back(); }
    };
    std::vector<int> q;
    go(q);
    rclcpp::ok_flag() = false;
  }
  // where
  for (unsigned port : {1u, 5555u, 65535u}) for (auto & h : {std::string("localhost"), std::string("10.0.0.1")}) {
    if (not mc::mine()) continue;
    const auto e = si::getEndPoint(si::TransportProtocol::TCP, h, port);
    if (e != "tcp://" + h + ":" + std::to_string(port)) mc::violation("endpoint " + e, "the endpoint is " + e);
    mc::executed();
  }
  if (mc::mine()) {
    if (si::getEndPoint(si::TransportProtocol::TCP, si::HostName::ANY, 5u) != "tcp://*:5" or si::getEndPoint(si::TransportProtocol::TCP, si::HostName::LOCALHOST, 5u) != "tcp://localhost:5") mc::violation("endpoint", "the server listens elsewhere");
    mc::executed();
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every field of every message that crosses the socket with each of its special values (zero, negative, denormal, extreme, not finite, empty, long; every enumerated value), the other fields all "
                    "different, lists of zero to three elements, into fresh messages and such that held something else, both ways and on the wire; every sequence of requests up to the depth";
    conversions(), kinds(), requests();
  });
}
