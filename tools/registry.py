"""What each property's check builds, runs and assumes."""
import os
import vb
R, V = '$R', '$V'

I_CONCEALER = R + '/external/concealer/include'
STUB = V + '/stubs/include'
MSG_DIRS = [V + '/stubs/msgs', R + '/simulation/traffic_simulator_msgs', R + '/openscenario/openscenario_interpreter_msgs',
            R + '/openscenario/openscenario_preprocessor_msgs']

def target(name, sources, includes, **kw):
    return lambda: vb.build(name, [V + '/harness/' + s if '/' not in s else s for s in sources],
                            [V + '/harness'] + includes, **kw)

TSAN = '-fsanitize=thread -O1 -g1'
SCHED = {V + '/harness/sched.cpp': '-fno-sanitize=thread -O2 -fno-threadsafe-statics'}
CHECKS = {}

def check(pid, harnesses, level='model_checking', assumptions=(), technique='', note=''):
    CHECKS[pid] = dict(harnesses=harnesses, level=level, assumptions=list(assumptions), technique=technique, note=note)

def H(name, build, **kw): return dict(name=name, build=build, **kw)

check('C01', [H('task_queue', target('task_queue', ['h_task_queue.cpp', 'sched.cpp', R + '/external/concealer/src/task_queue.cpp'],
                                     [I_CONCEALER, STUB], flags=TSAN + ' -w', gen_msgs=MSG_DIRS, per_source_flags=SCHED, cxx='g++', ldflags='-fno-sanitize=thread -ldl -pthread'))],
      assumptions=[], technique='', note='')

check('C02', [H('status_monitor', target('status_monitor', ['h_status_monitor.cpp', 'sched.cpp'],
                                     [R + '/common/status_monitor/include', STUB],
                                     flags=TSAN + ' -w -DSTATUS_MONITOR_CPP=\\"%s/common/status_monitor/src/status_monitor.cpp\\"' % vb.REPO,
                                     gen_msgs=MSG_DIRS, per_source_flags=SCHED, ldflags='-fno-sanitize=thread -ldl -pthread'))],
      assumptions=[], technique='', note='')

SAN = '-O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all'
OPT = '-O2 -g1 -w'
check('C03', [H('job', target('job', ['h_job.cpp', R + '/simulation/traffic_simulator/src/job/job.cpp', R + '/simulation/traffic_simulator/src/job/job_list.cpp'],
                              [R + '/simulation/traffic_simulator/include', STUB], flags=OPT, gen_msgs=MSG_DIRS))])
check('C05', [H('grid', target('grid', ['h_grid.cpp', R + '/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp'],
                               [R + '/simulation/simple_sensor_simulator/include'], flags=OPT))])
check('C06', [H('collision', target('collision', ['h_collision.cpp'], [R + '/test_runner/random_test_runner/include'], flags=OPT))])
I_EXC = R + '/common/scenario_simulator_exception/include'
check('C04', [H('junit', target('junit', ['h_junit.cpp', R + '/common/simple_junit/src/test_suites.cpp'],
                               [R + '/common/simple_junit/include', I_EXC], flags=OPT, ldflags='-lpugixml'))])

I_OSC = R + '/openscenario/openscenario_interpreter/include'
OSC = R + '/openscenario/openscenario_interpreter/src'
TS = R + '/simulation/traffic_simulator'
SI = R + '/simulation/simulation_interface'
I_BASE = [I_OSC, I_EXC, R + '/common/simple_junit/include', TS + '/include', SI + '/include', I_CONCEALER]
# the sources of the interpreter that need nothing of ROS
SYNTAX0 = [OSC + '/syntax/%s.cpp' % x for x in (
  'boolean catalog_definition command condition_edge coordinate_system double following_mode fractional_cloud_cover integer '
  'parameter_type precipitation_type priority reference_context relative_distance_type route_strategy routing_algorithm rule '
  'storyboard_element_state storyboard_element_type triggering_entities_rule unsigned_integer unsigned_short wetness').split() if x != 'catalog_definition'] + [
  OSC + '/compatibility.cpp', OSC + '/object.cpp', OSC + '/utility/demangle.cpp', OSC + '/posix/fork_exec.cpp']
PCH0 = V + '/stubs/include/prelude_osc.hpp'
check('C07', [H('enum', target('enum', ['h_enum.cpp'] + SYNTAX0 + [TS + '/src/data_type/behavior.cpp', TS + '/src/data_type/routing_graph_type.cpp', SI + '/src/constants.cpp'],
                               I_BASE, flags='-O1 -g1 -w', pch=PCH0))])
check('C08', [H('literal', target('literal', ['h_literal.cpp'] + SYNTAX0, I_BASE, flags='-O2 -g1 -w', pch=PCH0))])
check('C09', [H('rule', target('rule', ['h_rule.cpp'] + SYNTAX0, I_BASE, flags=SAN, pch=PCH0))])
check('C10', [H('command', target('command', ['h_command.cpp', R + '/external/concealer/src/execute.cpp'] + SYNTAX0, I_BASE, flags=OPT, pch=PCH0))])

# the whole interpreter, on a stand-in for the simulator
CORE_INC = [V + '/stubs/mock_core'] + I_BASE + [R + '/common/math/geometry/include', R + '/common/math/arithmetic/include', R + '/common/status_monitor/include', R + '/common/get_parameter/include', STUB, '/usr/include/eigen3']
CORE_SRC = [OSC + '/**/*.cpp', R + '/common/simple_junit/src/*.cpp', TS + '/src/data_type/behavior.cpp', TS + '/src/data_type/lane_change.cpp', TS + '/src/data_type/speed_change.cpp', TS + '/src/data_type/entity_status.cpp', TS + '/src/data_type/routing_graph_type.cpp',
            R + '/external/concealer/src/execute.cpp', R + '/common/math/geometry/src/transform.cpp']
def core(name, harness):
    return target(name, ['h_core_main.cpp', 'mock_core.cpp'] + harness + CORE_SRC, CORE_INC, flags='-O0 -w', gen_msgs=MSG_DIRS, pch=V + '/stubs/include/prelude_core.hpp',
                  exclude=[OSC + '/openscenario_interpreter_node.cpp'], ldflags='-lpugixml -lboost_json -lboost_filesystem -ldl -pthread', share='core', unity=8)

for pid in ('C11', 'C12'): check(pid, [H('story', core('core_story', ['h_story.cpp']))])
check('C13', [H('condition', core('core_condition', ['h_condition.cpp']))])
check('C24', [H('story', core('core_story', ['h_story.cpp']))])
check('C14', [H('verdict', core('core_verdict', ['h_verdict.cpp']))])
check('C15', [H('scope', core('core_scope', ['h_scope.cpp']))])
check('C20', [H('expression', core('core_expression', ['h_expression.cpp']))])
check('C17', [H('parameter', core('core_parameter', ['h_parameter.cpp']))])
check('C18', [H('signal', core('core_signal', ['h_signal.cpp']))])
check('C19', [H('entity', core('core_entity', ['h_entity.cpp']))])
check('C21', [H('action', core('core_action', ['h_action.cpp']))])

CON = R + '/external/concealer'
check('C26', [H('autoware', target('autoware', ['h_autoware.cpp', CON + '/src/field_operator_application.cpp', CON + '/src/is_package_exists.cpp', CON + '/src/path_with_lane_id.cpp'],
                                   [V + '/stubs/foa', I_CONCEALER, I_EXC, R + '/common/get_parameter/include', STUB], flags='-O1 -g1 -w', gen_msgs=MSG_DIRS + [V + '/stubs/msgs_autoware'],
                                   ldflags='-Wl,--wrap=kill,--wrap=killpg,--wrap=waitpid,--wrap=sigtimedwait -pthread'))])
check('C27', [H('vehicle', target('vehicle', ['h_vehicle.cpp', CON + '/src/autoware_universe.cpp', CON + '/src/publisher.cpp', CON + '/src/path_with_lane_id.cpp'],
                                  [I_CONCEALER, I_EXC, R + '/common/get_parameter/include', R + '/common/math/geometry/include', R + '/common/math/arithmetic/include', STUB, '/usr/include/eigen3'], flags='-O1 -g1 -w', gen_msgs=MSG_DIRS + [V + '/stubs/msgs_autoware'],
                                  ldflags='-latomic -pthread'))])
check('C28', [H('lights', target('lights', ['h_lights.cpp'] + [TS + '/src/traffic_lights/%s.cpp' % x for x in ('traffic_light', 'traffic_lights', 'traffic_lights_base', 'traffic_light_publisher', 'traffic_light_marker_publisher', 'configurable_rate_updater')] + [TS + '/src/utils/traffic_lights.cpp'],
                                 [V + '/stubs/lights', I_EXC, TS + '/include', SI + '/include', R + '/common/math/geometry/include', STUB], flags='-O1 -g1 -w', gen_msgs=MSG_DIRS, protos=True, ldflags='-lprotobuf -pthread'))])
check('C29', [H('wire', target('wire', ['h_wire.cpp'] + [SI + '/src/%s.cpp' % x for x in ('conversions', 'operators', 'constants', 'zmq_multi_client', 'zmq_multi_server')],
                               [V + '/stubs/wire', I_EXC, SI + '/include', STUB], flags='-O1 -g1 -w', gen_msgs=MSG_DIRS, protos=True, ldflags='-lprotobuf -pthread'))])

SSS = R + '/simulation/simple_sensor_simulator'
GEO = R + '/common/math/geometry'
SENSORS = ([SSS + '/src/simple_sensor_simulator.cpp'] + [SSS + '/src/sensor_simulation/%s.cpp' % x for x in ('sensor_simulation', 'lidar/lidar_noise_model_v1', 'lidar/raycaster', 'lidar/lidar_sensor', 'primitives/primitive', 'primitives/box', 'imu/imu_sensor',
            'detection_sensor/detection_sensor', 'occupancy_grid/occupancy_grid_sensor', 'occupancy_grid/occupancy_grid_builder', 'occupancy_grid/grid_traversal')] +
           [SI + '/src/%s.cpp' % x for x in ('conversions', 'operators', 'constants')] + [GEO + '/src/%s.cpp' % x for x in ('bounding_box', 'plane', 'transform', 'polygon/polygon', 'polygon/line_segment', 'vector3/ros_msg_converter', 'distance', 'intersection/collision', 'intersection/intersection')] +
           [TS + '/src/traffic_lights/traffic_light_publisher.cpp', R + '/external/concealer/src/publisher.cpp'])
SENSORS_INCLUDES = [V + '/stubs/sensors', V + '/stubs/lights', SSS + '/include', I_EXC, TS + '/include', SI + '/include', GEO + '/include', R + '/external/concealer/include', R + '/common/get_parameter/include', R + '/common/agnocast_wrapper/include', '/usr/include/eigen3', STUB]
SENSORS_MSGS = MSG_DIRS + [V + '/stubs/msgs_autoware', V + '/stubs/msgs_sensors']
check('C30', [H('server', target('server', ['h_server.cpp'] + SENSORS, SENSORS_INCLUDES, flags='-O1 -g1 -w', gen_msgs=SENSORS_MSGS, protos=True, ldflags='-lprotobuf -pthread'))])
DETECT = target('detect', ['h_detect.cpp'] + [SSS + '/src/sensor_simulation/detection_sensor/detection_sensor.cpp'] + [SI + '/src/%s.cpp' % x for x in ('conversions', 'operators', 'constants')] +
                [GEO + '/src/%s.cpp' % x for x in ('bounding_box', 'plane', 'transform', 'polygon/polygon', 'polygon/line_segment', 'vector3/ros_msg_converter', 'distance', 'intersection/collision', 'intersection/intersection')],
                SENSORS_INCLUDES, flags='-O1 -g1 -w', gen_msgs=SENSORS_MSGS, protos=True, ldflags='-lprotobuf -pthread')
check('C31', [H('detect' + n, DETECT, args=['--mode', n]) for n in ('0', '1', '2')])
check('C32', [H('scan', target('scan', ['h_scan.cpp'] + SENSORS[1:], SENSORS_INCLUDES, flags='-O2 -g1 -w', gen_msgs=SENSORS_MSGS, protos=True, ldflags='-lprotobuf -pthread'))])
GEO_ALL = [GEO + '/src/%s.cpp' % x for x in ('bounding_box', 'plane', 'transform', 'polygon/polygon', 'polygon/line_segment', 'vector3/ros_msg_converter', 'distance', 'intersection/collision', 'intersection/intersection', 'solver/polynomial_solver', 'spline/catmull_rom_spline', 'spline/catmull_rom_subspline', 'spline/hermite_curve')]
GEO_INCLUDES = [V + '/stubs/lights', I_EXC, GEO + '/include', '/usr/include/eigen3', STUB]
check('C25', [H('geo', target('geo', ['h_geo.cpp'] + GEO_ALL[:9], GEO_INCLUDES, flags='-O2 -g1 -w', gen_msgs=MSG_DIRS))])
check('C33', [H('spline', target('spline', ['h_spline.cpp'] + GEO_ALL, GEO_INCLUDES, flags='-O2 -g1 -w', gen_msgs=MSG_DIRS))])
ROADS = [TS + '/src/' + x + '.cpp' for x in ('lanelet_wrapper/lanelet_loader', 'lanelet_wrapper/lanelet_map', 'lanelet_wrapper/pose', 'lanelet_wrapper/distance', 'lanelet_wrapper/lane_change', 'lanelet_wrapper/route', 'lanelet_wrapper/lanelet_wrapper', 'lanelet_wrapper/traffic_rules',
         'lanelet_wrapper/traffic_lights', 'utils/pose', 'utils/distance', 'utils/route', 'utils/lanelet_map', 'data_type/lanelet_pose', 'data_type/entity_status', 'data_type/routing_graph_type', 'data_type/lane_change', 'helper/helper', 'helper/ostream_helpers', 'behavior/route_planner', 'color_utils/color_utils')] + GEO_ALL
ROADS_INCLUDES = [V + '/stubs/lanelet2', I_EXC, TS + '/include', SI + '/include', GEO + '/include', R + '/common/get_parameter/include', R + '/external/concealer/include', '/usr/include/eigen3', STUB]
check('C34', [H('road', target('road', ['h_road.cpp'] + ROADS, ROADS_INCLUDES, flags='-O1 -g1 -w', gen_msgs=MSG_DIRS, protos=True, ldflags='-lprotobuf -lyaml-cpp -lboost_serialization -pthread'))])
check('C35', [H('route', target('route', ['h_route.cpp'] + ROADS, ROADS_INCLUDES, flags='-O1 -g1 -w', gen_msgs=MSG_DIRS, protos=True, ldflags='-lprotobuf -lyaml-cpp -lboost_serialization -pthread'))])
check('C36', [H('object', target('object', ['h_object.cpp', TS + '/src/utils/traffic_lights.cpp'] + ROADS, ROADS_INCLUDES, flags='-O1 -g1 -w', gen_msgs=MSG_DIRS, protos=True, ldflags='-lprotobuf -lyaml-cpp -lboost_serialization -pthread'))])
BTP = R + '/simulation/behavior_tree_plugin'
NPC = [TS + '/src/' + x + '.cpp' for x in ('entity/entity_base', 'entity/entity_manager', 'entity/vehicle_entity', 'entity/pedestrian_entity', 'entity/misc_object_entity', 'behavior/longitudinal_speed_planning', 'behavior/follow_trajectory', 'behavior/follow_waypoint_controller',
                                           'job/job', 'job/job_list', 'data_type/speed_change', 'data_type/behavior', 'utils/traffic_lights', 'traffic_lights/traffic_lights', 'traffic_lights/traffic_light', 'traffic_lights/traffic_lights_base',
                                           'traffic_lights/configurable_rate_updater', 'traffic_lights/traffic_light_publisher', 'traffic_lights/traffic_light_marker_publisher')] + [
       BTP + '/src/' + x + '.cpp' for x in ('action_node', 'transition_events/logging_event', 'transition_events/reset_request_event', 'transition_events/transition_event', 'vehicle/behavior_tree', 'vehicle/vehicle_action_node', 'vehicle/lane_change_action',
                                            'vehicle/follow_trajectory_sequence/follow_polyline_trajectory_action', 'vehicle/follow_lane_sequence/follow_lane_action', 'vehicle/follow_lane_sequence/follow_front_entity_action',
                                            'vehicle/follow_lane_sequence/stop_at_traffic_light_action', 'vehicle/follow_lane_sequence/stop_at_stop_line_action', 'vehicle/follow_lane_sequence/stop_at_crossing_entity_action',
                                            'vehicle/follow_lane_sequence/yield_action', 'vehicle/follow_lane_sequence/move_backward_action', 'pedestrian/behavior_tree', 'pedestrian/pedestrian_action_node', 'pedestrian/follow_lane_action',
                                            'pedestrian/walk_straight_action', 'pedestrian/follow_trajectory_sequence/follow_polyline_trajectory_action')] + [R + '/simulation/do_nothing_plugin/src/plugin.cpp'] + ROADS
NPC_INCLUDES = [V + '/stubs/bt', R + '/common/math/arithmetic/include', BTP + '/include', R + '/simulation/do_nothing_plugin/include'] + ROADS_INCLUDES
NPC_T = target('npc', ['h_npc.cpp', 'npc_speed.cpp', 'npc_book.cpp', 'npc_track.cpp', 'npc_drive.cpp'] + NPC, NPC_INCLUDES, unity=8, flags='-O1 -g1 -w -include npc_prelude.hpp', gen_msgs=MSG_DIRS + [V + '/stubs/msgs_autoware'], protos=True, ldflags='-lpugixml -lprotobuf -lyaml-cpp -lboost_serialization -pthread')
check('C37', [H('npc', NPC_T)])
check('C38', [H('npc', NPC_T, args=['--mode', '1'])])
check('C40', [H('npc', NPC_T, args=['--mode', '3'])])
