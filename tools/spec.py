"""The properties, and how each is decided. `gen_manifest.py` writes properties.jsonl and MANIFEST.json from this."""
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique='', note='', observe=(), state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               **({'observe_at': list(observe)} if observe else {}),
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                  technique=technique, note=note, na=na))

prop('C01', 'Requests to Autoware run once and in order; the first failure surfaces',
     'Every request handed to the background queue is executed exactly once, on the queue\'s own thread, in the order of hand-over, and the queue reports itself exhausted only when every request accepted so far has finished. The first exception of a request stops the queue and reaches the client at its next check, never a later one and never nobody. Construction, use from several threads and destruction finish under every thread schedule, without data race.',
     ['schedules', 'histories'], 'every interleaving (up to a bound on scheduling deviations) of the dispatcher thread with client programs of up to four operations',
     'The repository has no test of the queue; one run of a test sees one interleaving out of thousands.',
     ['external/concealer/src/task_queue.cpp', 'external/concealer/include/concealer/task_queue.hpp'],
     [('dispatcher thread', 'concealer::TaskQueue::TaskQueue'), ('hand-over', 'TaskQueue::delay'), ('failure hand-back', 'TaskQueue::rethrow'), ('shutdown', 'TaskQueue::~TaskQueue')],
     'stateless model checking of the real code: every schedule up to a deviation bound under a controlled scheduler with a virtual clock, happens-before race detection',
     'The real task_queue.cpp runs; pthread, clock and sleep calls are interposed. Exhaustive over client programs of the stated length and schedules with at most the stated number of deviations from run-to-block; sequentially consistent memory plus race detection.',
     ['external/concealer TaskQueue API'])
prop('C02', 'The status monitor reports health truthfully and never blocks or races',
     'The status file says the process is alive exactly as long as every monitored function has been touched within its threshold, names each of them, and is removed or final when the process ends. Touching from any number of threads, overriding the threshold and destroying the monitor finish under every thread schedule, without data race.',
     ['schedules'], 'every interleaving (up to a deviation bound) of one or two client threads and the watchdog on a virtual clock',
     'The repository has no test of the monitor; a hang at exit needs a particular moment relative to the watchdog\'s period.',
     ['common/status_monitor/src/status_monitor.cpp', 'common/status_monitor/include/status_monitor/status_monitor.hpp'],
     [('watchdog', 'common::StatusMonitor watchdog thread'), ('touch', 'StatusMonitor::touch'), ('shutdown', 'StatusMonitor::~StatusMonitor')],
     'stateless model checking of the real code: every schedule up to a deviation bound under a controlled scheduler with a virtual clock, happens-before race detection',
     'The real status_monitor.cpp is compiled in; pthread, clock and sleep calls are interposed.')
prop('C03', 'Entity jobs: exclusive ones replace their kind, finished ones end once',
     'Jobs appended to an entity run at every update of their phase until they report completion, in the order of appending and with the time passed since they were appended; a completed or replaced job is cleaned up exactly once and never runs again. Appending a job ends exactly the still active earlier jobs of the same kind and exclusiveness, so at most one of each is active.',
     ['histories'], 'every sequence of appends (kind, exclusiveness, phase, lifetime) and updates up to the depth',
     'The only test calls a single job once; what happens depends on the history of appends and updates.',
     ['simulation/traffic_simulator/src/job/job.cpp', 'simulation/traffic_simulator/src/job/job_list.cpp', 'simulation/traffic_simulator/include/traffic_simulator/job/job_list.hpp'],
     [('replacement', 'traffic_simulator::job::JobList::append'), ('execution', 'JobList::update'), ('end of life', 'Job::inactivate / Job::onUpdate')],
     'explicit enumeration of all operation sequences up to a depth on the real code, compared with a reference model at every step', 'All sequences up to the depth; callbacks that append jobs themselves are outside the bound.')
prop('C04', 'A JUnit report contains exactly the results that were recorded',
     'Whatever sequence of passes, failures and errors is recorded under whatever suite and case names, the report written is well-formed XML that, read back, contains each of them exactly once under its own case, with type and message intact. The counts and times at every level equal the sums of what they contain.',
     ['histories', 'inputs'], 'every history of records up to the depth over names, types and messages that need escaping, for both report writers',
     'The repository has no test of the report writers; whether a count is right depends on the whole history.',
     ['common/simple_junit/include/simple_junit/junit5.hpp', 'common/simple_junit/include/simple_junit/test_suites.hpp', 'common/simple_junit/src/test_suites.cpp', 'common/simple_junit/include/simple_junit/test_suite.hpp', 'common/simple_junit/include/simple_junit/test_case.hpp'],
     [('JUnit 5 report', 'common::junit::JUnit5'), ('xUnit report', 'common::junit::TestSuites / SimpleTestSuites')],
     'explicit enumeration of all record histories up to a depth on the real code; each report is read back and compared with a reference model', 'pugixml is trusted for reading back.')
prop('C05', 'Grid traversal visits exactly the cells a ray passes through',
     'For every segment the traversal visits, from the start cell on, each grid cell whose interior the segment crosses (the one that holds its end may be left out) exactly once, in the order of crossing and each next to the one before, and then ends. This holds for starts and ends on cell borders and corners, for axis-parallel and diagonal segments and for negative coordinates.',
     ['inputs'], 'every segment between points of a lattice with four points per cell edge',
     'Five tests use five segments; the failures sit at borders, corners and negative coordinates.',
     ['simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp'],
     [('cell stepping', 'GridTraversal::Iterator::operator++')],
     'exhaustive enumeration of a bounded input lattice on the real code against exact rational geometry', 'All segments of the lattice; the oracle uses integer arithmetic.')
prop('C06', 'A collision is counted anew only after half a second without contact',
     'For every history of contacts of the ego vehicle, a contact is counted as a new collision exactly when the same other vehicle was not in contact during the half second before; contacts with different vehicles are counted independently of each other.',
     ['histories'], 'every sequence of contacts with three vehicles at times around the limit, up to the depth',
     'Eight tests use at most two contacts each.',
     ['test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp'],
     [('debounce', 'EgoCollisionMetric::isThereEgosCollisionWith')],
     'explicit enumeration of all contact histories up to a depth on the real code against a reference model', 'All histories up to the depth over a dyadic time set, so that the oracle computes exactly.')
prop('C07', 'Enumerated attribute values: every schema value is recognised, nothing else is',
     'Every value the OpenSCENARIO schema allows for an enumerated attribute is read as itself and printed back as itself (deprecated names as their successor), values the interpreter does not support and every other text are refused with an error that names the text, and an unset optional value means its documented default. The names the system uses for behaviors, routing graphs and endpoints are the documented ones.',
     ['inputs'], 'every enumeration type with every value of every type and every single-character corruption of its own values',
     'Only the priority attribute has tests, with a dozen values; there are eighteen such types.',
     ['openscenario/openscenario_interpreter/src/syntax/*.cpp (enumerations)', 'openscenario/openscenario_interpreter/src/compatibility.cpp', 'simulation/traffic_simulator/src/data_type/behavior.cpp', 'simulation/traffic_simulator/src/data_type/routing_graph_type.cpp', 'simulation/simulation_interface/src/constants.cpp'],
     [('reading', 'operator>> of each enumeration type'), ('printing', 'operator<< of each enumeration type')],
     'exhaustive enumeration of a bounded input space on the real code against the schema\'s tables', 'All single-character edits of all values; longer corruptions only as far as they are values of another type.')
prop('C08', 'Literals are read exactly, completely, or refused',
     'A text given for a value of type double, integer, unsignedInt, unsignedShort or boolean is either, as a whole, a literal of that type within its range and read as exactly that value, or refused with a syntax error; this is the same for attributes and for declared parameters. A value that is printed and read back, as parameter references do, is unchanged.',
     ['inputs'], 'every string up to the length over the alphabets of numbers and their signs, exponents and special values; all edits of the boolean words; the limits of every integral type',
     'Tests try fifteen literals of one type.',
     ['openscenario/openscenario_interpreter/src/syntax/double.cpp', 'openscenario/openscenario_interpreter/src/syntax/integer.cpp', 'openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp', 'openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp', 'openscenario/openscenario_interpreter/src/syntax/boolean.cpp'],
     [('declared parameters', 'constructors from string'), ('attributes', 'operator>> through lexical_cast')],
     'exhaustive enumeration of all strings up to a length on the real code against a reference grammar', 'All strings up to the length; texts with white space and the spellings of infinity and not-a-number other than INF are left open.')
prop('C09', 'Comparison rules mean what they say for every pair of values',
     'Comparing two values of the same type by a rule gives the mathematical answer, for numbers, booleans, strings and lists of numbers element by element, infinities included; numbers closer together than the machine epsilon may count as equal. For every pair exactly one of equalTo and notEqualTo holds.',
     ['inputs'], 'all pairs of a boundary set for every type that conditions compare, all rules',
     'There is no test of the rules.',
     ['openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp'],
     [('comparison', 'Rule::operator()'), ('tolerance', 'equal_to')],
     'exhaustive enumeration of all pairs of a boundary set on the real code (with address and undefined-behaviour sanitizers) against a reference', 'All pairs of the set.')
prop('C10', 'Custom commands call exactly the program and arguments that were written',
     'A command written as a call is taken apart into exactly the name and arguments that were written, quoted ones kept whole, and anything else is not taken for a call. An external program receives exactly the given arguments in order, and the command returns when the program has ended, however it ends, exactly once and in the calling process only; all of a program\'s output is read.',
     ['inputs'], 'every call expression up to the length, every argument vector over the words, every way for the program to end, every output length up to the bound',
     'There is no test of custom commands or of the process functions.',
     ['openscenario/openscenario_interpreter/include/openscenario_interpreter/regex/function_call_expression.hpp', 'openscenario/openscenario_interpreter/src/posix/fork_exec.cpp', 'external/concealer/src/execute.cpp'],
     [('call syntax', 'FunctionCallExpression'), ('external program', 'fork_exec'), ('replacement and output', 'concealer::execute, concealer::dollar')],
     'exhaustive enumeration of call expressions, argument vectors and process endings on the real code against a reference parser and a recording program', 'All cases within the bounds; the programs run are the harness itself.')
I = 'openscenario/openscenario_interpreter/'
TOUR = 'explicit-state model checking of a reference state machine to its fixpoint, every transition replayed on the real interpreter (conformance after every step)'
prop('C11', 'Storyboard elements go through their states as OpenSCENARIO defines',
     'Story, act, maneuver group, maneuver, event and action start when they are triggered and their parent runs, run until everything inside them is complete (an action: until its goal is reached), are executed as many times as they declare and then stay complete. A stop trigger ends a running element and everything inside it, started or not, in the same step, and nothing inside a completed or stopped element starts any more. The states, execution counts and requests to the simulator in every published context agree with this after every step.',
     ['histories', 'inputs'], 'every reachable state of some three hundred storyboard shapes under every combination of triggers and reached goals in every step',
     'The interpreter has no test of the storyboard; a wrong transition needs a particular order of triggers, completions and stops across the levels.',
     [I + 'include/openscenario_interpreter/syntax/storyboard_element.hpp', I + 'src/syntax/storyboard.cpp', I + 'src/syntax/act.cpp', I + 'src/syntax/maneuver_group.cpp', I + 'src/syntax/maneuver.cpp', I + 'src/syntax/event.cpp', I + 'src/syntax/action.cpp', I + 'src/syntax/story.cpp'],
     [('state machine', 'StoryboardElement::evaluate'), ('stopping', 'StoryboardElement::stop / override'), ('executions', 'maximum_execution_count')], TOUR,
     'The whole interpreter node runs (parsing included) on a stand-in for traffic_simulator. Exhaustive for the shapes listed in the harness; up to three triggers and two actions each.', ['published context', 'requests to traffic_simulator'])
prop('C12', 'Event priorities: override, skip and parallel mean what they say',
     'When an event starts, override ends exactly the other running events of its maneuver, skip lets it start only if no other event of its maneuver is running, and parallel starts it without touching the others. Events of other maneuvers, events that wait and events already complete are left alone, whatever the history.',
     ['histories', 'inputs'], 'every reachable state of a maneuver with two or three events under every assignment of priorities and execution counts, all start triggers and reached goals in every step',
     'There is no test of priorities beyond their spelling; they matter only when events overlap in particular ways.',
     [I + 'src/syntax/maneuver.cpp', I + 'src/syntax/event.cpp', I + 'include/openscenario_interpreter/syntax/storyboard_element.hpp'],
     [('override', 'Maneuver::overrideEvents'), ('skip', 'Event::Event transition callback / Maneuver::running_events_count')], TOUR,
     'The whole interpreter node runs on a stand-in for traffic_simulator. Exhaustive for two events with one or two executions each and three events; thorough adds all execution counts for three.', ['published context', 'requests to traffic_simulator'])
ENUM = 'exhaustive enumeration of bounded histories on the real interpreter, compared with a reference model after every step'
prop('C13', 'Condition edges, delays, groups and triggers evaluate as defined',
     'A condition with edge none holds when its value held as long ago as its delay; with rising, falling or risingOrFalling exactly once for each such change of its value, the delay after the change; with sticky from the first time on. Before enough time has passed it does not hold. A group holds when all its conditions do, a trigger when any of its groups does, an empty trigger never, and every condition sees every evaluation whatever the others say. The published values agree.',
     ['histories', 'inputs'], 'every history of values and time steps up to the depth for every edge and six delays, every pulse position on the simulator\'s clock, every history for every trigger of up to three conditions',
     'There is no test of conditions; whether an edge is lost depends on the history and on the rounding of the clock.',
     [I + 'include/openscenario_interpreter/syntax/condition.hpp', I + 'src/syntax/condition.cpp', I + 'src/syntax/condition_group.cpp', I + 'src/syntax/trigger.cpp'],
     [('edges and delays', 'Condition::update_condition'), ('and', 'ConditionGroup::evaluate'), ('or', 'Trigger::evaluate')], ENUM,
     'All histories within the depths given in the harness; the whole interpreter node runs on a stand-in for traffic_simulator.', ['published context'])
prop('C24', 'Conditions on storyboard element states see every state and transition',
     'A condition on the state of a storyboard element holds at an evaluation exactly when the element is in that state or has gone through it since the previous evaluation, whichever of the two is evaluated first and whatever happens in between; it is false again when the element has left the state. Elements only go through the transitions OpenSCENARIO defines.',
     ['histories', 'inputs'], 'every reachable state (with the transitions of the last step) of some forty storyboards in which every state of every element is watched from before and after',
     'There is no test of these conditions; they matter when an element passes through several states within one step.',
     [I + 'src/syntax/storyboard_element_state_condition.cpp', I + 'include/openscenario_interpreter/syntax/storyboard_element.hpp'],
     [('notification', 'StoryboardElement::addTransitionCallback / transitionTo'), ('evaluation', 'StoryboardElementStateCondition::evaluate')], TOUR,
     'Exhaustive for the shapes in the harness; skipTransition is not modelled (the interpreter does not enter it).', ['published context'])
prop('C14', 'A batch of scenarios yields one truthful verdict each',
     'Every scenario that was configured gets exactly one result in the report: a pass or a simulation failure as the scenario itself exits, a timeout if it is deactivated undecided, an error naming the kind of problem if reading or running it throws; the first decision counts. Loading, activating, deactivating and cleaning up again in any order moves between the lifecycle states ROS 2 defines, the simulator exists exactly while a scenario is active, and one context is published per frame. No scenario leaves traces in the next.',
     ['histories', 'inputs'], 'every order of lifecycle requests and frames over every kind of scenario outcome, and batches of two scenarios (thorough: three) in every combination of kinds',
     'There is no test of the node; a result is lost or doubled only for particular orders of requests and particular kinds of failure, often in the second scenario.',
     [I + 'src/openscenario_interpreter.cpp', I + 'include/openscenario_interpreter/openscenario_interpreter.hpp', I + 'src/record.cpp', I + 'src/syntax/custom_command_action.cpp', I + 'src/simulator_core.cpp'],
     [('lifecycle', 'Interpreter::on_configure / on_activate / on_deactivate / on_cleanup / on_shutdown / on_error'), ('verdict', 'Interpreter::set<...> / withExceptionHandler'), ('exit', 'CustomCommandAction exitSuccess / exitFailure')], TOUR,
     'The whole interpreter node runs on stand-ins for rclcpp_lifecycle and traffic_simulator; the stand-in of the lifecycle follows the state machine of ROS 2, error processing included.', ['result.junit.xml', 'published context', 'lifecycle states'])
prop('C15', 'Names and parameters refer to the nearest declaration, or are refused',
     'A name in a scenario refers to the nearest enclosing declaration of it, however scopes are nested and named; a prefixed name refers to the declaration inside the element so named; a name that is unknown or stands for several things is refused, never resolved to something else. A parameter is replaced by its value wherever it may stand, and a declaration whose value violates its constraints (every constraint of at least one group must hold) or whose name begins with OSC is refused.',
     ['inputs'], 'every tree of scopes, set of declarations and reference within the bounds; every level of parameter declaration in a scenario; every combination of constraint groups; every short name over O, S, C, x',
     'There is no test of name resolution; which declaration is found depends on the whole tree.',
     [I + 'include/openscenario_interpreter/scope.hpp', I + 'src/scope.cpp', I + 'include/openscenario_interpreter/name.hpp', I + 'src/syntax/parameter_declaration.cpp', I + 'src/syntax/value_constraint_group.cpp', I + 'include/openscenario_interpreter/reader/attribute.hpp'],
     [('lookup', 'EnvironmentFrame::find / findInside / lookupFrame'), ('prefixed names', 'Prefixed'), ('constraints', 'ParameterDeclaration::checkValue')],
     'exhaustive enumeration of bounded scope trees, declarations and references on the real code, compared with a reference resolver',
     'Shadowing of one prefix at several depths through unnamed scopes is left open, as no document defines it.', ['Scope::ref', 'readAttribute'])
prop('C20', 'Expressions have their mathematical value or are refused',
     'An expression `${...}` has the value its operators have in OpenSCENARIO (precedence, associativity, integer arithmetic on integers, real arithmetic otherwise), in whatever way it is spaced and parenthesised and whichever parameters it refers to. What has no such value, or a value that the integer types cannot hold, or is no expression, is refused: nothing is wrapped around, cut off or read as something else.',
     ['inputs'], 'every expression up to a depth of three operators over literals at the edges and parameters of every type, in three spellings',
     'There is one test with some ten expressions; mixed types, nesting and limits make up the rest.',
     [I + 'src/evaluate.cpp', I + 'include/openscenario_interpreter/reader/attribute.hpp'],
     [('grammar', 'Grammar'), ('arithmetic', 'Value operators'), ('result', 'evaluate')],
     'exhaustive enumeration of bounded expressions on the real code, compared with an evaluator on the expression tree', 'Results that are not finite are left open.', ['readAttribute'])
prop('C17', 'Parameter actions and conditions act on the parameter named, by its type',
     'A set action gives exactly the parameter its name refers to the value given; a modify action adds or multiplies by exactly the value given, whatever the numeric type. What the type of the parameter cannot represent is refused and leaves the parameter as it was; nothing wraps around. Every later condition on the parameter, from any place where that name refers to it, compares its new value by its type and rule.',
     ['histories', 'inputs'], 'every sequence of actions up to the depth over every type, initial value and operand at the edges, every comparison after each; every placement of declarations of the same name with the action in either maneuver',
     'There is no test of these actions or conditions; which combinations of type, value and operand go wrong is not visible from a handful.',
     [I + 'src/syntax/parameter_set_action.cpp', I + 'src/syntax/parameter_modify_action.cpp', I + 'src/syntax/parameter_add_value_rule.cpp', I + 'src/syntax/parameter_multiply_by_value_rule.cpp', I + 'src/syntax/parameter_condition.cpp', I + 'src/syntax/integer.cpp', I + 'src/syntax/unsigned_integer.cpp', I + 'src/syntax/unsigned_short.cpp'],
     [('set', 'ParameterSetAction::set'), ('modify', 'ParameterAddValueRule / ParameterMultiplyByValueRule'), ('compare', 'ParameterCondition::compare')], ENUM,
     'Fractional results on integer types may be rounded either way; order on booleans and strings is left open.', ['parameter values', 'published context'])
prop('C19', 'Conditions about entities say what is true of the entities',
     'Conditions on speed, acceleration, standing still, collision, distance and relative distance, relative speed, time to collision, time headway, reaching a position, clearance, behaviour state and simulation time hold exactly when the quantity they are defined by, taken from the entities as the simulator has them at that moment, compares with the given value as the rule says. `any` and `all` range over the triggering entities, each selection of entities standing for all its members. About an entity that is not there (not yet added, or deleted) no such condition holds, and asking does not end the scenario.',
     ['inputs', 'histories'], 'every combination of listed poses, headings, speeds, accelerations, collisions and states of three entities, before and after a fourth is deleted, for some two thousand conditions covering every kind, coordinate system, distance type, rule and set of triggering entities',
     'There is no test of these conditions; wrong signs, frames, exclusions or missing entities show only in particular constellations.',
     [I + 'include/openscenario_interpreter/simulator_core.hpp', I + 'src/syntax/triggering_entities.cpp', I + 'src/syntax/relative_distance_condition.cpp', I + 'src/syntax/distance_condition.cpp', I + 'src/syntax/relative_speed_condition.cpp', I + 'src/syntax/relative_clearance_condition.cpp', I + 'include/openscenario_interpreter/syntax/time_to_collision_condition.hpp', I + 'src/syntax/collision_condition.cpp', I + 'src/syntax/speed_condition.cpp', I + 'src/syntax/delete_entity_action.cpp'],
     [('quantities', 'SimulatorCore::ConditionEvaluation / CoordinateSystemConversion'), ('quantifiers', 'TriggeringEntities::apply / Entity::apply'), ('presence', 'Entities::isAdded')], ENUM,
     'The whole interpreter node runs on a stand-in for traffic_simulator with a straight multi-lane road. Open: undefined quantities compared with notEqualTo, near-ties on turned entities, the sign of DistanceCondition along the entity axes, times to collision of entities moving apart under greaterThan.', ['published context'])
prop('C21', 'Actions request what they describe, for every actor, and end when it is done',
     'When an event starts, each of its actions makes exactly the requests of the simulator that its description calls for - same kind, values, units, direction, target, order of waypoints and vertices, options - once for every actor of its maneuver group, each selection standing for its members, and none for others. An action that takes effect at once ends at once; a speed, lane change, trajectory or speed profile action goes on until every actor has reached the goal (a profile: entry by entry, each actor on its own) and then ends, however the moments at which they do are ordered; a continuous relative speed never ends. A custom command with malformed arguments ends the scenario as an error.',
     ['inputs', 'histories'], 'over a hundred actions (speed absolute and relative, lane change, trajectory, route, position, teleport, controller, speed profile, custom commands), seven sets of actors, every history of which actors are at the goal up to 2-4 holds (thorough: one more)',
     'No test runs an action; a wrong sign, lost actor, shared mutable request or order-dependent ending shows only for particular actors and orders of arrival.',
     [I + 'src/syntax/speed_action.cpp', I + 'src/syntax/lane_change_action.cpp', I + 'src/syntax/follow_trajectory_action.cpp', I + 'src/syntax/speed_profile_action.cpp', I + 'src/syntax/custom_command_action.cpp', I + 'src/syntax/assign_route_action.cpp', I + 'src/syntax/acquire_position_action.cpp', I + 'src/syntax/teleport_action.cpp', I + 'src/syntax/assign_controller_action.cpp', I + 'include/openscenario_interpreter/simulator_core.hpp'],
     [('requests', 'SimulatorCore::ActionApplication'), ('actors', 'TriggeringEntities / Actor::apply'), ('endings', '*Action::accomplished')], ENUM,
     'The whole interpreter node runs on a stand-in for traffic_simulator that records requests. A member of a selection that has arrived and left again before the others arrive may or may not count. Open: dimensions and shapes the documentation lists as unsupported.', ['recorded requests'])

CON = 'external/concealer/'
prop('C26', 'Autoware is driven through its states in order, and failures surface',
     'The operator sends Autoware the requests of the scenario in the order they were made and with exactly their contents: an initial pose only while Autoware is initializing or waits for a route, a route only while it waits for one, an engagement only while it waits for that. A request is repeated until it is accepted, at most thirty times and with pauses. The next request waits until Autoware has reached the state aimed at; if that takes longer than the time limit, if a service is missing for long or Autoware falls back, an AutowareError naming the state surfaces at the next step. The states, engagement, emergency and minimum-risk state reported are those Autoware published. Each request to cooperate is answered at most once and only as asked for. The end of the Autoware process is reported once, and on shutdown the process is interrupted first and killed only if it does not end.',
     ['histories', 'fault_sequences'], 'every program of an operator up to the bound against every behaviour of a modelled Autoware: delays, refusals, falling back, standing still, missing services',
     'No test drives Autoware; a failure needs a particular delay or refusal at a particular step of the programme.',
     [CON + 'src/field_operator_application.cpp', CON + 'include/concealer/field_operator_application.hpp', CON + 'include/concealer/legacy_autoware_state.hpp', CON + 'include/concealer/service.hpp', CON + 'include/concealer/available.hpp'],
     [('requests', 'FieldOperatorApplication::initialize / plan / engage / clearRoute / enableAutowareControl'), ('waiting', 'waitForAutowareStateToBe'), ('states', 'LegacyAutowareState'), ('cooperation', 'sendCooperateCommand'), ('process', 'spawn / shutdown')],
     'explicit-state exploration of the real operator against a modelled Autoware, every choice of the model enumerated, on a virtual clock',
     'The queue of requests is replaced by one that runs at the exploration\'s request (C01 checks the real one). Assumed of Autoware: its states only progress, and a cleared route is visible before the response to the request.', ['services called', 'exceptions'])
prop('C27', 'Autoware hears its vehicle\'s state exactly, and its commands are passed on',
     'Every report to Autoware (acceleration, odometry, pose, control mode, gear, steering, velocity, turn indicators, transform) carries what the simulator last set, stamped with the current time and in the right frame. The command passed to the simulator is what Autoware last sent: velocity, acceleration, steering, gear and the direction that gear implies; the route is the lanelets of the last path. A request for control mode is granted exactly when it is for autonomous control. A failure while publishing surfaces to the simulator as the exception itself, not before and not never. A sensor error without spread changes each reading by exactly its mean, only above its speed threshold.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of movements, commands, requests and timers up to the depth; every failing publisher at every round; every pair of sensor errors without spread',
     'There is no test of the vehicle node; exchanged or stale fields, or failures lost on the other thread, show only for particular values and sequences.',
     [CON + 'src/autoware_universe.cpp', CON + 'src/publisher.cpp', CON + 'include/concealer/autoware_universe.hpp', CON + 'include/concealer/publisher.hpp', CON + 'include/concealer/subscriber.hpp', CON + 'include/concealer/continuous_transform_broadcaster.hpp', CON + 'src/path_with_lane_id.cpp'],
     [('reports', 'AutowareUniverse::AutowareUniverse timers'), ('commands', 'AutowareUniverse::getVehicleCommand'), ('failures', 'AutowareUniverse::rethrow'), ('errors', 'NormalDistribution')],
     'exhaustive enumeration of bounded event sequences on the real node, its own thread stepped by the exploration',
     'Stand-ins for rclcpp, tf2_ros and the messages. Spread is not judged (it is random by design); Euler angles of the odometry only for a pure shift of heading.', ['topics published', 'getVehicleCommand'])

prop('C18', 'Traffic signal controllers cycle exactly as the road network describes',
     'A controller begins with its first phase when the scenario begins or, with a reference, exactly its delay after every time the reference begins its first phase, whatever the delay, the order of declaration or the length of the chain. Each phase lasts its duration (for ever if none is given) and is followed by the next, cyclically; a phase chosen by an action, even in Init, begins there and then. Whenever a phase begins, the lights of the former phase are cleared and each light of the new one shows exactly the states given, on the channel given (conventional or V2I, real or detected), and nothing else changes. The predictions published for V2I lights are the next six phases with their times, those of other controllers untouched. Conditions on phases and lights are true exactly when that is so. Documents whose delays, cycle times, identifiers or states are invalid are refused.',
     ['configurations', 'histories'], 'every controller of up to three phases over an alphabet of durations and contents; every pair and chain over cycles, delays and orders; every action at every moment; every phase in Init; every pair of cycle lengths',
     'No test runs a controller; lost starts, overlapping channels and stale predictions need particular delays, phases and moments.',
     [I + 'src/syntax/traffic_signal_controller.cpp', I + 'src/syntax/traffic_signals.cpp', I + 'src/syntax/traffic_signal_state.cpp', I + 'src/syntax/phase.cpp', I + 'src/syntax/traffic_signal_controller_action.cpp', I + 'src/syntax/traffic_signal_state_action.cpp', I + 'src/syntax/traffic_signal_condition.cpp', I + 'src/syntax/traffic_signal_controller_condition.cpp'],
     [('phases', 'TrafficSignalController::changePhaseTo'), ('delay', 'shouldChangePhaseToBegin / notifyBegin'), ('predictions', 'updatePredictions'), ('channels', 'TrafficSignalState::evaluate / clear'), ('validation', 'TrafficSignals::resolve')], ENUM,
     'The whole interpreter node runs on a stand-in for traffic_simulator that records the lights. Left open: a start that falls exactly on a frame may be one frame late; predictions of phases that do not list the light, of endless phases and of lights with detected V2I states; conditions in the frame of an action.', ['lights of all four channels', 'predictions', 'currentValue'])
prop('C28', 'Traffic lights are published as set: real, detected, by radio and predicted',
     'A traffic light shows exactly the bulbs last set, added or cleared on it, in the documented notation; anything else is refused. Setting a relation sets every light of the relation. What is detected replaces what is real, per light, only in what Autoware perceives on that channel; clearing it restores the truth. The conventional and V2I channels do not affect each other, except that enabling V2I for a light shows there what it shows. All outputs of one moment agree with that state, bulb for bulb: messages to Autoware (for each regulatory element of each light that shows something: its codes, confidence, predictions with their times), messages to the simulator, and markers.',
     ['histories', 'inputs'], 'every history of operations up to the depth on lights that share a relation, all outputs compared after each; every text of the notation (each color, status, shape, right or wrong, and space between), lists of up to three bulbs',
     'The tests set single lights; diverging copies of one light and masked states depend on the order of operations on both channels.',
     ['simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp', 'simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp', 'simulation/traffic_simulator/src/traffic_lights/traffic_light.cpp', 'simulation/traffic_simulator/src/traffic_lights/traffic_light_publisher.cpp', 'simulation/traffic_simulator/src/traffic_lights/traffic_light_marker_publisher.cpp', 'simulation/traffic_simulator/src/traffic_lights/configurable_rate_updater.cpp', 'simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_light.hpp'],
     [('state', 'TrafficLightsBase / TrafficLight'), ('channels', 'ConventionalTrafficLights / V2ITrafficLights / DetectedTrafficLights'), ('outputs', 'TrafficLightPublisher / generateUpdateTrafficLightsRequest'), ('notation', 'TrafficLight::Bulb')],
     'exhaustive enumeration of bounded operation histories on the real traffic lights, every output compared with a reference model',
     'Stand-ins for rclcpp, the messages and the lanelet map. Setting colors only (setTrafficLightsColor) is not passed on to V2I lights by design; arrows that Autoware has no code for become unknown.', ['published messages', 'generateUpdateTrafficLightsRequest'])
prop('C29', 'Messages between scenario and simulator keep their content and their order',
     'What the scenario sends to the simulator and what comes back is the same on both sides, field by field and for every value: poses, twists, times, entity parameters and status, trajectories with all their points, commands of Autoware, every kind and subkind of entity, gears. Nothing that was in the receiving message before shows through. A kind that does not exist is refused, and names of kinds are their own. Each request reaches the handler of its kind, once, in the order of the calls, and its answer, alone, is returned to that call. After the connection is closed (however often), calls return empty answers and nothing is sent.',
     ['inputs', 'histories'], 'every field of every message through each special value of its type with all other fields distinct, every pattern of repeated values, lists of up to three elements, every part absent, into fresh and into used messages; every number of an enumeration; every sequence of requests and closings up to the depth',
     'The tests convert single messages with a few values; swapped, merged or dropped fields show only for the values or messages concerned.',
     ['simulation/simulation_interface/src/conversions.cpp', 'simulation/simulation_interface/src/operators.cpp', 'simulation/simulation_interface/src/constants.cpp', 'simulation/simulation_interface/src/zmq_multi_client.cpp', 'simulation/simulation_interface/src/zmq_multi_server.cpp', 'simulation/simulation_interface/include/simulation_interface/conversions.hpp'],
     [('conversions', 'toProto / toMsg / toProtobufMessage / toROS2Message'), ('wire', 'zeromq::toZMQ / zeromq::toProto'), ('requests', 'MultiClient::call / MultiServer::poll'), ('closing', 'MultiClient::closeConnection')],
     'exhaustive enumeration of field values (by reflection of both message families) and of bounded request histories on the real client and server',
     'Sockets are replaced by a queue in the process; a request is answered before the next is sent, as the protocol requires. Fields that only one side has (control_time, is_defined_*, subtype of the parameters) are not on the wire.', ['messages on both sides', 'answers'])
prop('C30', 'The sensor simulator knows exactly the entities of the running scenario',
     'Every request is answered as it should be. Initializing starts a scenario from nothing: no entity, no simulated ego vehicle, no sensor and no traffic light of the scenario before has any effect any more; frames before are refused. Spawning adds one entity with the given pose and body; a second ego is refused and changes nothing. The vehicle of the ego is simulated exactly while the ego is there. Removing takes away the entity named and tells whether there was one. Updating replaces the status of the entities named, in order; an unknown one is an error that names it; the ego driven by Autoware is stepped to the next frame instead, unless it is overwritten or in manual mode, and the reply carries the result. Each frame lets every sensor attached (and none else) publish what is there at that moment: every other entity once with its pose, body, speed, class and lasting identifier; the ego for the IMU; the lights last sent; all stamped with the time of the frame.',
     ['histories'], 'every sequence of requests up to the depth from seven situations: an empty server, an initialized one, one with entities and sensors, one initialized again, overwritten and manual egos',
     'The tests start the parts one by one; what remains of an earlier entity, ego or scenario shows only in histories.',
     ['simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/sensor_simulation.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/imu/imu_sensor.cpp'],
     [('entities', 'spawn... / despawnEntity / updateEntityStatus'), ('scenarios', 'ScenarioSimulator::initialize'), ('frames', 'updateFrame / SensorSimulation::updateSensorFrame'), ('ego', 'ego_entity_simulation_')],
     'exhaustive enumeration of bounded request histories on the real server with real sensors, compared after each request with a reference model of what was told',
     'The socket, rclcpp and the simulated vehicle are stand-ins that record; sensors have no noise, no delay and see everything (what they see: C31). Spawning a name twice is left open, as is what an update with an unknown entity does to the others.', ['replies', 'published messages', 'lifetime and calls of the simulated vehicle'])
prop('C31', 'The detection sensor shows who is in range, in time, with the errors configured',
     'The detection sensor attached to an ego shows exactly the other entities within its range (and seen by the lidar, unless it is configured to see everything), except those more than a metre below the ego and below its plane; each with center, orientation, body, speed and class. A sample is taken when at least the update duration has passed since the last; samples are published one per due sample, in order, as detected objects after one delay and, without errors, as ground truth after the other; nothing is published otherwise. Detected objects carry the errors of the chosen model and of this sensor\'s parameters: version 1 shifts positions in the plane and loses objects with the probability given; version 2 shifts along the line of sight and turns; version 3 does so for the entities its patterns name, with the set of parameters that names them, leaving the others as they are; version 4 shifts along and across the line of sight from the nearest point of the body, turns about that point and flips about the center. The mean, deviation and rate follow from the ellipse the entity is in; errors persist over time as the autocorrelation coefficients of that quantity say. Tables of the wrong size are errors. Equal seeds give equal errors, other seeds others. Where parameters override the scenario, they are used; otherwise the scenario is.',
     ['configurations', 'histories'], 'poses, ranges and channels; steps, durations and delays; tables, coefficients, patterns and motions of three entities; pairs of sensors; three sources of parameters',
     'No test runs a noise model over several frames: the errors of one frame depend on all the frames before, and the parameters come from some thirty names.',
     ['simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/noise_parameter_selector.hpp', 'common/get_parameter/include/get_parameter/get_parameter.hpp', 'common/math/geometry/src/bounding_box.cpp', 'common/math/geometry/src/plane.cpp'],
     [('who', 'is_in_range / isOnOrAboveEgoPlane'), ('when', 'DetectionSensor::update, unpublished_...'), ('errors', 'noise_v1 .. noise_v4 / findMatchingNoiseConfigForEntity / createEllipticalParameterSelector')],
     'exhaustive enumeration of bounded configurations and frame histories on the real sensor, compared frame by frame with a reference model of the documented noise processes',
     'Errors of versions 2 to 4 are judged where they are certain (deviation zero, rates zero or one); their distribution is not judged. For bodies that are tilted the outline used by version 4 is left open.', ['published messages'])
prop('C32', 'Lidar points are where rays hit; the occupancy grid shows what is there',
     'Each scan of a lidar holds, in the frame of its ego, one point for every ray of the pattern (every multiple of the horizontal resolution around, at every vertical angle) that meets a body other than the ego\'s within 300 m, at the surface it meets first, and nothing else; whoever is hit by any lidar of an ego, and only they, are detected by sensors that do not see everything. A scan is taken when at least the scan duration has passed since the last; scans are published unchanged, one at a time, in order, no sooner than the delay. With the noise model, points are lost or displaced along and across the ray as the table of the first matching pattern says for the ellipse the entity is in; entities no pattern names are unchanged; tables of different sizes and unknown versions are errors. The occupancy grid, published when the update duration has passed, is centred at the ego, not turned, of the size configured: every cell touched by the outline or the inside of a seen body is occupied, every other cell hidden behind one (as far as it is within the map) is unknown, all cells not occupied are unknown when a body covers the position of the ego, every other cell is free; what was there in earlier frames leaves nothing. It ends for every input.',
     ['inputs', 'configurations', 'histories'], 'scenes of up to six bodies, poses of the ego, ray patterns; steps, durations and delays; noise tables and patterns; every placement of a body on a lattice around the ego, sizes, orientations and maps, several in sequence',
     'The tests check that something is published; a wrong cell or point shows only for particular placements.',
     ['simulation/simple_sensor_simulator/src/sensor_simulation/lidar/raycaster.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_sensor.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/primitives/primitive.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/primitives/box.cpp'],
     [('rays', 'Raycaster / LidarSensor::raycast'), ('noise', 'LidarNoiseModelV1'), ('map', 'OccupancyGridBuilder / GridTraversal / OccupancyGridSensor')],
     'exhaustive enumeration of bounded scenes, placements and frame histories on the real sensors, compared point by point and cell by cell with geometry written out',
     'The ray caster of embree is replaced by a stand-in that intersects triangles; where a millimetre decides, both results are accepted. filter_by_range is judged for what it keeps only. Deviations are zero and rates zero or one. A body whose outline is within 5 cm of the ego\'s position may hide anything (but the map must be made).', ['published messages'])
prop('C25', 'Boxes, segments, orientations and frames obey plane and space geometry',
     'Two bounding boxes at two poses collide exactly if they overlap in the plane and in height, whichever is named first; their distance is that of their outlines and there is none where they overlap; the closest points lie that far apart, the first on the second box and the second on the first. The outline, the corners (widened or not) and the extents of a box, the hull of points, what lies inside an outline and its nearest point are the geometric ones. Two line segments intersect exactly if they have a point in common, the point and its position along the segment are given; a point of a segment, or the lateral axis of a pose within the distance allowed, is found at its position wherever on the map it lies, and no point beside or beyond it; points, directions, lengths, sides, slopes and normals agree. Orientations, angles, matrices, products, differences, directions and interpolations (along the shorter way, at constant speed) agree with each other; relative poses and points of frames and of sensors are those of rigid motion; operations on vectors are defined for every vector they apply to.',
     ['inputs'], 'pairs of box shapes, turns and places on a lattice, at the origin and in map coordinates; pairs of segments between points of a lattice in five frames; pairs of orientations of a grid of roll, pitch and yaw; pairs of vectors of several magnitudes; sets of points of a small lattice',
     'The tests sample a few poses; a wrong sign, order or tolerance shows only for particular turns, directions or map coordinates.',
     ['common/math/geometry/src/bounding_box.cpp', 'common/math/geometry/src/distance.cpp', 'common/math/geometry/src/transform.cpp', 'common/math/geometry/src/polygon/line_segment.cpp', 'common/math/geometry/src/polygon/polygon.cpp', 'common/math/geometry/src/intersection/intersection.cpp', 'common/math/geometry/src/intersection/collision.cpp', 'common/math/geometry/include/geometry/quaternion/slerp.hpp', 'common/math/geometry/include/geometry/vector3/internal_angle.hpp'],
     [('boxes', 'getPolygonDistance / getClosestPoses / checkCollision2D'), ('segments', 'LineSegment / getIntersection2D'), ('orientations', 'convertEulerAngleToQuaternion / slerp / getRelativePose')],
     'exhaustive enumeration of bounded lattices of inputs on the real functions, compared with separating axes, exact lattice arithmetic and rotation matrices',
     'Touching within 1e-6 m is left open for boxes, and touching of segments where their coordinates are not exact. Interpolation between opposite orientations is left open.', ['returned values'])
prop('C33', 'Splines keep to their points and find every crossing and no other',
     'A curve through control points is the Catmull-Rom curve with quadratic end pieces: it passes through each of them at the length of the pieces before, its points, directions, normals, offsets, poses, distances, trajectories, strip and sharpest bend are those of that curve, and its length is the length of the curve (within the stated approximation); one point and two points are a point and a line. The position of a pose is where its lateral axis, as long as allowed, first meets the curve, and there is none where it does not. The crossings with an edge or a closed outline are all points they have in common, for the curve, a line, a point or a part of a curve: none is missed that crosses at a clear angle, none is invented, the first or last is the one given. The solver gives every solution of an equation up to the third degree in the range and nothing else, however small its leading coefficients. The altitudes of a part include those of its control points, and anything where it has none.',
     ['inputs'], 'curves of one to four pieces over a lattice of lengths and turns near the origin and in map coordinates; poses and edges around every eighth of every piece in several turns, shifts and lengths, and outlines; equations with solutions on a grid from -40 to 1e6, real and complex, single and multiple, scaled',
     'The tests sample a few curves with convenient numbers; crossings are lost or invented for particular shapes and directions.',
     ['common/math/geometry/src/spline/catmull_rom_spline.cpp', 'common/math/geometry/src/spline/catmull_rom_subspline.cpp', 'common/math/geometry/src/spline/hermite_curve.cpp', 'common/math/geometry/src/solver/polynomial_solver.cpp'],
     [('curve', 'CatmullRomSpline / HermiteCurve'), ('crossings', 'getCollisionPointsIn2D / getSValue'), ('solver', 'PolynomialSolver')],
     'exhaustive enumeration of bounded lattices of curves, poses, edges and equations on the real classes, compared with the curve in another basis, sampled and refined',
     'Crossings at less than 1.7 degrees or within 0.2 % of the ends of an edge are left open, as are edges lying along a straight curve (the code gives its ends only). Lengths are sums of 100 steps in the code; the error that implies is allowed.', ['returned values'])
prop('C34', 'Poses and distances along lanes agree with the map',
     'On any map: a pose given before the begin or past the end of its lanelet is brought to a place it stands for by way of the lanelets before or after it, is refused only where the road ends, and the alternatives are exactly those places; along a route it follows the route. Moving a pose along the lanes, straight on where there is a way straight on, moves it by that distance. A pose on the map is found on the lanelet it is on, with its arc length, its signed offset and its yaw relative to the lane, and on no lanelet further than the matching distance or across its direction; its lanelet pose gives the same pose on the map again, within the slope of the road. Longitudinal and lateral distances between poses are those along the lanes of the routing graph asked for (forward positive, backward negative, nothing without a way; lane changes and opposite lanes only when asked for), the shortest over all places the target stands for; between bounding boxes they are those between the facing edges. Lengths, neighbours, predecessors, successors, routes and bounds are those of the map, for each kind of traffic.',
     ['inputs', 'configurations'], 'road networks of four to nine lanelets: every kind of two by two section grid (lanes, shoulders, walkways, crossings, opposite direction, missing), diagonals, orders of ids, curved, sloped and rings with ways in and out; poses before, on and past every lanelet; pairs of poses; graph types; lane change settings; boxes off centre',
     'The tests use a few poses of two maps; loops, dead ends, merging and splitting lanes, off-centre boxes and shoulders are not among them.',
     ['simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/route.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp', 'simulation/traffic_simulator/src/utils/distance.cpp', 'simulation/traffic_simulator/src/utils/pose.cpp', 'simulation/traffic_simulator/src/data_type/lanelet_pose.cpp'],
     [('canonicalization', 'canonicalizeLaneletPose / alternativeLaneletPoses / alongLaneletPose'), ('matching', 'toLaneletPose / matchToLane / findMatchingLanes'), ('distances', 'longitudinalDistance / lateralDistance / boundingBoxLane*'), ('routing', 'LaneletWrapper / routeFromGraph')],
     'exhaustive enumeration of bounded road networks and of the poses and pairs of poses on them on the real lanelet wrapper, compared with the description the networks were built from (explicit reachability)',
     'The lanelet2 library is not installed; a small stand-in of its data model, routing and matching is compiled in its place, and the loader of the simulator builds its centre lines. Arc lengths run along the slope while lengths of lanelets are flat: tolerance on slopes. Where several ways lead back, either is accepted for the place of a pose.', ['returned values'])
prop('C35', 'Routes lead along connected lanes to the waypoints',
     'The lanelets that follow or precede one, along a route or straight on where there is a way straight on, are connected in order, just enough for the distance asked for and no more unless the road ends; a lanelet that is not in a route and a route that is not connected are refused with a message that says so. After every history of setting waypoints, cancelling them and moving, a route planner gives the way for its own kind of traffic from where the entity is to the first waypoint not yet reached, independent of earlier waypoints and of other planners; waypoints are left in order as they are reached and not before; without a waypoint that can be reached the way leads straight on. Moving backwards follows the lanes back. Lane changes count and lead to the lanes beside, to the left and the right, over as many lanes as asked for; the curve of a lane change begins where the entity is in its direction, ends on the target lane at the distance asked for and at the offset asked for, and is only given where one may change. An entity gives way exactly when another is on a lanelet with the right of way over its own that does not in turn give way to it, at the distance to the first such lanelet; the lowest speed limit counts.',
     ['histories', 'configurations'], 'road networks of two to nine lanelets: forks, joins, crossings, rings, for vehicles and pedestrians; routes and pairs that are no routes × distances; histories of one or two waypoints set or cancelled and places of the entity, two deep (three in the thorough run); lane changes × shapes × constraints; every relation of right of way among three lanelets × sets of lanelets and entities',
     'The tests plan one route once; what remains from earlier routes, planners and waypoints shows only over a history.',
     ['simulation/traffic_simulator/src/behavior/route_planner.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/route.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/lane_change.cpp', 'simulation/traffic_simulator/src/utils/route.cpp', 'simulation/traffic_simulator/src/utils/distance.cpp'],
     [('planner', 'RoutePlanner'), ('ways', 'followingLanelets / previousLanelets / moveBackPoints'), ('lane changes', 'laneChangeTrajectory / laneChangeableLaneletId / countLaneChanges'), ('right of way', 'isNeedToRightOfWay / distanceToYieldStop / isAnyConflictingEntity')],
     'exhaustive enumeration of road networks and of histories of a route planner to a depth on the real code, compared with ways found in the description of the network',
     'Beyond the first waypoint any connected way is accepted. A waypoint passed between two frames without being seen at or past it on its lanelet is not reached. The points of a lane change begin there or a metre on, and may end up to a metre past its end, as pinned by the tests. The duration of a lane change does not change its curve.', ['returned values'])
prop('C36', 'Objects and entities are found where the map and the scenario put them',
     'The stop lines, traffic lights and lanelets the map is asked for, whole or along a way, are those it holds, whatever refers to them; an id of a light or of a relation stands for the lights it names. A bulb is where the map says; without bulbs, when guessing is allowed, it is where the colour is on the lamp. The distance along a way to a stop line, to the stop line of a light or to a crosswalk is that of the nearest one ahead that the way crosses, and there is none if it crosses none, whether or not other lights have a stop line. The lanelets near a point, those in the way of others and the crosswalks over them are exactly those. Another entity is ahead in the way exactly when its box, beside the way, comes within the threshold and lies wholly ahead, at the distance to its rear; the nearest one that has the way, on crosswalks and conflicting lanelets, counts. Relative poses and their inverse compose; on slopes poses follow the road if asked to; an unreachable lanelet is replaced only by another under the same place that can be reached. The middle of a lanelet is the middle of its bounds however many points they have, unless the map brings its own.',
     ['configurations', 'inputs'], 'pairs of stop and other signs, and of traffic light relations sharing lights, with or without stop lines and bulbs, on five networks × straight ways × starts; networks of three columns with diagonals and crosswalks × points, thresholds, entities, boxes; pairs of poses; slopes; bounds of 2 to 6 points',
     'The tests ask about a few objects of one sample map; that a missing stop line, the order of relations or an entity behind changes nothing is a matter of every arrangement.',
     ['simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/lanelet_loader.cpp', 'simulation/traffic_simulator/src/utils/distance.cpp', 'simulation/traffic_simulator/src/utils/pose.cpp'],
     [('stop lines', 'distanceToStopLine / distanceToTrafficLightStopLine'), ('lights', 'trafficLightBulbPosition / wayIds'), ('entities', 'splineDistanceToBoundingBox / distanceToNearestConflictingPose'), ('lanelets', 'nearbyLaneletIds / conflictingLaneIds / conflictingCrosswalkIds')],
     'exhaustive enumeration of furnished road networks and of the questions about them on the real code, compared with their description',
     'Ways are straight, entities lie along their lane and their boxes are centred; distances are judged to 2 cm, the accuracy of lengths along splines. Stop lines are single segments. A target reached only over a diagonal lanelet is not judged, because a way over it is a little longer.', ['returned values', 'errors thrown'])

prop('C37', 'Vehicles change their speed the way they are asked to, and no faster',
     'In every frame a vehicle that the simulator drives moves its speed towards the speed asked for (or, when nothing is asked, the road’s speed limit) with as much acceleration as its limits allow and no more: the acceleration grows from none at its rate up to its limit, the target is not passed, the maximum speed is kept, the acceleration is the change of speed and the vehicle moves by its mean speed. A request takes effect at once and replaces the one before with its limits. With an acceleration it is bounded by it (AUTO), constantly equal to it, whether faster or slower (LINEAR), or immediate (STEP); with a time the speed is reached then. Once reached, a request that is not continuous ends and a continuous one holds until the next; either way the limits are those from before. Speeds relative to another entity follow it. The distance to a speed that the limits never reach is given up.',
     ['programs', 'histories', 'inputs'], 'sequences of one or two requests (no constraint, acceleration or time × AUTO, LINEAR, STEP × values × targets × continuous or not) at several times, × cycles × initial speeds × limits; requests relative to another vehicle that changes its speed',
     'The tests look at single frames of the planner while it accelerates; what a replaced, overlapping or finished request leaves behind shows only in sequences of them.',
     ['simulation/traffic_simulator/src/entity/entity_base.cpp', 'simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp', 'simulation/traffic_simulator/src/job/job_list.cpp', 'simulation/traffic_simulator/src/data_type/speed_change.cpp', 'simulation/behavior_tree_plugin/src/action_node.cpp'],
     [('requests', 'EntityBase::requestSpeedChange'), ('dynamics', 'LongitudinalSpeedPlanner::getDynamicStates'), ('jobs', 'JobList::append')],
     'exhaustive enumeration of request sequences on the real entity manager, vehicle and behaviour tree, every frame compared with a reference model',
     'A request for the speed there already is leaves an older one as it is; this is not judged. Times are judged to 2.5 frames (and the time in which the tolerance of 0.01 m/s passes), where the limits can keep them; the delay of two frames with which a relative request hears of the other’s speed is allowed. Vehicles move forward on a straight road.', ['speed, acceleration and place of the vehicle in every frame', 'its limits'])

prop('C38', 'Entities are there, and where they were put, from spawning to despawning',
     'Whatever is done with entities in whatever order: exactly those spawned and not despawned exist, under their own names and kinds, and every way to ask agrees; a second entity with a name, or a second ego, is refused and changes nothing. An entity stands where it was spawned or teleported to, on the lane that is there or on none, with that heading, and nothing of the place before remains; until the start, and for things that do not move, it stays there, and afterwards it never moves farther in a frame than its speed takes it. Exchanging what drives a vehicle or pedestrian keeps its place, speed, acceleration, jerk, parameters and limits, and is refused for things and the ego. How long an entity has stood still and how far it has travelled is counted for every kind of entity and everywhere, the end of the road included. Leaving the permitted range of speed, acceleration or jerk is reported, and nothing else. Each frame publishes every entity once, as it is, with the time at the end of the frame; distances between entities are known for exactly the pairs there are. Neither the names of entities nor the order in which they are spawned makes a difference. Of several maps in a directory the first by name is taken.',
     ['histories', 'programs', 'configurations'], 'all sequences of up to four of 29 operations (spawn, despawn, start, frames, exchange of the behaviour, teleports, speeds, limits, ranges) and longer ones around the start; all orders of spawning and namings of four entities in three scenes; all directories of up to ten files',
     'The tests spawn an entity and look at it once; what is left of a place, a behaviour or a count after other operations, and the dependence on names and order, only show over all sequences.',
     ['simulation/traffic_simulator/src/entity/entity_manager.cpp', 'simulation/traffic_simulator/include/traffic_simulator/entity/entity_manager.hpp', 'simulation/traffic_simulator/src/entity/entity_base.cpp', 'simulation/traffic_simulator/src/entity/vehicle_entity.cpp', 'simulation/traffic_simulator/src/entity/pedestrian_entity.cpp', 'simulation/traffic_simulator/src/entity/misc_object_entity.cpp', 'simulation/traffic_simulator/src/data_type/entity_status.cpp', 'simulation/traffic_simulator/include/traffic_simulator/api/configuration.hpp'],
     [('spawn', 'EntityManager::spawnEntity'), ('exchange of behaviours', 'EntityManager::resetBehaviorPlugin'), ('frames', 'EntityManager::update'), ('places', 'CanonicalizedEntityStatus::set'), ('counts', 'EntityBase::onPostUpdate')],
     'exhaustive enumeration of operation sequences on the real entity manager, entities and behaviours, every query compared with a model after each operation',
     'A vehicle of the simulator stands in for the ego (the real one talks to Autoware). What an exchanged behaviour makes of the counts of standing and travelling, and of ranges, is left open. Moving entities’ speeds and places are observed (C37 decides them) and only bounded here.', ['names, kinds, places, lanes, speeds and counts of all entities after every operation', 'the published status of every frame', 'the paths of entities under other names and orders'])

prop('C40', 'Entities follow trajectories, along them, within their limits and in time',
     'An entity told to follow a trajectory goes along it: past each of its points, one after the other, off the lines between them by no more than one step, to within ten centimetres of the last point, where it stands; it is at a point with a time at that time (relative to the point with a time before it when the times are relative). It moves in each frame by its mean speed times the length of the frame, its acceleration is the change in speed, never backwards, never faster than its target speed or its own limit, and never accelerates or brakes harder than its limits allow; with the default limits, and room to stop, a trajectory without times is never refused, never exceeds the rate at which acceleration may grow, and reaches the target speed when it is long enough. A trajectory it cannot follow is refused with an error. An entity without a behaviour (do nothing) is in every frame where the trajectory says, in place and heading, straight between points and evenly in time, waits for the beginning, and stands still at the end; its speed, turning, acceleration and jerk are those of this motion. On the road and off it, for vehicles and pedestrians alike.',
     ['histories', 'inputs', 'configurations'], 'all trajectories of five shapes, four to seven lengths, start speeds, target speeds, times at any of the stops (absolute and relative), two sets of limits, frame lengths, vehicles and pedestrians; all carried ones over 2304 to 4608 of timings, bends, places and starts',
     'The tests check single functions of the controller and a few predicted states; keeping limits, places and times in every frame of every trajectory is not a thing single inputs can show.',
     ['simulation/traffic_simulator/src/behavior/follow_trajectory.cpp', 'simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp', 'simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp', 'simulation/do_nothing_plugin/src/plugin.cpp', 'simulation/behavior_tree_plugin/src/vehicle/follow_trajectory_sequence/follow_polyline_trajectory_action.cpp', 'simulation/behavior_tree_plugin/src/pedestrian/follow_trajectory_sequence/follow_polyline_trajectory_action.cpp', 'simulation/traffic_simulator/src/entity/entity_base.cpp'],
     [('driving', 'makeUpdatedStatus'), ('limits', 'FollowWaypointController::getAcceleration'), ('carrying', 'interpolateEntityStatusFromPolylineTrajectory'), ('requests', 'EntityBase::requestFollowTrajectory')],
     'exhaustive enumeration of trajectories followed frame by frame by the real entities, controller and behaviours, every frame checked',
     'The controller refuses many trajectories it could follow (narrow limits, times); with times or narrow limits a refusal, or taking longer than the run, is accepted. What happens when the end is too near to stop within the limits is left open.', ['place, speed, acceleration of every frame', 'order, places and times of the points passed', 'place, heading, speed, turning, acceleration and jerk of carried entities'])
