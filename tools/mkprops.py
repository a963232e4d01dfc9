#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the wording of
all properties can be reviewed in one place)."""
import json, os
S="rad-sim/sim/"
N=S+"noc/"
D=S+"dram/DRAMsim3/src/"
B=S+"noc/booksim/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

AXS=[N+"axis_slave_adapter.cpp",N+"axis_master_adapter.cpp",N+"radsim_noc.cpp",N+"sc_flit.cpp",N+"noc_utils.cpp"]
AXM=[N+"aximm_slave_adapter.cpp",N+"aximm_master_adapter.cpp",N+"radsim_noc.cpp",N+"aximm_interface.hpp"]
GOLD="The shipped tests run six fixed designs with one fixed clock/placement/FIFO setting each and compare a few output values, so they sample one schedule of one workload per design; "

prop("P01","Streaming messages are delivered exactly once, intact, only to their addressee",
 "Every message that a sender port hands over on a streaming interface (valid and ready high at a module clock edge) appears exactly once at the one port named by its destination node and stream id, with its data, user and last fields bit-for-bit unchanged. Nothing is ever delivered that was not sent, and nothing shows up at any other port.",
 ["inputs","schedules","configurations","fault_sequences"],
 "for all message contents, traffic patterns (hot spots, bursts, several ports on one node, several streams per port), receiver stall patterns, start times, clock periods of network/adapters/modules (integer and non-integer ratios, any order of coincident edges), link payload and interface widths, topologies, routing, virtual-channel and FIFO settings that satisfy the documented sizing rules (adapter FIFOs and virtual-channel buffers that hold at least one packet; the networks of one device built alike)",
 GOLD+"never stall a receiver at random, never mix several streams per port and use three link widths only.",
 AXS,[("packetization","axis_slave_adapter::InputPacketization"),("flit injection","axis_slave_adapter::InputInjection"),("ejection + depacketization","axis_master_adapter::OutputEjection/OutputDepacketization"),("delivery","axis_master_adapter::OutputInterface")],
 ["AXI-S ports of user modules (valid/ready/data/last/user/dest/id)"],
 [("injection and ejection asynchronous FIFOs","flits accepted but not yet delivered",N+"axis_*_adapter.hpp")])

prop("P02","Streaming messages of one flow are delivered in the order they were sent",
 "Messages sent from one streaming port to the same destination port are delivered in exactly the order in which they were handed over. This holds whatever other traffic shares the network and however receivers stall.",
 ["inputs","schedules","configurations","fault_sequences"],
 "for all flows (sender port, destination node, stream id) under all traffic mixes, stalls, clock ratios, FIFO sizes and virtual-channel counts, with the routing functions offered by the configuration (dimension-order)",
 GOLD+"no test has competing flows with data-dependent stalls, which is where overtaking would show.",
 AXS+[B+"routers/iq_router.cpp"],[("single FIFO per port and per-class virtual channel","axis_slave_adapter::InputPacketization"),("per-VC reassembly","axis_master_adapter::OutputDepacketization"),("wormhole VC switching","IQRouter")],
 ["AXI-S ports of user modules"])

prop("P03","The streaming network never deadlocks and never loses capacity",
 "If every receiver keeps accepting from some point on, every message handed over before is delivered within a bounded number of cycles and every sender that keeps offering a message gets it accepted. After any history of congestion and stalls the network sustains the same throughput as a fresh one.",
 ["schedules","configurations","fault_sequences","inputs"],
 "for all finite histories of traffic and receiver stalls (including stalls that fill every buffer), all clock ratios including adapters faster than the network clock, all FIFO and virtual-channel settings that hold at least one packet",
 GOLD+"their sinks are almost always ready, so back-pressure and the return of credits is hardly exercised; a lost credit needs thousands of congested cycles to show.",
 AXS+[B+"buffer_state.cpp"],[("credit return","radsim_noc::Tick"),("credit bookkeeping","BufferState::ProcessCredit/SendingFlit"),("ready generation","axis_slave_adapter::InputReady")],
 ["AXI-S ports of user modules"],[("credits","free downstream buffer slots as seen by the injecting adapter",B+"buffer_state.cpp")])

prop("P04","An offered streaming message stays offered, unchanged, until it is accepted",
 "Once a streaming output presents a message as valid to a receiver, it keeps presenting the very same message (data, last, user, destination and stream id) until the clock edge at which the receiver is ready; a receiver that is not ready never loses or skips a message.",
 ["schedules","fault_sequences","configurations","inputs"],
 "for all receiver stall patterns (single-cycle to thousands of cycles, at any time, independently per port), all traffic and all clock ratios",
 GOLD+"no test observes the valid/ready protocol cycle by cycle.",
 [N+"axis_master_adapter.cpp",N+"axis_slave_adapter.cpp",N+"axis_interface.hpp"],[("output register","axis_master_adapter::OutputInterface"),("input ready","axis_slave_adapter::InputReady")],
 ["AXI-S ports of user modules, sampled at every module clock edge"])

prop("P05","Memory-mapped requests reach their target exactly once, all attributes intact",
 "Every read address, write address and write-data beat that an initiator hands over arrives exactly once at the target whose address range contains the request address (write data following the write address it belongs to), in issue order per channel, with address, id, user tag, burst type, size, length, data and last flag unchanged. Nothing else arrives at any target.",
 ["inputs","schedules","configurations","fault_sequences"],
 "for all request mixes from any number of initiators to any number of targets (order is promised per initiator and channel, not between initiators), write addresses offered before earlier write data is complete, all stall patterns, all module and network clocks with an adapter clock faster than the module clock, all link and tag widths; a target absorbs the beat already on its way when it lowers ready",
 "The only memory-mapped test designs use full-size incrementing bursts, one clock setting and no stalls; attribute fields other than address and data are never compared.",
 AXM,[("request packetization and address decode","aximm_slave_adapter::InputInterface/InputPacketization/GetInputDestinationNode"),("request reassembly and field extraction","aximm_master_adapter::OutputInterface")],
 ["AXI4 AR/AW/W ports of initiators and targets"])

prop("P06","Memory-mapped responses return exactly once to their issuer, intact, in order",
 "Every read-data beat and write acknowledgement that a target hands over arrives exactly once at the initiator named by the routing tag that was sent with the request, with data, id, user tag, status and last flag unchanged, and in the order in which that target sent them on that channel. No initiator receives a response that was not addressed to it.",
 ["inputs","schedules","configurations","fault_sequences"],
 "for all interleavings of responses from several targets to several initiators, all initiator stall patterns, all module and network clocks with an adapter clock faster than the module clock, all link and tag widths; an initiator absorbs the beat already on its way when it lowers ready",
 "Shipped designs have a single initiator per memory and never stall responses; status and id fields are not observed.",
 AXM,[("response packetization","aximm_master_adapter::InputInterface/InputPacketization"),("response reassembly","aximm_slave_adapter::OutputEjection/OutputDepacketization/OutputInterface")],
 ["AXI4 R/B ports of initiators and targets"])

prop("P07","Memory-mapped traffic always makes progress",
 "If all targets and initiators keep accepting from some point on, every outstanding request and response is delivered within a bounded number of cycles, whatever was stalled before. Requests being blocked never prevents responses from being delivered.",
 ["schedules","fault_sequences","configurations","inputs"],
 "for all mixes of reads and writes, all finite stall histories of targets and initiators, all FIFO/VC settings that hold one packet, with one virtual channel per traffic class, and all module and network clocks with an adapter clock faster than the module clock",
 "No shipped test stalls a target or initiator; protocol deadlocks between requests and responses and lost credits need back-pressure.",
 AXM,[("credit return","radsim_noc::Tick"),("class to virtual channel mapping","noc_utils.cpp VCIDFromType"),("arbitration","aximm_slave_adapter::InputReady")],
 ["AXI4 ports of initiators and targets"])

prop("P08","A read from a memory returns the most recently written value of every word",
 "A read beat returned by a memory controller carries, for every word of the accessed locations, the value of the latest write to that word that was acknowledged before the read was issued (or the initial content), and never a value from another address or channel. A read overlapping an unacknowledged write returns the old or the new value of each word.",
 ["histories","inputs","schedules","configurations","fault_sequences"],
 "for all interleavings of reads and writes over colliding addresses, ranks, bank groups, banks, rows and channels, burst lengths and sizes, all response stall patterns, for the memory configurations whose burst matches the controller width",
 "The shipped memory designs write once and read back the same lines in order; no random overlap, no stalls, one DRAM part.",
 [S+"dram/mem_controller.cpp",S+"dram/mem_controller.hpp",D+"controller.cc"],[("functional store","mem_controller::MemReadCallback/MemWriteCallback/InitializeMemoryContents"),("request splitting into bursts","mem_controller::Assign/Tick/MemTick"),("DRAM request forwarding","Controller::AddTransaction")],
 ["AXI4 ports of the memory controller"],[("backing store","word contents per address","mem_controller::_mem_contents")])

prop("P09","Each memory request gets exactly its own responses, complete, ordered, tagged",
 "For every read request accepted, a memory controller returns exactly length+1 data beats (one per memory word where the requested beat size is wider than a memory word), the last one and only the last one flagged, contiguous and carrying the request's user tag, and for every completed write burst exactly one acknowledgement carrying that write's user tag. Responses of one channel come back in the order in which its requests were accepted, reads and writes separately.",
 ["histories","inputs","schedules","fault_sequences","configurations"],
 "for all request histories and burst lengths, all response stall patterns (read-response and write-acknowledge ports stalled independently), all controller/DRAM clock ratios that satisfy the documented burst relation",
 "Shipped tests never stall responses and use one tag; out-of-order DRAM completion together with stalls is what breaks framing.",
 [S+"dram/mem_controller.cpp"],[("response reordering","mem_controller::MemReadCallback"),("response output","mem_controller::Assign/Tick")],
 ["AXI4 ports of the memory controller"])

prop("P10","Memory requests always complete",
 "If responses keep being accepted from some point on, every accepted memory request completes within a bounded time and the controller accepts further requests, whatever was stalled before. Filling any internal queue only delays requests.",
 ["schedules","fault_sequences","histories","configurations"],
 "for all request mixes and stall histories, long single-direction streams, queue sizes, and memory parts",
 "Shipped tests never fill the controller's queues.",
 [S+"dram/mem_controller.cpp",D+"controller.cc",D+"command_queue.cc"],[("queue flow control","mem_controller::Assign/MemTick"),("transaction scheduling","Controller::ScheduleTransaction")],
 ["AXI4 ports of the memory controller"])

prop("P11","Several initiators sharing memories over the network see coherent memory",
 "When several modules read and write memory controllers across the network, each read returns the latest value acknowledged to its writer before the read was issued, and each initiator gets back exactly its own responses with its own tags. This holds under any stalls and any placement.",
 ["histories","schedules","fault_sequences","configurations"],
 "for all workloads in which each address region is written by one initiator at a time, all placements, clock ratios and stalls",
 "Shipped designs have one master per memory channel and a fixed placement.",
 [S+"dram/mem_controller.cpp"]+AXM,[("end-to-end memory path","aximm adapters + mem_controller + DRAMsim3")],
 ["AXI4 ports of initiators"])

prop("P12","Every DRAM transaction completes exactly once, as issued, in bounded time",
 "Every transaction that a DRAM system agrees to accept is reported complete exactly once, as the kind (read or write) and with the address it was issued with, and within a bounded number of memory cycles. Outside hybrid memory cubes (whose crossbar may reorder) the accesses to one address are performed so that every read sees exactly the writes accepted before it.",
 ["histories","configurations","inputs","schedules"],
 "for all arrival patterns (random, streaming, row-conflict, bank-conflict, hot-row) and arrival gaps, over the shipped DRAM and hybrid-memory-cube configurations and their policy variants (row-buffer policy, queue structure, refresh policy, address mapping, queue sizes)",
 "The stable DRAM test covers one hybrid-memory-cube interaction; the other DRAM tests check timing helpers on fixed inputs.",
 [D+"memory_system.cc",D+"dram_system.cc",D+"controller.cc",D+"command_queue.cc",D+"hmc.cc"],[("transaction acceptance","Controller::WillAcceptTransaction/AddTransaction"),("completion","Controller::ReturnDoneTrans"),("cube crossbar","HMCMemorySystem")],
 ["DRAM simulator library interface: accept, add, tick, completion callbacks"])

prop("P13","The DRAM command stream always respects the device's timing and state rules",
 "Commands issued to a DRAM rank, bank group and bank always respect the configured minimum spacings (activate, precharge, read, write, refresh, four-activate window, bus turn-around, rank switching) and are legal in the state of the bank (columns only to the open row, activates only to closed banks, refresh only with affected banks closed).",
 ["histories","configurations","schedules"],
 "for all transaction histories over the shipped DRAM configurations and policy variants",
 "No test examines the command stream.",
 [D+"timing.cc",D+"bankstate.cc",D+"channel_state.cc",D+"command_queue.cc",D+"refresh.cc"],[("timing tables","Timing::Timing"),("state update","BankState::UpdateState/UpdateTiming"),("four-activate window","ChannelState::IsFAWReady"),("command choice","CommandQueue::GetCommandToIssue")],
 ["DRAM command trace"],None)

prop("P14","DRAM is refreshed at the configured rate under any load",
 "Every rank receives a refresh in every refresh interval, or, under per-bank refresh, one bank after the other over all banks and ranks receives one in every per-bank interval (none while a rank is in self refresh), with no gap that exceeds the interval by more than a bounded postponement, whatever the load. Refresh never starves requests.",
 ["histories","configurations","schedules"],
 "for all loads (idle, saturating, row-hit streams that never close a row) over the shipped DRAM configurations and refresh policies",
 "No test runs long enough or looks at refreshes.",
 [D+"refresh.cc",D+"controller.cc",D+"command_queue.cc",D+"channel_state.cc"],[("refresh scheduling","Refresh::ClockTick/InsertRefresh"),("refresh draining","CommandQueue::FinishRefresh")],
 ["DRAM command trace"])

prop("P15","The inter-device link delivers each accepted message once, in order, as named",
 "Every message that the link between devices accepts is delivered exactly once, unchanged and in order per sender and destination device, to the device named in its destination and to no other. A message is lost only when the destination's link buffer is full, and every such loss is reported and counted.",
 ["schedules","inputs","fault_sequences","configurations"],
 "for all numbers of devices, traffic patterns (all-to-one, pairwise, bursts), receiver stalls, latencies, bandwidth limits and buffer sizes",
 "The one stable multi-device test has two devices, one direction of traffic at a time and never stalls the receiving side.",
 [S+"radsim_inter_rad.cpp",S+"portal.cpp"],[("accept + queue","RADSimInterRad::writeFifo"),("deliver","RADSimInterRad::readFifo"),("portal","portal::Tick")],
 ["streaming ports of the inter-device link"])

prop("P16","The inter-device link has the configured latency and bandwidth",
 "No message crosses between devices faster than the configured latency, an uncongested message takes that latency up to a fixed small overhead, and no device exceeds the configured share of link bandwidth (to three decimals) over any 1000 link cycles, while a sender that always has a message waiting reaches it.",
 ["configurations","schedules","inputs"],
 "for all latencies, bandwidths (any fraction of the full link rate from 0.001 up) and traffic patterns, with receivers that accept whenever the link offers",
 "Tests use one latency and full bandwidth and only look at output values.",
 [S+"radsim_inter_rad.cpp","rad-sim/config.py"],[("latency counters","RADSimInterRad::readFifo"),("bandwidth throttling","RADSimInterRad::writeFifo"),("conversion of user units to cycles","rad-sim/config.py get_fraction and inter_rad_* handling")],
 ["streaming ports of the inter-device link","generated configuration"])

prop("P17","Messages to modules on another device arrive there exactly once, in order",
 "A streaming message addressed to a node on another device is delivered exactly once to that node on that device (to the node's first stream), with its data, user and last fields unchanged and in order per sender and receiver, while traffic local to each device is unaffected; nothing is lost unless a link buffer overflow is reported.",
 ["schedules","inputs","fault_sequences","configurations"],
 "for all numbers of devices, mixes of local and remote traffic, placements of portals, receiver stalls and clock ratios, with portals clocked at the link clock and ports of the full streaming width",
 "One two-device design with a single remote flow is tested.",
 [S+"portal.cpp",S+"radsim_inter_rad.cpp",S+"radsim_cluster.cpp",N+"axis_slave_adapter.cpp",S+"design_context.cpp"],[("remote destination rewrite","axis_slave_adapter::InputInjection"),("portal store-and-forward","portal::Tick"),("link","RADSimInterRad")],
 ["AXI-S ports of user modules on all devices"])

prop("P18","Reported transaction statistics match what really happened",
 "The per-transaction log contains exactly one record per transaction accepted by the network with its true source, destination, type and width; its time stamps are in causal order (initiated, injected, ejected, depacketized, received; packetized after initiated), its start and end times are those of the hand-overs at the ports, its latency is their difference and its hop count is that of the route, whether the log is written after the run or while transactions are in flight. The reported traffic flows and aggregate bandwidths of each device and network agree with the individual records.",
 ["inputs","schedules","configurations","fault_sequences"],
 "for all workloads, stalls, clock settings and network choices",
 "No test reads the statistics, although they are the product of the simulator.",
 [S+"radsim_telemetry.cpp",N+"axis_slave_adapter.cpp",N+"axis_master_adapter.cpp",N+"aximm_slave_adapter.cpp",N+"aximm_master_adapter.cpp",B+"routers/router.cpp"],[("recording","NoCTransactionTelemetry::Record*"),("dump","NoCTransactionTelemetry::DumpStatsToFile/DumpTrafficFlows")],
 ["statistics files"])

prop("P19","Simulations are reproducible",
 "Two simulations of the same design, configuration and inputs produce identical results, identical cycle counts and identical statistics, regardless of the process, host clock, environment, memory layout or heap contents they run with.",
 ["schedules","configurations","inputs"],
 "for all designs and configurations; perturbations: heap fill pattern, address-space layout, environment size, host time, process id, repeated execution",
 "Each test runs once in one environment, so dependence on uninitialised memory, addresses or the host clock goes unseen.",
 AXS+AXM+[S+"radsim_telemetry.cpp",D+"controller.cc",B+"random_utils.hpp"],[("pseudo-random seeding","booksim config seed"),("container iteration and initialisation","whole simulator")],
 ["all observable outputs"])

prop("P20","The timing configuration changes when results appear, never what they are",
 "The shipped example designs add, mult, mlp and dlrm (on one device and on two) compute the same, correct output values under every legal timing configuration: network, adapter and module clock periods, FIFO and queue depths, virtual channels, router and link delays, placement and arbitration policy, and all of them finish.",
 ["configurations","schedules"],
 "for all legal timing configurations, inputs, layer shapes and embedding tables of the designs and all orders of coincident clock edges (modules that share a handshake with the driver run at the driver's clock)",
 "Tests run each design with its single shipped configuration.",
 AXS+["rad-sim/example-designs/mlp/modules/mvm.cpp","rad-sim/example-designs/add/modules/adder.cpp","rad-sim/example-designs/mult/modules/mult.cpp","rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp","rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp","rad-sim/example-designs/dlrm/modules/mvm.cpp"],[("latency-insensitive streaming","AXI-S adapters"),("design modules","example-designs/*/modules")],
 ["design outputs compared with golden outputs"])

prop("P21","The network fabric delivers every flit once, intact, in order, where addressed",
 "Every packet injected into the network fabric leaves it exactly once, at its destination terminal only, with all of its flits, contents unchanged and in order, and packets of one source, destination and traffic class leave in injection order under deterministic routing with one virtual channel per class (two on a torus). Buffers are never overrun and every credit is returned exactly once.",
 ["configurations","schedules","inputs","fault_sequences"],
 "for all supported topologies and sizes, routing functions, allocators, arbiters, buffer and virtual-channel counts, router pipeline delays, packet lengths, injection rates and terminal stalls",
 "Tests run a mesh with one allocator, one router configuration, low load and no terminal stalls.",
 [B+"routers/iq_router.cpp",B+"buffer.cpp",B+"buffer_state.cpp",B+"vc.cpp",B+"routefunc.cpp",B+"networks/kncube.cpp",B+"allocators/islip.cpp",B+"flitchannel.hpp"],[("router pipeline","IQRouter::_InternalStep"),("credit accounting","BufferState"),("routing","routefunc.cpp"),("allocation","allocators/*")],
 ["fabric injection and ejection channels"])

prop("P22","The network fabric is deadlock- and starvation-free",
 "When terminals keep accepting, every packet injected into the fabric is delivered within a bounded number of cycles, under any load, and after the load ends the fabric drains completely with all credits returned. Under sustained contention every source and class keeps making progress where the allocators serve requesters in turn.",
 ["configurations","schedules","fault_sequences","inputs"],
 "for all supported topology/routing/virtual-channel combinations, loads from idle to saturation, and terminal stall histories (progress under endless contention: allocators islip, pim, loa, select and the separable ones, allocation in one cycle, routing without random detours)",
 "Tests never saturate the network, where deadlock and starvation appear.",
 [B+"routers/iq_router.cpp",B+"allocators/islip.cpp",B+"arbiters/roundrobin_arb.cpp",B+"routefunc.cpp"],[("allocation and arbitration fairness","allocators/*, arbiters/*"),("routing deadlock avoidance","routefunc.cpp")],
 ["fabric injection and ejection channels"])

prop("P23","Blocked traffic of one class never blocks another class",
 "When receivers of one traffic class stop accepting, traffic of every other class between any nodes keeps flowing and is delivered within a bounded time. This holds for the streaming and the memory-mapped classes sharing one network.",
 ["schedules","fault_sequences","configurations","inputs"],
 "for all choices of the blocked class, positions of blocked receivers and loads, in configurations with separate virtual channels per class, for traffic injected at nodes that do not also inject traffic of the blocked class (a node has one injection queue)",
 "No test blocks a receiver while other traffic runs.",
 [N+"noc_utils.cpp",N+"axis_slave_adapter.cpp",N+"axis_master_adapter.cpp",N+"aximm_master_adapter.cpp",N+"aximm_slave_adapter.cpp",B+"routers/iq_router.cpp",B+"booksim_config.cpp"],[("class to virtual channel mapping","noc_utils.cpp VCIDFromType"),("per-VC ejection queues","axis_master_adapter/aximm adapters OutputEjection")],
 ["ports of user modules"])

prop("P24","Clocks, placement and network assignment are exactly those configured",
 "Each module, adapter and network runs at the clock period the user configured for it, each port sits at the node and on the network the placement file names, addresses and destinations looked up by port name reach that port, and settings of one device never leak into another.",
 ["configurations"],
 "for all legal configuration files, placements (single and multiple networks, several ports per module, explicit and per-module placement), clock assignments and multi-device clusters including shared device configurations",
 "Each test has a single fixed configuration; a swapped clock, node or device setting is invisible when all values are equal.",
 ["rad-sim/config.py",S+"design_context.cpp",S+"radsim_config.cpp",S+"radsim_cluster.cpp",N+"radsim_noc.cpp"],[("configuration generation","rad-sim/config.py"),("knob parsing","radsim_config.cpp ParseRADSimKnobs"),("placement and clock parsing","RADSimDesignContext::ParseNoCPlacement/ParseClockSettings"),("network creation","RADSimDesignContext::CreateSystemNoCs")],
 ["port-level behaviour and clock edges of user modules"])

prop("P25","Generated RTL wrappers connect every port exactly as the module declares it",
 "The wrapper generator maps every port of a described module to exactly one interface signal of the declared width and direction, and the generated wrapper forwards exactly those signals.",
 ["inputs"],
 "for all module descriptions",
 "The unit tests cover a handful of module descriptions.",
 ["rad-sim/scripts/generate_wrapper.py","rad-sim/scripts/generate_port_mappings.py"],[("port mapping","generate_port_mappings.py"),("wrapper emission","generate_wrapper.py")],
 ["generated files"])

prop("P26","DRAM statistics and power figures agree with the command stream",
 "The statistics the memory model reports per channel (cycles, commands by kind, requests served, row hits, latencies, cycles idle, active and in self refresh per rank, energy, power, bandwidth) are exactly those of the commands it issued and the requests it served. Each epoch report covers exactly its epoch.",
 ["inputs","histories","configurations","schedules"],
 "for all loads over the shipped DRAM configurations except hybrid memory cubes (which report per vault) and legal variants of them, all epoch lengths, row policies, refresh policies and self refresh; reports are those written when the simulation ends or an epoch ends",
 "No test reads a statistics file.",
 [D+"simple_stats.cc",D+"controller.cc",D+"channel_state.cc",D+"command_queue.cc",D+"configuration.cc",D+"dram_system.cc"],[("counting","Controller::UpdateCommandStats/ClockTick/ReturnDoneTrans"),("reports","SimpleStats::PrintEpochStats/PrintFinalStats"),("energy coefficients","Config::InitPowerParams")],
 ["JSON statistics files, compared with the command trace and the client interface"])

prop("P27","Flit and event traces show what happened, where and when",
 "The flit trace holds, for every flit and every link it crosses, one row when it enters the link and one when it leaves it, with the transaction, the flit type, the routers and the exact time, and the rows of a transaction form one connected route from its source to its destination. The event traces hold exactly the cycles in which the events were recorded, in order.",
 ["schedules","inputs","histories","configurations"],
 "for all workloads, topologies, clock periods and numbers of networks and devices, in complete runs and in runs cut off in the middle",
 "No test reads a flit or event trace.",
 ["rad-sim/sim/radsim_telemetry.cpp","rad-sim/sim/radsim_telemetry.hpp","rad-sim/sim/noc/radsim_noc.cpp","rad-sim/sim/noc/booksim/flitchannel.cpp","rad-sim/sim/radsim_utils.cpp"],[("flit rows","NoCFlitTelemetry::RecordFlitTrace, FlitChannel"),("event traces","SimTraceRecording::record_event/dump_traces"),("cycle of an event","GetSimulationCycle")],
 ["flit trace file, event trace file, statistics records and port-level hand-overs"])

prop("P28","An undisturbed packet takes exactly the time the network configuration says",
 "A packet that shares no link with other traffic spends exactly the configured routing, allocation and crossbar cycles in each router and the link's latency on each link, over a shortest route where the routing function is minimal, and its flits follow each other exactly as fast as switch allocation, buffer depth and credit round trip allow. Packets that share no link do not slow each other down. A network that has carried load or met stalled terminals is, once drained, exactly as fast as a new one.",
 ["configurations","schedules","fault_sequences","histories","inputs"],
 "for all supported topologies (network files with latencies per link and node included), routing functions, allocators, router delays, credit delays, buffer depths, packet lengths, source/destination pairs and histories of earlier load and stalls",
 "No test looks at network timing; a wrong delay or a lost credit only changes cycle counts that the tests do not check.",
 [B+"routers/iq_router.cpp",B+"networks/kncube.cpp",B+"networks/cmesh.cpp",B+"networks/anynet.cpp",B+"channel.hpp",B+"buffer_state.cpp",B+"routefunc.cpp","rad-sim/config.py"],[("router pipeline","IQRouter::_InternalStep"),("link latencies","KNCube/CMesh/AnyNet::_BuildNet, AnyNet::readFile"),("credits","IQRouter::_SendCredits/_ReceiveCredits, BufferState")],
 ["fabric injection and ejection channels (cycle of every flit)"])

prop("P29","The memory controller never wastes a cycle in which a command would be legal",
 "Outside refresh windows, whenever a queued request's next command (activate, column command, or precharge of a row nobody queued still wants) is legal under the device's timing table and no other command takes the bus, the command is issued in that cycle. Requests move to the command queues one per cycle, the oldest for which there is room first, whatever happened before (bursts, refreshes, full queues). A read completes exactly read latency plus burst length after its column command.",
 ["configurations","schedules","histories","inputs"],
 "for all device configurations without hybrid memory cube or self refresh (protocol, timing values, queue structure and size, paging policy, refresh policy, ranks, channels), request sequences and arrival times",
 "The tests check no memory timing; a controller that issues commands too late still returns the right data, and only cycle counts that no test looks at change.",
 [D+"command_queue.cc",D+"controller.cc",D+"timing.cc",D+"channel_state.cc",D+"bankstate.cc",D+"configuration.cc"],[("choice of commands","CommandQueue::GetCommandToIssue, ArbitratePrecharge"),("transaction hand-over","Controller::ScheduleTransaction"),("earliest cycle of every command","Timing, BankState::UpdateTiming, ChannelState::ActivationWindowOk"),("completion","Controller::IssueCommand, ReturnDoneTrans")],
 ["memory system interface (AddTransaction, callbacks)","DRAM command bus (command trace)"])

prop("P30","No simulation touches memory it does not own",
 "From elaboration to the tear-down in the generated main, whatever the configuration, traffic, schedule and stalls, the simulator reads and writes only memory it owns: no access outside an object or container, before its creation or after its end, and no double release. Every arithmetic operation, conversion and container operation it performs is one that C++ defines. A simulation of a legal system never ends abnormally.",
 ["configurations","schedules","fault_sequences","histories","inputs"],
 "for all legal configurations, message and transaction sequences, schedules of coincident clock edges, stalls and points at which the simulation stops",
 "An access just outside a container usually reads something harmless in the few runs of the tests; it changes results, or crashes, only in other sizes, other histories and other memory layouts.",
 [B+"routers/iq_router.cpp",B+"buffer_state.cpp",B+"allocators/selalloc.cpp","rad-sim/sim/noc/radsim_noc.cpp","rad-sim/sim/noc/aximm_master_adapter.cpp","rad-sim/sim/noc/axis_master_adapter.cpp","rad-sim/sim/dram/mem_controller.cpp",D+"controller.cc","rad-sim/sim/radsim_telemetry.cpp","rad-sim/sim/radsim_inter_rad.cpp","rad-sim/example-designs/mlp/mlp_system.cpp"],
 [("queues of outstanding requests","mem_controller::MemReadCallback"),("per-port and per-VC tables","radsim_noc, adapters, IQRouter, BufferState, allocators"),("tear-down","main.cpp, RADSimInterRad and design destructors")],
 ["process memory (instrumented build)","exit status of the simulation"])

prop("P31","A system that has drained is exactly as fast as a new one",
 "Whatever load, stalls, slow receivers and full queues a system has met, once they are over and the traffic has drained, a message, burst or memory-mapped operation that travels alone, within a device or between devices, is accepted and delivered after exactly the same time as on a system that has just been reset. Operations that several initiators start together take no longer than on a new system beyond the effect of where arbiters start.",
 ["configurations","schedules","fault_sequences","histories"],
 "for all topologies, clock ratios, placements, FIFO and buffer sizes, link settings, loads and stall patterns before the measured phase",
 "State left behind by congestion (a credit, a queue slot, a pointer, a counter) only costs cycles later; tests start from reset, send little and check no cycle counts.",
 ["rad-sim/sim/noc/axis_slave_adapter.cpp","rad-sim/sim/noc/axis_master_adapter.cpp","rad-sim/sim/noc/aximm_slave_adapter.cpp","rad-sim/sim/noc/aximm_master_adapter.cpp","rad-sim/sim/portal.cpp","rad-sim/sim/radsim_inter_rad.cpp",B+"buffer_state.cpp",B+"routers/iq_router.cpp"],
 [("adapter queues and arbitration state","*_adapter injection/ejection processes"),("portal and link state","portal::Tick, RADSimInterRad::readFifo/writeFifo"),("credits","BufferState, IQRouter")],
 ["module ports (time of every hand-over)"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
import re
repo="/repo/"
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    n=len(re.findall(r"[.!?](\s|$)",p["statement"]))
    assert n<=3,(p["id"],n)
    for fn in p["anchors"]["files"]:
        if not os.path.exists(repo+fn): print("missing",p["id"],fn)
