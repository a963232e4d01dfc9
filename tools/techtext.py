AX = "system size <= 16 nodes, <= 4 modules with several ports, <= 300 messages per run; real adapters, network and context, stub user modules"
MM = "system size <= 16 nodes, <= 8 memory-mapped ports, <= 150 bursts per run; real adapters and network, stub user modules"
MEM = "<= 2 controllers, <= 3 used channels each, <= 150 bursts per run, 77 shipped DRAM configurations and policy variants of them; real controller and DRAM model, stub initiators"
DR = "runs of 4000-60000 memory cycles (200000 thorough), <= 8 ranks, the 77 shipped DRAM configurations and legal variants of policies, queue sizes, mappings and timings; real DRAMsim3, stub clients"
LK = "2 to 6 devices, <= 250 messages per device and run; real link, cluster and configuration code; plan-driven stub devices"
TECH = {
 "P01": ("exactly-once and integrity matching of port hand-overs", AX),
 "P02": ("per-flow order of port hand-overs", AX + "; several virtual channels per class is known finding KF1"),
 "P03": ("bounded progress after the last stall, and throughput after congestion against a fresh system", AX),
 "P04": ("cycle-by-cycle monitoring of the valid/ready protocol", AX),
 "P05": ("request hand-overs of initiators matched against those of targets", MM),
 "P06": ("response hand-overs of targets matched against those of initiators", MM),
 "P07": ("bounded completion of all operations after the last stall", MM),
 "P08": ("every read beat against the write history of its word", MEM),
 "P09": ("response beats matched with the requests in order, with last flags and tags", MEM),
 "P10": ("bounded completion of all operations while responses are accepted", MEM),
 "P11": ("end-to-end read values, framing and bounded completion over the network", "system size <= 16 nodes, <= 5 initiators, <= 2 controllers, <= 110 bursts per run; real adapters, network, controllers and DRAM model, stub initiators; one writer per memory channel (several: known finding KF2)"),
 "P12": ("acceptances, completions and column commands matched per address, and progress", DR),
 "P13": ("every command of the trace against independently derived timing and bank-state rules", DR),
 "P15": ("hand-overs at the link's ports matched per message, with an occupancy model of each buffer", LK),
 "P16": ("crossing times and counts of messages in link cycles against the configured latency and share", LK),
 "P17": ("end-to-end matching of local and remote messages over networks, portals and link", "2 or 3 devices of <= 16 nodes, <= 200 messages per run; real adapters, networks, portals, link and cluster code; stub user modules; ports narrower than the portal are known finding KF3"),
 "P18": ("records and aggregate files compared with the port hand-overs, in complete and cut-off runs", "one to three devices, one or two networks, <= 150 messages or 70 bursts per run; real statistics, adapter and network code, stub user modules"),
 "P19": ("repeated execution under perturbed heap contents, address layout, environment, process id and host time, histories and statistics compared byte for byte", "the plans of the streaming, memory-mapped, memory, multi-device, DRAM and fabric workloads; each executed two to four times"),
 "P20": ("drivers' own golden comparison and output sequence over random timing configurations", "designs add, mult, mlp, dlrm and dlrm_two_rad with their shipped drivers; modules that share a handshake with the driver run at the driver's clock"),
 "P21": ("flits matched at the fabric's terminals, with a reference model of every input buffer's occupancy and credits", "meshes, tori, concentrated meshes and arbitrary graphs, <= 400 packets per run; real Booksim fabric, stub terminals"),
 "P22": ("bounded delivery and full drain after the load, and bounded waiting per flow under sustained contention", "the fabrics of P21 with <= 6000 cycles; the waiting bound is checked for allocators that serve requesters in turn with one-cycle allocation"),
 "P24": ("each part alone against the whole system to the picosecond, under renaming, with placement, edges and saturated rates read from the user's files", "1 to 3 devices, <= 3 networks, <= 16 nodes each; real config.py, placement, clock and network creation code; stub user modules"),
 "P23": ("delivery of the other classes while receivers of some classes stop for good", "system size <= 16 nodes, <= 8 ports, <= 200 messages and bursts per run; real adapters and network, stub user modules"),
 "P14": ("refresh gaps and rates per rank or bank in the command trace", DR),
 "P26": ("final and per-epoch statistics recomputed from the command trace and the client history", DR + "; hybrid memory cubes excluded"),
 "P27": ("flit rows followed link by link against the routes, the records and the hand-overs; event cycles against the hand-overs", "one to three devices, one or two networks, <= 150 messages or 70 bursts per run; real telemetry, adapter and network code, stub user modules"),
 "P28": ("cycle of every flit of packets that meet nobody against a recurrence over router delays, link latencies and credit round trips, alone, side by side and after bursts and stalls", "networks of <= 144 terminals, <= 16 flits per packet; real Booksim network, stub terminals"),
 "P29": ("commands and completions against an earliest-legal-cycle model of banks, queues and the command bus", "<= 60000 channel cycles per run; real DRAMsim3 driven directly; self refresh and hybrid memory cubes left out; windows around refreshes and the last cycles before the starvation limit not judged"),
 "P30": ("the workloads and faults of the other properties run in a build that checks every access and every undefined operation (address and undefined-behaviour sanitizers, checked containers), through the tear-down", "two of five system builds, the fabric and memory drivers and two designs; the SystemC library is not instrumented; uninitialised reads are P19's (repetition under foreign memory contents)"),
 "P31": ("each system simulated twice, with and without a first phase of load and stalls; hand-over times of lone messages, bursts and operations must be equal to the picosecond", "one to three devices, <= 16 nodes, <= 200 messages or 100 operations in the first phase; bursts only where a class has one virtual channel; memories not included (DRAM refresh and open rows are legitimate history)"),
}
