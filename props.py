"""Single source for properties.jsonl, MANIFEST.json (see gen.py) and the run parameters used by check.py."""
TECH = "deterministic simulation with fault injection (seeded search)"
STUBS = ["heap (in-harness allocator: layout, contents and failures drawn from the seed)", "clocks", "rand()", "reads, writes and opens of simulated storage paths (faults drawn from the seed, data kept in a scratch directory)",
         "standard output (fault-injecting stream)", "the dataflow application itself (tasks, channels, schedulers: simulated by a discrete-event engine)"]
REAL_CLI = ["command line front end", "XML reader (libxml2, real)", "dataflow model", "normalisation and repetition vector"]
ASSUME = ["applications are small (up to 8 tasks, repetition counts up to about 150 firings per iteration, rates up to a few units, integer durations): the search says nothing about larger ones",
          "the simulator's own discrete-event engine and its XML writer are right (they are a few hundred lines, and are cross-checked by thousands of agreements with independent analyses of the tool)",
          "the simulator is built with g++ -O1 from the same sources as the shipped binary"]
DOM = "connected applications with at least one channel"
PROPS = {}
def P(id, **k):
    k.setdefault("level", "exploration"); k.setdefault("assumptions", ASSUME); PROPS[id] = k

CMDS = "the throughput, scheduling, sizing, exploration, transformation and printing commands (about 35 requests)"
P("C01", title="Applications are accepted exactly when their rates balance",
  statement="For every connected dataflow application with at least one channel, a repetition vector is given exactly when the production and consumption rates can be balanced, and every analysis refuses an application whose rates cannot be. The vector is the smallest positive one, counted in firings (a task with several phases counts each phase). Firing every task that many times, in any order the channels allow, brings every channel back to its initial number of tokens.",
  over=["inputs", "schedules"], qtext="Every connected application with at least one channel; every order in which its tasks can fire.",
  why="The tests check a handful of hand-made graphs; balance, minimality and order-independence must hold for every graph and every firing order.",
  files=["src/libkiter/models/repetition_vector.cpp", "src/libkiter/models/repetition_vector.h", "src/libkiter/algorithms/normalization.h"],
  mech=[("balance equations", "src/libkiter/models/repetition_vector.cpp: computeRepetitionVector")],
  observe=["computeRepetitionVector() result and getNi() for every vertex", "exit status of every analysis command on an unbalanced application"],
  quick=40000, real=REAL_CLI + ["every analysis command (on unbalanced applications)"],
  rule="A run draws an application (balanced, or with one rate broken), asks the real code for its repetition vector under a drawn heap and clock, then fires the application in seeded orders.",
  note="Seeded search over applications and firing orders; bounded sizes.",
  design="Draw an application (or break one rate of a balanced one), ask the real code for the vector inside the simulated environment, then execute the announced number of firings in seeded firing orders (uniform, greedy, starving) in the engine. Oracle: each task can be fired exactly that often (live applications), every channel returns to its marking, the vector equals the independently computed minimal one; unbalanced applications are refused by the vector and by each of 15 commands.")
P("C02", title="Reported throughput is the rate the application really runs at",
  statement="For every connected, balanced application whose tasks never overlap their own firings and which never blocks, the exact throughput analyses (K-periodic in its three forms, its event-graph and linear-programming forms with full unfolding, symbolic execution, and for single-phase applications the two de Groote forms) report the number of graph iterations per time unit of the execution in which every task starts as soon as its tokens are available. The K-periodic report also gives the inverse of that number as the period. Temporary stalls of tasks do not change the rate the application settles at, nor the answer.",
  over=["inputs", "schedules", "fault_sequences"], qtext="Every application as described; every pattern of finitely many task stalls before it settles.",
  why="The tests compare a few graphs with recorded values or compare analyses with one another; an error shared by the analyses, or one that needs particular rates, phases or markings, passes.",
  files=["src/libkiter/algorithms/throughput/kperiodic.cpp", "src/libkiter/algorithms/throughput/symbolic_execution.cpp", "src/libkiter/commons/howard_cycle_ratio.hpp", "src/libkiter/models/EventGraph.cpp", "src/libkiter/algorithms/throughput/degroote.cpp"],
  mech=[("K-iterative search with critical-circuit test", "src/libkiter/algorithms/throughput/kperiodic.cpp"), ("event graph and maximum cycle ratio", "src/libkiter/models/EventGraph.cpp"), ("state-space exploration", "src/libkiter/algorithms/throughput/symbolic_execution.cpp")],
  observe=["'... throughput is' and '... period is' lines of KPeriodicThroughput, NKPeriodicThroughput, EGN, LPN, SymbExec, deGrooteThroughput, deGrooteCleanThroughput"],
  quick=30000, real=REAL_CLI + ["K-periodic, event-graph, LP (glpk real), symbolic-execution and de Groote throughput analyses"],
  rule="A run draws an application, executes it in the discrete-event engine (self-timed, or with seeded task stalls that stop after a while) until its state repeats, and asks one real analysis.",
  note="Independent oracle: the exact steady-state rate of the simulated execution. Bounded sizes.",
  design="Feedback applications whose channels run through long chains of relays (as on a network) make the search for the critical cycle long; they are a scenario of their own. The application runs in the discrete-event engine under self-timed scheduling, and separately with seeded stalls (each firing delayed by up to 30 units) that stop after a drawn time; state recurrence gives the exact rational rate per strongly connected part. The real command is asked inside the simulated environment and must report that number (1e-6 relative; 2e-5 for commands printing six digits).")
P("C03", title="Deadlocks are told apart from live applications",
  statement="For every connected, balanced application with at least one channel whose tasks never overlap their own firings, no throughput analysis reports a positive throughput when the application reaches a state in which it can no longer complete an iteration, whatever order the tasks are fired in. When the application can complete iterations forever, every exact analysis (K-periodic, full unfolding, symbolic execution, de Groote on single-phase applications) reports a positive throughput, while analyses of restricted schedules may decline.",
  over=["inputs", "schedules"], qtext="Every application as described, with any number of initial tokens; every firing order.",
  why="Tests contain a couple of deadlocking graphs; a liveness verdict must hold for every marking and every firing order.",
  files=["src/libkiter/algorithms/throughput/kperiodic.cpp", "src/libkiter/algorithms/throughput/symbolic_execution.cpp", "src/libkiter/models/EventGraph.cpp", "src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp"],
  mech=[("infeasible cycle detection", "src/libkiter/models/EventGraph.cpp"), ("state-space exploration", "src/libkiter/algorithms/throughput/symbolic_execution.cpp")],
  observe=["throughput line and exit status of each throughput command"],
  quick=36000, real=REAL_CLI + ["eleven throughput analyses, plus the two de Groote forms on single-phase applications"],
  rule="A run draws an application with too few or just enough tokens, fires it twice in different seeded orders to decide liveness, and asks one real analysis.",
  note="Seeded search; the liveness oracle is independent execution. Bounded sizes.",
  design="The marking is drawn without making the graph live. Two seeded firing orders in the engine must agree (dataflow determinacy, a self-check of the oracle) and give the verdict; one of 13 commands is asked. A positive throughput for a blocked application, or no positive throughput from an exact analysis for a live one, is the violation.")
P("C04", title="Periodic analyses are ordered lower bounds on the real rate",
  statement="For every connected, balanced, live application with at least one channel whose tasks never overlap their own firings, the throughputs reported by the approximate strictly periodic, the strictly periodic, the 1-periodic, the 2-periodic and the K-periodic analyses never decrease in that order, and none exceeds the rate the application really runs at. The event-graph form and the linear-programming form of the 1-periodic analysis report the same value as the 1-periodic one, and the linear-programming form of the strictly periodic analysis the same as the strictly periodic one. A value that is not positive announces that there is no schedule of that shape.",
  over=["inputs", "configurations"], qtext="Every application as described, under each of the eight analyses.",
  why="Tests compare the analyses on a few graphs; the order and the equalities must hold on every graph.",
  files=["src/libkiter/algorithms/throughput/kperiodic.cpp", "src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp", "src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp", "src/libkiter/models/EventGraph.cpp"],
  mech=[("1-periodic and 2-periodic event graphs", "src/libkiter/algorithms/throughput/kperiodic.cpp"), ("linear programs", "src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp")],
  observe=["throughput lines of ASPeriodicThroughput, SPeriodicThroughput, 1PeriodicThroughput, 2PeriodicThroughput, KPeriodicThroughput, EG1, LP1, REALLP1"],
  quick=9000, real=REAL_CLI + ["eight periodic analyses; glpk"],
  rule="A run draws an application, executes it to find its real rate, asks all eight analyses and checks every relation between them.",
  note="Differential and against the simulated rate; seeded search, bounded sizes.",
  design="One drawn application, one drawn environment, eight commands; the simulated self-timed rate bounds all of them. Relations: ASP <= SP <= 1P <= 2P <= KP <= rate, EG1 = LP1 = 1P, REALLP1 = SP.")
P("C05", title="Published schedules can be executed, at the announced rate",
  statement="For every connected, balanced, live application with at least one channel whose tasks never overlap their own firings, every schedule that the 1-periodic, strictly periodic, K-periodic, linear-programming and as-soon-as-possible scheduling functions publish can be executed as announced: no task ever starts before its tokens are there or before its previous firing ended, for as long as one cares to run it. It completes iterations at exactly the announced throughput. The chart printed with the as-soon-as-possible schedule shows exactly its firings, for any line width. The same holds for the drawing made for any periodicities the user chooses, and the constraints printed with it are met by the drawn start times and allow no shorter period. K-periodic, fully unfolded linear-programming and (on strongly connected applications) as-soon-as-possible scheduling always publish one, and tasks that finish early never break a published schedule.",
  over=["inputs", "schedules", "fault_sequences"], qtext="Every application as described (as-soon-as-possible: strongly connected ones; printed schedules: no zero durations); every number of iterations; every pattern of firings that end early.",
  why="The tests check the throughput figure of a few schedules, not that the start times respect the tokens on every iteration.",
  files=["src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp", "src/libkiter/algorithms/throughput/kperiodic.cpp", "src/libkiter/models/Scheduling.h", "src/libkiter/models/Scheduling.cpp", "src/libkiter/algorithms/throughput/symbolic_execution.cpp"],
  mech=[("start times from the event graph", "src/libkiter/algorithms/throughput/kperiodic.cpp"), ("schedule object and printing", "src/libkiter/models/Scheduling.cpp"), ("start times from state-space exploration", "src/libkiter/algorithms/throughput/symbolic_execution.cpp")],
  observe=["schedule object returned by the scheduling functions", "text printed by ASAPScheduling, 1PeriodicScheduling, SPeriodicScheduling", "drawing and constraint graph printed by PrintKPeriodicScheduling"],
  quick=40000, real=REAL_CLI + ["scheduling functions (six), four printing commands; glpk"],
  rule="A run draws an application, obtains one published schedule and executes it as a time-triggered system in the discrete-event engine for several iterations, with seeded early completions.",
  note="The schedule is executed, not compared. Seeded search, bounded sizes.",
  design="The published start times drive a time-triggered execution in the engine: each start must find its tokens and an idle task. Firings may end early (seeded). The rate counted over the periodic part must equal the announced throughput. For chosen periodicities the drawing is executed likewise, every printed constraint is evaluated on the drawn starts, and a period 0.1% shorter must leave a positive circuit among the constraints.")
P("C08", title="Announced buffer sizes are enough, and minimal where promised",
  statement="For every connected, balanced, live application with at least one channel whose tasks never overlap their own firings and which can be scheduled periodically with a given period, the total buffer size (places weighted by token size) announced by the periodic, strictly periodic and fixed-offset sizing commands for that period can be shared among the channels so that the application, executed with those finite buffers (space claimed when a firing starts, released when the consuming firing ends), completes an iteration per period. The periodic command finds a size whenever such a schedule exists, and the integer results of the periodic and strictly periodic commands are minimal for schedules of their shape. Every point that the periodic and strictly periodic explorations list is such a size for its rate (periods up to 10^5), and the periodic one goes up to the best periodic rate. No size is announced by those two for a period the application cannot reach even with unlimited buffers.",
  over=["inputs", "configurations", "schedules"], qtext="Every application as described, every integer period, each sizing command and offset policy, with integer or relaxed sizes.",
  why="Tests compare sizes with recorded figures for a few graphs; that the size is sufficient in execution and minimal is never executed.",
  files=["src/libkiter/algorithms/buffersizing/periodic.cpp", "src/libkiter/algorithms/buffersizing/periodic_fixed.cpp", "src/libkiter/algorithms/dse/periodic.cpp"],
  mech=[("linear programs for buffer sizes", "src/libkiter/algorithms/buffersizing/periodic.cpp")],
  observe=["'... size is' line of PeriodicSizing, SPeriodicSizing, FixedOffsetBufferSizing"],
  quick=24000, real=REAL_CLI + ["three sizing commands; glpk"],
  rule="A run draws an application, a period and a sizing command, then executes the application with the announced storage under every distribution until one sustains the period, and for minimality checks every distribution of one place less.",
  note="Sufficiency by execution of all distributions; minimality against the tool's own periodic scheduler on bounded graphs (itself checked by C04 and C05). Bounded sizes.",
  design="All distributions of the announced total are executed in the engine with back-pressure; one must sustain the period. Minimality: for integer results, every distribution of one place less is given as a bounded application to the periodic scheduling function of the same shape, and none may reach the period. Explorations: the two lists a run prints must agree, the best rate must be that of 1PeriodicThroughput, and three drawn points are executed the same way and compared with the integer sizing command just above and below their period.")
P("C09", title="Storage and throughput exploration lists true points and finds the best",
  statement="For every connected, balanced, live application with a finite rate, at least one channel and tasks that never overlap their own firings, each point listed by the storage/throughput exploration gives one capacity per channel, their sum as the size, and exactly the rate at which the application runs with those capacities; sizes never decrease along the list. The best listed point reaches the highest rate the application can reach at all. For single-phase applications no distribution of storage does better than the listed points of at most the same size. Given a target rate, the exploration ends with the smallest size that reaches it, and refuses a target the application cannot reach; written to files, it gives the same points and a list of exactly those that no smaller one equals. A distribution examined alone gets exactly its rate, and room added only in channels not named as limiting does not raise it.",
  over=["inputs", "configurations"], qtext="Every application as described with few channels; every distribution of storage up to the largest listed.",
  why="Tests check the exploration on a few graphs against recorded fronts; that each point is real and none is missing is not executed.",
  files=["src/libkiter/algorithms/dse/kperiodic.cpp", "src/libkiter/algorithms/dse/buffer_sizing.cpp", "src/libkiter/algorithms/dse/dse.cpp"],
  mech=[("exploration of storage distributions", "src/libkiter/algorithms/dse")],
  observe=["rows 'size;throughput;\"capacities\";...' printed by ThroughputBufferingDSE (default, SYMB_EXEC_CORRECTED and SYMB_EXEC_ORIGINAL, with and without THR, COARSE and LOGDIR)", "log and list files", "rate and dependencies printed by SymbExecDebug for a given distribution"],
  quick=40000, real=REAL_CLI + ["ThroughputBufferingDSE and SymbExecDebug with the K-periodic and the symbolic-execution engines"],
  rule="A run draws an application, runs the whole exploration, executes every listed point with finite buffers, and on single-phase applications executes every other distribution to look for a missing point.",
  note="Every listed point executed; front completeness executed exhaustively per drawn single-phase application when it has at most 1500 distributions. Bounded sizes.",
  design="Every printed point is executed in the engine with back-pressure and must run at the printed rate; the maximum must equal the unbounded rate; on single-phase applications every distribution up to the largest size is executed and may not beat the listed points. Targets, coarse steps and log files are drawn as well; the list file is compared with the front of the logged points. For a single distribution, the channels not named are given 60 more places and the execution may not get faster.")
ENVASSUME = ["the faults are those the simulated C library can show: a failing or partial read, write, open or allocation; what a real disk or kernel does below that is not modelled",
             "the simulator is built with g++ -O1 from the same sources as the shipped binary"]
P("C10", title="Printed documents are the application that was read",
  statement="For every well-formed application document (SDF or CSDF; tasks with start-up and repeated phases, any decimal durations, repetition shorthand, any attribute and element order, any names, any initial tokens and token sizes), the document printed for it describes the same application: same names and types, same durations to the last digit, same rates, initial tokens, token sizes and self-concurrency limits. Written to a file it is the same document; reading the printed document and printing again changes nothing; analyses answer the same for it. An application that the program transformed, mapped or generated can be saved and read again as the same application, with the same throughput. The program text printed for an application builds and returns that application.",
  over=["inputs", "configurations"], qtext="Every document as described; any number of save and reload cycles.",
  why="Tests write and read a few fixed graphs; that nothing is lost must hold for every document.",
  files=["src/libkiter/printers/SDF3Wrapper.cpp", "src/libkiter/printers/stdout.cpp", "src/libkiter/models/Dataflow.cpp", "src/libkiter/models/Dataflow.h", "src/libkiter/commons/commons.cpp"],
  mech=[("XML reader and writer", "src/libkiter/printers/SDF3Wrapper.cpp"), ("program text printer", "src/libkiter/printers/stdout.cpp: generate_kiter")],
  observe=["PrintXML on standard output and with filename=", "PrintKiter", "answers of nine analyses for the original and the printed document", "results of transformations, mappings and the generator, saved and read again"],
  quick=40000, real=REAL_CLI + ["XML writer", "PrintKiter", "nine analyses"], assumptions=ENVASSUME + ["the harness's own small XML reader is right"],
  rule="A run draws a document, has it printed, saved and reloaded under drawn heaps and clocks, and compares meanings with an independent reader.",
  note="Independent reader as oracle; seeded search over documents.",
  design="Documents are drawn with start-up phases, decimal durations, `n*v` shorthand, shuffled attributes and elements, comments, odd names and large numbers. An independent XML reader gives the meaning of the drawn and of the printed document; both must agree exactly. The process ends and restarts between saving and reloading, each time in another environment; a second save must be byte-identical; nine analyses must answer the same from the original and the saved document. Results of SingleOutput, RemoveReentrancy, AddVBuffers, communication modelling, conflict-free scheduling and the generator are saved and read by a new process the same way. The text of PrintKiter is interpreted line by line into an application.")
P("C11", title="Transformations keep what the application means",
  statement="Each command that rewrites a connected, balanced, live application keeps its meaning, also after another analysis ran. RemoveReentrancy only lifts the limit of one firing at a time, on the selected tasks. AddVBuffers adds to every channel its reverse, holding the free places; the application bounded in this way still runs at least at the rate it was sized for. SingleOutput (tasks that fire once per iteration) leaves the task with one output and its copies carry every token to the same readers. Merge replaces tasks by one that performs their firings in an order the channels allow, forever: every phase in turn, no token used before it is produced, the same tokens at the boundary, the rest of the application unchanged and still live.",
  over=["inputs", "schedules", "histories"], qtext="Every application as described, every choice of tasks, every reachable period.",
  why="The tests call one merge on one graph and look only at its return value.",
  files=["src/libkiter/algorithms/transformation/merging.cpp", "src/libkiter/algorithms/transformation/singleOutput.cpp", "src/libkiter/algorithms/transformation/remove_reentrancy.cpp", "src/libkiter/algorithms/buffersizing/periodic_fixed.cpp"],
  mech=[("merging along a schedule", "src/libkiter/algorithms/transformation/merging.cpp: mergeCSDFFromSchedule"), ("virtual buffers", "src/libkiter/algorithms/buffersizing/periodic_fixed.cpp: add_vbuffers"), ("output splitting", "src/libkiter/algorithms/transformation/singleOutput.cpp")],
  observe=["the application printed by PrintXML after the transformation"],
  quick=40000, real=REAL_CLI + ["the four transformations", "K-periodic scheduling and buffer sizing", "XML writer"], assumptions=ENVASSUME,
  rule="A run draws an application and a transformation, asks for the transformed application, reads it with an independent reader and executes it in the discrete-event engine.",
  note="Independent oracle: structural comparison, decoding of merged firings, simulated execution. Bounded sizes.",
  design="The transformed application is printed and read by the harness's own reader. Merge: durations are drawn all different, so each firing of the merged task names the firing it stands for; the engine replays the sequence on the channels between the parts (no token used before it exists, phases in order, same state after a round), compares every boundary rate firing by firing, and runs the merged application for several rounds. AddVBuffers: the bounded application is executed self-timed and must reach 1/PERIOD. SingleOutput: the copies are contracted and must give the original readers and tokens.")
P("C12", title="Commands in one run do not influence each other",
  statement="A run of the program with several analysis, sizing, exploration and printing commands ends with the same exit status and prints the same answers as separate runs of each command on the same application, in the same order: no command inherits numbers, number formats, results or a half-modified application from an earlier one.",
  over=["histories", "inputs"], qtext="Every application and every sequence of the listed commands that succeed alone.",
  why="The tests run one algorithm per process, or a fixed few in a row.",
  files=["src/kiter/main.cpp", "src/libkiter/models/Dataflow.h", "src/libkiter/algorithms/analysis/cycle_detection.cpp", "src/libkiter/algorithms/dse/dse.cpp"],
  mech=[("sequence of commands", "src/kiter/main.cpp"), ("closing and reopening an application", "src/libkiter/models/Dataflow.h: set_read_only, reset_computation")],
  observe=["standard output and exit status of the sequence and of each command alone"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application and a sequence of two to four commands (repetition allowed), and compares one process running all of them with one process per command.",
  note="Differential: the sequence against the commands alone. Only analysis, sizing, exploration and printing commands.",
  design="29 commands with their parameters are drawn into sequences of two to four; every process runs under its own drawn heap layout. The printed text must be the concatenation of the separate texts (timing lines dropped, explored distributions reduced to their Pareto front).")
P("C19", title="Circuits of channels are found, each one once",
  statement="For every connected, balanced application, CycleDetection answers 1 exactly when some channels form a circuit through at least two tasks, and CycleCount lists each such circuit (a closed chain of channels visiting no task twice; parallel channels make different circuits) exactly once and announces their number. The order in which tasks and channels are declared does not matter. Channels from a task to itself are not counted.",
  over=["inputs"], qtext="Every connected, balanced application; every declaration order.",
  why="The tests count the circuits of a few fixed graphs.",
  files=["src/libkiter/algorithms/analysis/cycle_detection.cpp"],
  mech=[("simple circuits", "src/libkiter/algorithms/analysis/cycle_detection.cpp: find_simple_cycles"), ("circuit detection", "src/libkiter/algorithms/analysis/cycle_detection.cpp: has_cycles")],
  observe=["'has_cycles result:' and 'Total number of cycles:' lines and the list of circuits"],
  quick=24000, real=REAL_CLI + ["cycle detection and counting"], assumptions=ENVASSUME,
  rule="A run draws an application (up to 7 tasks and 7 extra channels, parallel channels, shuffled declarations), lists its circuits by exhaustive walk and asks the two real commands under drawn heaps.",
  note="Independent oracle; nothing but the heap, the clock and the declaration order is simulated: there is no concurrency in this property.",
  design="The harness enumerates the circuits of the drawn application with its own walk; both commands answer inside the simulated environment (drawn heap layout and contents, which decide the order of pointer-keyed containers).")
P("C20", title="Packet traces replay the application",
  statement="For every connected, balanced application of at most 16 single-phase tasks without self-loops or parallel channels, SymbolicExecutionWP writes a trace that replays it, for every packet size and number of iterations. Numbers run from 0 and every line waits only for earlier ones. Every task fires exactly as often as the iterations ask, with its own duration, on its own core, in an order the channels allow; each firing is followed by the packets of each output channel, as many as the packet size asks, one waiting for the other. Every firing waits for its task's previous one and, per input channel, for the packet that carries its last token or a later one: however packets are delayed (kept in order between two cores) and cores stall, none starts before its tokens arrived. A blocked application is refused by SymbolicExecutionWP and SymbolicExecution.",
  over=["inputs", "configurations", "schedules"], qtext="Every application as described, every packet size and iteration count, every delay of packets and stall of cores.",
  why="The tests run the command on a few graphs and look at nothing it writes; that a dependency is missing shows only under particular delays.",
  files=["src/libkiter/algorithms/symbolic_execution.cpp"],
  mech=[("packet traces", "src/libkiter/algorithms/symbolic_execution.cpp: symbolic_execution_with_packets"), ("one iteration, untimed", "src/libkiter/algorithms/symbolic_execution.cpp: symbolic_execution")],
  observe=["the printed trace", "exit status"],
  quick=24000, real=REAL_CLI + ["symbolic execution with packets"], assumptions=ENVASSUME + ["packets between two cores arrive in the order of the trace"],
  rule="A run draws an application, live or blocked, a packet size, an iteration count and a delay for every packet and firing, replays the trace on the channels and then on a simulated network with these delays.",
  note="Executable model of channels and packets; the network is a seeded discrete-event simulation.",
  design="The harness reads the trace, attributes every line to a firing or to one packet of one production, and replays it token by token: the needed packet of every firing is computed from rates and initial tokens. Then a network simulation with seeded delays (packets held up, cores stalled) executes the lines by their dependencies alone and checks that no firing begins before all the packets it needs are there.")
P("C06", title="The facts printed about an application are its own",
  statement="For every application, balanced or not, as read, after a transformation or an analysis in the same run, or placed and routed on a mesh: PrintInfos names it and counts its tasks and channels, says exactly when it is not balanced, gives the sums of its phases, rounds and firings, and lists every task (inputs, outputs, total duration, repetition factor, phases, core) and every channel (ends, total rates, initial tokens, route) once and truly. PrintGraph draws exactly those tasks and channels, under the same numbers, with their tokens and rates. Both agree with the document PrintXML prints at that moment.",
  over=["inputs", "histories"], qtext="Every application as described, and every earlier command of the run among transformations, placements and analyses.",
  why="The tests only run these commands on a few files and never compare what they print with the application.",
  files=["src/libkiter/printers/stdout.cpp", "src/libkiter/models/Dataflow.h", "src/libkiter/models/repetition_vector.cpp"],
  mech=[("facts", "src/libkiter/printers/stdout.cpp: printInfos"), ("drawing", "src/libkiter/printers/stdout.cpp: GenerateGraphDOT"), ("repetition vector", "src/libkiter/models/repetition_vector.cpp")],
  observe=["output of PrintInfos and PrintGraph", "the drawing written to a file", "output of PrintXML"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application, balanced or damaged, an earlier command, the order of the printing commands and whether the drawing goes to a file.",
  note="The harness reads the printed document with its own reader, solves the balance equations itself, and compares every field of both tables and every node and arc of the drawing. Seeded search over applications and histories in the simulated process environment.",
  design="One run prints the document, the facts and the drawing in either order, after one earlier command (createNoC with mapping and routing, RemoveReentrancy, Merge, an analysis, PrintInfos). The document is parsed by doc.h; sums, degrees and the repetition vector are recomputed from it (the vector only for connected applications of at least two tasks, where kiter's normalisation is agreed); numbers must be unique and the same in both outputs. What the document itself must say is the business of C10, C11 and C13.")
P("C07", title="Flows that meet in a router are served by one task, in turn",
  statement="For every connected, balanced, live application of single-phase tasks placed and routed on the generated mesh, conflict-free scheduling of the bufferless network leaves no conflict: flows through one router that come in or leave by the same link, directly or through a chain of other flows, end up in one router task, which takes no time, serves exactly one flow per firing and each flow as often as the others relative to the iteration. Every other task and channel, and every router that meets no other flow, is unchanged. The resulting application keeps running for ever, and the schedule drawn for it, where no start-up phases arise, can be executed firing by firing with every token present and no firing of a task overlapping another.",
  over=["inputs", "configurations", "schedules"], qtext="Every application as described, placement, routing and outcome of the random draws.",
  why="No test looks at which flows are merged; which flows meet depends on every pair of routes, and the order in which they are found decides how groups are joined.",
  files=["src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp", "src/libkiter/commons/GroupList.h", "src/libkiter/algorithms/transformation/merging.cpp", "src/libkiter/algorithms/mapping/modelCommunications.cpp", "src/libkiter/printers/stdout.cpp"],
  mech=[("groups of flows", "src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp: get_overlaps; src/libkiter/commons/GroupList.h"), ("merging by schedule", "src/libkiter/algorithms/transformation/merging.cpp")],
  observe=["the documents written for each stage", "the drawn schedule"],
  quick=6000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application, a placement, a routing and the random numbers they consume, reads the documents of the first and last stage, and executes the last one and the drawn schedule.",
  note="Executable model of the flows that meet (closure over shared links); untimed engine for liveness; the drawn schedule is executed token by token. Seeded search over applications, placements and random draws.",
  design="The command writes the application before and after merging into the simulated directory. The harness reads both with its own reader, computes from the router names (channel, incoming link, outgoing link) which flows meet, and requires one task per closed group whose phases (start-up and periodic) move one token of exactly one flow each, in proportion to the flows' repetition factors, and every other task and channel unchanged. The final application then runs in the untimed engine for several rounds of every merged task, and the starts read from the drawing are executed up to time 58 (the drawing stops at 60). Where merged tasks have start-up phases only structure and liveness are checked, because the analyses of start-up phases are known findings of C02 and C03. The external drawing program is not run.")
P("C13", title="Mapping and routing lead every channel along a true shortest path",
  statement="For every connected, balanced, live application of single-phase tasks placed on the generated mesh network (modulo or random mapping, cores given by the user kept; xy or random routing; or the combined map-and-route command, one core per task), modelling the communications replaces every channel between two tasks by one chain of link and router tasks along an existing, contiguous, shortest route from the producer's core to the consumer's core (xy: first along the row), each task sitting on one core. Tasks, rates, initial tokens and self-loops are kept, nothing is added or lost. The network only delays: the application stays live, never runs faster, and is analysed at the rate it then runs at. The printed mapping shows the same cores, links and routes.",
  over=["inputs", "configurations", "schedules"], qtext="Every application as described, every mesh size, mapping, routing and outcome of the random draws.",
  why="The tests look at one or two fixed applications and only at whether a throughput is printed; routes depend on every pair of cores and on random draws.",
  files=["src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp", "src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h", "src/libkiter/models/NoCGraph.cpp", "src/libkiter/algorithms/mapping/createNoC.cpp", "src/libkiter/algorithms/mapping/moduloMapping.cpp", "src/libkiter/algorithms/mapping/randomMapping.cpp", "src/libkiter/algorithms/mapping/xyRouting.cpp", "src/libkiter/algorithms/mapping/randomRouting.cpp", "src/libkiter/algorithms/mapping/modelCommunications.cpp", "src/libkiter/models/NoC.cpp", "src/libkiter/models/NoC.h", "src/libkiter/printers/stdout.cpp"],
  mech=[("mesh and routes", "src/libkiter/models/NoC.cpp, src/libkiter/algorithms/mapping"), ("communication model", "src/libkiter/algorithms/mapping/modelCommunications.cpp"), ("picture", "src/libkiter/printers/stdout.cpp: GenerateNoCDOT")],
  observe=["the printed application", "the printed mapping", "reported throughput"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application, a mapping, a routing and the random numbers they consume, and executes the modelled application.",
  note="Executable model of the mesh and of the chains; the modelled application runs in the discrete-event engine. Seeded search over applications, placements and random draws.",
  design="The random numbers that randomMapping and randomRouting consume come from the simulator. The harness reads the printed application, walks every chain from its producer, checks links against its own mesh (routers 0..S-1, cores S..2S-1, ids derived from the ends), contiguity, length (Manhattan distance + 2), row-first order for xy, one core per task, rates, tokens, durations and exhaustiveness; rebuilds the application with its links as an executable graph (routers take no time) and runs it for liveness, for the rate against the unmapped application and against the K-periodic answer. PrintMapping pictures are parsed for task positions, links and the number of channels per link.")
P("C14", title="A drawn application keeps to its request, is live, and follows its seed",
  statement="For every request to the random application generator (ranges for tasks and channels, greatest weight, duration, numbers of phases, seed), the drawn application keeps to it: numbers of tasks and channels, phases and durations in range, no self-loops, rates and tokens that are not negative, as many tokens per channel and start-up as the weight allows. Its rates balance and, when no start-up phases are asked for, every task can fire forever. The same request always draws the same application, wherever memory is placed and whatever the clock says. One task with channels is refused. The LTE generator builds its four layers with the numbers of workers asked for, each worker linked once to all of the next layer, with the layer's duration and packets.",
  over=["inputs", "configurations"], qtext="Every request in the ranges of the generator, every seed, every heap layout and clock.",
  why="The tests draw a few applications with fixed settings and look at none of their properties; liveness concerns every firing order and the seed every environment.",
  files=["src/libkiter/generators/RandomGenerator.cpp", "src/libkiter/generators/LTEGeneator.cpp", "src/libkiter/models/Dataflow.h", "src/libkiter/algorithms/throughput/kperiodic.cpp"],
  mech=[("generator", "src/libkiter/generators/RandomGenerator.cpp: generate, set_initial_marking"), ("order of edges", "src/libkiter/models/Dataflow.h: operator<")],
  observe=["the printed application", "exit status"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws a request, has it served twice in two drawn environments, and executes the drawn application.",
  note="Executable model of the request; the drawn application runs in the untimed engine (three iterations); differential between environments. Seeded search over requests, seeds and environments.",
  design="The request is drawn (1-9 tasks, 0-11 channels, weights 1-6, durations to 1000, 1-4 phases, 0-3 start-up phases, any order of parameters) and served twice in two drawn environments: the documents must be identical. The document is read by the harness's own reader and compared with the request; a balance solver of the harness finds the firings per iteration, and the untimed engine must complete three iterations from the drawn tokens. Applications with start-up phases may block (known finding).")
P("C15", title="A damaged or unreadable input is refused, never analysed in part",
  statement="When the document of an application cannot be read whole (opening fails, reading fails part way, the file was cut by a crash while it was being saved, a block was lost), every command either still gives exactly the answer for the whole application or ends with a non-zero exit status; it never answers for a part of the application and never dies of an invalid memory access. A document that merely arrives in small pieces gets its normal answer.",
  over=["fault_sequences", "crash_points", "inputs"], qtext="Every application, every command, every read fault position, every crash point of an earlier save.",
  why="The tests read intact local files only.",
  files=["src/libkiter/printers/SDF3Wrapper.cpp", "src/kiter/main.cpp"],
  mech=[("document reader", "src/libkiter/printers/SDF3Wrapper.cpp: readSDF3File, wrapSDF3Dataflow"), ("front end", "src/kiter/main.cpp")],
  observe=["standard output and exit status of each command"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application, a command and one fault plan for its input, and compares the outcome with that of the fault-free execution.",
  note="Differential against the fault-free execution in the same environment; seeded search over fault positions.",
  design="Reads of the document return short counts (1 byte and up), EIO at a drawn call (lasting or once), early end at a drawn byte, EINTR; opens fail with four errors. In the crash scenario the program itself saves the document, only a drawn prefix (or a prefix ending in a lost, zero-filled block) is durable, and a restarted process reads it. Oracle: non-zero exit, or the answer of the fault-free run.")
P("C16", title="Success is reported only when every result was written",
  statement="A command that ends with exit status zero has written its whole answer: everything it prints reached standard output, and every file it was asked to write (printed documents and graphs, mappings, exploration logs and front) is complete. When a disk is full, when opening, writing, closing or renaming a file fails (for good or once), when a directory cannot be made or stands where the file should be, or when standard output fails, it ends with a non-zero exit status unless the answer is complete all the same. Short or interrupted writes lose nothing, and nothing of an earlier result is left in a file.",
  over=["fault_sequences", "inputs"], qtext="Every application, every command that prints or saves, every position of the failing write.",
  why="The tests never make a write fail.",
  files=["src/kiter/main.cpp", "src/libkiter/printers/SDF3Wrapper.cpp", "src/libkiter/printers/stdout.cpp", "src/libkiter/algorithms/dse/dse.cpp", "src/libkiter/algorithms/dse/periodic.cpp", "src/libkiter/algorithms/dse/buffer_sizing.cpp"],
  mech=[("end of the program", "src/kiter/main.cpp"), ("result files", "src/libkiter/printers/stdout.cpp, src/libkiter/printers/SDF3Wrapper.cpp, src/libkiter/algorithms/dse")],
  observe=["bytes accepted by standard output", "files left in the scratch directory", "exit status"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application, a command that prints or saves and one fault plan for its output, and compares what is durable with the fault-free execution.",
  note="Differential against the fault-free execution in the same environment; seeded search over fault positions.",
  design="Standard output accepts only a drawn number of bytes or fails at a drawn call; files meet ENOSPC at a drawn byte, EIO at a drawn call (lasting or once), a disk full for one moment, failing opens, closes, renamings and directories, a directory in the file's place, longer results of an earlier run, short writes and EINTR. Oracle: exit zero implies byte-identical durable output; short and interrupted writes must succeed.")
P("C17", title="An answer depends on the application and the request only",
  statement="For every connected, balanced, live application with at least one channel and every request (analysis, schedule, sizing, exploration, transformation, print, mapping and routing), the outcome and the answer depend on nothing else: not on where memory is placed or what it held before, nor on clocks that stand still, jump or run backwards. Measured durations aside, the same request always gets the same answer.",
  over=["schedules", "configurations", "inputs"], qtext="Every application as described, every request, every heap layout, fresh-memory content and clock behaviour.",
  why="Tests run in one process environment; uninitialised values and address-dependent choices show up in another.",
  files=["src/libkiter/models/Dataflow.h", "src/libkiter/models/EventGraph.cpp", "src/libkiter/algorithms/throughput/kperiodic.cpp", "src/libkiter/algorithms/throughput/symbolic_execution.cpp", "src/libkiter/algorithms/dse/dse.cpp", "src/libkiter/commons/commons.h"],
  mech=[("containers keyed by edges and vertices", "src/libkiter/models"), ("every analysis", "src/libkiter/algorithms")],
  observe=["standard output and exit status of each command"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application and a request and executes it in two environments: a plain one and a drawn one.",
  note="Differential between environments; seeded search over layouts, contents and clocks.",
  design="The same request runs with an ascending zero-filled heap and steady clocks, and with a drawn heap (descending, shuffled or never reused addresses; fresh memory 0x00, 0xAA, 0xFF or pseudo-random; freed memory poisoned), a dirty stack and a drawn clock. Outcome and answer must be equal. Exploration rows are compared whole and in order, without their two duration columns. In a quarter of all drawn environments (of every property) one heap block in 64, 16, 4 or 1 is guarded: it ends where mapped memory ends and is unmapped when freed, so reading behind it or after its release ends the run.")
P("C18", title="Running out of memory never yields a wrong answer",
  statement="For every application and every command, when an allocation fails (once or from then on) the command either still gives exactly its normal answer or ends with a non-zero exit status or a signal; it never ends with exit status zero and an altered, truncated or empty answer.",
  over=["fault_sequences", "inputs"], qtext="Every application, every command, every allocation of its execution.",
  why="The tests never make an allocation fail.",
  files=["src/kiter/main.cpp", "src/libkiter/printers/SDF3Wrapper.cpp", "src/libkiter/printers/stdout.cpp", "src/libkiter/commons/commons.h", "src/libkiter/algorithms/throughput/kperiodic.cpp"],
  mech=[("new handler and libxml2 allocator", "src/kiter/main.cpp, src/libkiter/printers/SDF3Wrapper.cpp"), ("catch-all handlers", "src/libkiter/algorithms")],
  observe=["standard output and exit status of each command"],
  quick=24000, real=REAL_CLI + [CMDS], assumptions=ENVASSUME,
  rule="A run draws an application and a request, counts the allocations of the fault-free execution, and repeats it four times with a drawn allocation failing.",
  note="Differential against the fault-free execution; seeded search over failing allocations.",
  design="The in-harness allocator refuses a drawn allocation (uniform over the execution; once or for ever; optionally only blocks above a drawn size). Oracle: exit zero implies the fault-free answer.")
