prop('C01', 'Translating LLVM IR to RVSDG and back preserves program behaviour',
     'For every supported LLVM module, converting it into the region-based representation and back without any optimization yields a '
     'module whose execution makes exactly the same observable events in the same order (external calls with their arguments and '
     'memory contents, volatile accesses, output, exit status) and returns the same result. This holds for arbitrary control flow, '
     'including irreducible, endless and deeply nested loops, switches, recursion, indirect calls and mutually recursive globals.',
     ['programs', 'inputs'], 'every supported LLVM module and every input of it',
     'The unit tests convert a few dozen hand-built functions and mostly compare shapes of the result; they execute none of them. The '
     'space of control-flow graphs and SSA forms is unbounded.',
     ['jlm/llvm/frontend/LlvmModuleConversion.cpp', 'jlm/llvm/frontend/LlvmInstructionConversion.cpp',
      'jlm/llvm/frontend/ControlFlowRestructuring.cpp', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp',
      'jlm/llvm/backend/RvsdgToIpGraphConverter.cpp', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp', 'jlm/llvm/ir/ssa.cpp'],
     [('control-flow restructuring', 'jlm/llvm/frontend/ControlFlowRestructuring.cpp'),
      ('construction from annotated control-flow tree', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp'),
      ('SSA destruction and construction', 'jlm/llvm/ir/ssa.cpp')],
     'differential runtime monitoring: event traces of original vs round-tripped program under LLVM JIT',
     'Every generated, corpus and C program is executed before and after the round trip with traced externals; complete event logs must '
     'agree. Trusts LLVM (parser, verifier, JIT). Bounded by the programs generated.',
     observe=['calls to external functions, volatile accesses and final memory of the executed programs'])

prop('C02', 'Every optimization and every sequence of them preserves program behaviour',
     'For every supported program, any optimization the optimizer offers, alone, in any order and repetition, or as the compiler\'s -O3 '
     'pipeline, neither fails nor changes the observable events of the program, their order, or its result. Loops without side effects '
     'may disappear, everything else observable stays.',
     ['programs', 'configurations', 'inputs'], 'every supported program, every finite sequence of passes, every input',
     'Each pass has unit tests on a handful of small graphs that check for an expected shape; no test runs a program through random pass '
     'sequences and executes it, and pass interactions are combinatorial.',
     ['jlm/llvm/opt', 'jlm/llvm/opt/alias-analyses', 'jlm/llvm/ir/operators', 'jlm/rvsdg'],
     [('the 19 transformations', 'jlm/llvm/opt'), ('memory state encoding', 'jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp'),
      ('-O3 pipeline', 'jlm/tooling/CommandLine.cpp')],
     'differential runtime monitoring: event traces before vs after random pass sequences',
     'Random programs x single passes, structured random pass sequences and -O3; complete event logs of original and optimized program '
     'must agree, no crash, no hang, valid IR. Programs hide extensions from loop strength reduction (known finding).',
     observe=['calls to external functions, volatile accesses and final memory of the executed programs'])

prop('C03', 'Every graph the compiler works on is a well-formed RVSDG',
     'After construction and after every optimization, in any order, the graph satisfies the definition of the representation: regions are '
     'acyclic and closed, every edge links a user and an origin of the same type in the same region, user lists, indices, region and '
     'node ids, top and bottom nodes and counts are exact, the ends of loop, entry, exit, context and fix variables belong together, '
     'predicates fit the alternatives, both traversers visit every node exactly once in dependency order, and copying a '
     'graph gives an isomorphic graph and leaves the original unchanged.',
     ['programs', 'configurations'], 'every supported program and every finite sequence of passes',
     'Unit tests assert shapes of particular results; nothing checks the invariants of the data structure on the graphs that real '
     'programs and pass sequences produce.',
     ['jlm/rvsdg/region.cpp', 'jlm/rvsdg/node.cpp', 'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/Phi.cpp',
      'jlm/rvsdg/lambda.cpp', 'jlm/rvsdg/delta.cpp', 'jlm/rvsdg/graph.cpp', 'jlm/rvsdg/traverser.cpp', 'jlm/llvm/opt'],
     [('region bookkeeping', 'jlm/rvsdg/region.cpp'), ('structural nodes', 'jlm/rvsdg/gamma.cpp'),
      ('traversers', 'jlm/rvsdg/traverser.cpp'), ('copies', 'jlm/rvsdg/Phi.cpp')],
     'invariant monitor on hooked state: full graph checker after construction and every pass',
     'An independent checker walks every region after construction and after every pass of random sequences, on generated, corpus and C '
     'programs; copies are checked by an isomorphism matcher. Bounded by the programs and sequences generated.',
     observe=['the graph after every stage'])

prop('C04', 'The output module is valid and keeps the interface of the input module',
     'Whatever passes ran, the output is valid LLVM IR with the data layout, target triple and source name of the input; every definition '
     'the linker may need is still defined, every symbol keeps its type, linkage, calling convention, constant flag, section, at least '
     'its alignment, its initial contents and (definitions) its function and parameter attributes, and no new visible symbol appears. Without '
     'optimizations, each function keeps its stores, allocations, calls with their attributes, and volatile accesses, '
     'with types and alignments. The sizes, alignments and field offsets assumed for types are those of the data layout.',
     ['programs', 'configurations'], 'every supported module and pass sequence; every type',
     'Unit tests look at a few attributes and types; symbol properties interact with every pass and with module order.',
     ['jlm/llvm/frontend/LlvmModuleConversion.cpp', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp',
      'jlm/llvm/backend/RvsdgToIpGraphConverter.cpp', 'jlm/llvm/ir/types.cpp', 'jlm/llvm/ir/TypeConverter.cpp'],
     [('symbols in', 'jlm/llvm/frontend/LlvmModuleConversion.cpp'), ('symbols out', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp'),
      ('type layout', 'jlm/llvm/ir/types.cpp')],
     'runtime monitor comparing input and output modules symbol by symbol; type layout against the LLVM DataLayout',
     'Generated, corpus and C modules, decorated with random attributes, conventions, sections, alignments and linkages. Attributes of '
     'declarations and return attributes of definitions are outside the contract (jlm documents them as unsupported).',
     observe=['the output module'])

prop('C05', 'The points-to analysis covers every pointer value that can occur',
     'After analysing a program, the points-to graph gives every pointer value of the program a set of memory objects that contains each '
     'object the value points into in any execution, whatever escapes to or comes back from external code. All configurations of the '
     'constraint solver (worklist or naive, any policy, online and offline techniques, constraint graph or normalized sets) compute the '
     'same points-to graph.',
     ['programs', 'inputs', 'configurations'], 'every supported program, every execution, every solver configuration',
     'Unit tests compare the graphs of small programs with expected graphs; soundness is a statement about executions, and no test '
     'executes an analysed program.',
     ['jlm/llvm/opt/alias-analyses/Andersen.cpp', 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp',
      'jlm/llvm/opt/alias-analyses/PointsToGraph.cpp'],
     [('constraint generation', 'jlm/llvm/opt/alias-analyses/Andersen.cpp'), ('solver', 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp'),
      ('result', 'jlm/llvm/opt/alias-analyses/PointsToGraph.cpp')],
     'runtime monitoring of instrumented programs: observed pointer values vs the points-to graph',
     'The analysed graph is instrumented with calls that report every pointer value and every object; it runs in the JIT and each observed '
     'pointer into an object must be in the points-to set. 8 solver configurations per program must agree. Bounded by what is executed.',
     observe=['pointer values of the instrumented program at every definition'])

prop('C06', 'The graph orders side effects by itself: every topological order works',
     'After any sequence of optimizations, including those that encode memory states precisely and reorder or remove accesses, every '
     'order of the nodes of each region that respects the edges of the graph gives a program with the same observable behaviour: '
     'the state edges alone keep every two operations apart that must not be exchanged.',
     ['programs', 'schedules', 'inputs'], 'every supported program, pass sequence, and topological order of every region',
     'The order chosen by the one traverser hides missing state edges from all tests and even from end-to-end execution.',
     ['jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp', 'jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp',
      'jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp',
      'jlm/llvm/opt/LoadChainSeparation.cpp', 'jlm/llvm/opt/IOBarrierElimination.cpp'],
     [('memory state encoding', 'jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp'),
      ('mod/ref summaries', 'jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp'),
      ('traversal order', 'jlm/rvsdg/traverser.cpp')],
     'differential runtime monitoring with randomized schedules of the graph traversal (hooked)',
     'A hook picks which ready node the backend emits next (random, or as late as possible); complete event logs of original and '
     'result must agree for several orders per program. Bounded by programs and orders tried.',
     observe=['calls to external functions, volatile accesses and final memory'])

prop('C07', 'Alias analysis answers are true of every execution',
     'When an alias analysis answers that two accesses never overlap, no execution of the region that encloses both makes them touch a '
     'common byte; when it answers that they must alias, their addresses are equal whenever both are executed. This '
     'holds for the local analysis with any tracing limit, the one based on points-to graphs, and their combinations, and the answers '
     'do not depend on the order of the two accesses.',
     ['programs', 'inputs', 'configurations'], 'every pair of accesses of every supported program, every execution',
     'Unit tests query a few pairs of pointers in small graphs; wrong answers only show if an optimization happens to use them.',
     ['jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp', 'jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.cpp',
      'jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp'],
     [('local tracing', 'jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp'),
      ('points-to sets', 'jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.cpp')],
     'runtime monitoring of instrumented programs: addresses of executed accesses vs alias claims',
     'All pairs (up to 1500 per function) of loads and stores are queried in four analyses; the instrumented program reports the address '
     'of every access with the execution of its region, and every claim is judged on every pair of executions it covers.',
     observe=['addresses of loads and stores of the instrumented program'])

prop('C08', 'Chain recurrences describe the values of loop variables exactly',
     'For every loop value for which scalar evolution reports a known recurrence, its value in iteration n of every execution of the loop is '
     'the value of the recurrence at n in the arithmetic of its type, with the initial values the loop was entered with, '
     'also across nested loops and for products and higher orders.',
     ['programs', 'inputs'], 'every value of every loop of every supported program, every iteration',
     'Unit tests compare the textual form of recurrences of small loops; none evaluates a recurrence or executes a loop.',
     ['jlm/llvm/opt/ScalarEvolution.cpp', 'jlm/llvm/opt/ScalarEvolution.hpp'],
     [('recurrences', 'jlm/llvm/opt/ScalarEvolution.cpp'), ('combination across loops', 'jlm/llvm/opt/ScalarEvolution.cpp')],
     'runtime monitoring of instrumented programs: observed values of every iteration vs the recurrence',
     'The instrumented program reports the values of all outputs with a recurrence and of the initial values in each iteration; an '
     'evaluator of recurrences (mod 2^64) predicts them. Loops that extend integers are excluded (known finding).',
     observe=['values of loop variables in every iteration of the instrumented program'])

prop('C09', 'Integer values are computed and folded as fixed-width two\'s complement',
     'For every width and all values, arithmetic, bitwise, shift, comparison, extension, slicing and concatenation of bit strings and '
     'their conversions give the result of fixed-width two\'s complement arithmetic; bits reported as known are right whatever the unknown '
     'ones are. Folding an integer or bit operation with constant operands gives that result in the region of the operation and never '
     'fails, and every normalization of graphs of bit operations (folding, reassociation, flattening, slices and concatenations) keeps '
     'the value of every output.',
     ['inputs', 'programs'], 'all widths, all operand values, all graphs of bit operations',
     'Unit tests check a few operand values per operation at fixed widths.',
     ['jlm/rvsdg/bitstring', 'jlm/rvsdg/binary.cpp', 'jlm/rvsdg/unary.cpp', 'jlm/rvsdg/reduction-helpers.hpp', 'jlm/rvsdg/control.cpp',
      'jlm/llvm/ir/operators/IntegerOperations.cpp'],
     [('bit strings', 'jlm/rvsdg/bitstring/value-representation.hpp'), ('normalizations', 'jlm/rvsdg/bitstring/bitoperation-classes.cpp'),
      ('integer folding', 'jlm/llvm/ir/operators/IntegerOperations.cpp')],
     'runtime oracle: every operation executed on random operands and compared with LLVM APInt; graphs evaluated around every rewrite',
     'Operands are random and boundary values of widths 1 to 140; graphs of up to some 60 nodes with conditionals. Bounded by the values tried.',
     observe=['results of operations', 'values of graph outputs before and after each normalization'])

prop('C10', 'Containers and graph algorithms behave like their mathematical models',
     'For every history of operations, the hash set, bijective map, disjoint set, worklists (LIFO, FIFO, two-phase and topological), '
     'intrusive list and hash, annotation map and iterator ranges give exactly the answers of the set, map, partition, queue or sequence '
     'they stand for, iteration visits each member exactly once, and no operation disturbs other elements. Strongly connected components '
     'are those of the graph, in topological order. The helpers for powers of two, logarithms and alignment are exact for all arguments.',
     ['inputs', 'histories'], 'all histories of operations, all graphs, all arguments',
     'Unit tests go through a handful of fixed operation sequences; errors depend on the history (growth, erasure while iterating, '
     'merging classes, popping between pushes).',
     ['jlm/util'],
     [('sets and maps', 'jlm/util/HashSet.hpp'), ('disjoint sets', 'jlm/util/disjointset.hpp'), ('worklists', 'jlm/util/Worklist.hpp'),
      ('intrusive containers', 'jlm/util/intrusive-list.hpp'), ('components', 'jlm/util/TarjanScc.hpp')],
     'model-based runtime monitoring: random histories compared with reference models after every operation, also under sanitizers',
     'Histories of up to some hundred operations per container and graphs of up to some 60 nodes, many small ones; answers, iteration '
     'order where defined and full contents compared with models built from the C++ standard library. Bounded by the histories tried.',
     observe=['answers and contents of the containers after every operation'])

prop('C11', 'Graph changes do what they say; observers and traversers stay in step',
     'Creating, copying, removing and pruning nodes, moving edges and users, and adding and removing entry, exit, loop, context and fix '
     'variables, arguments and results, in any order, change exactly the edges and nodes they are meant to change and leave a '
     'well-formed graph. Observers of a region are told of each of its new, changed and removed nodes and edges exactly once. A traverser '
     'that is running while its region changes visits every node that existed at its start and still exists exactly once, '
     'no node that was created later, and never a node before its operands (top-down) or users (bottom-up) among these nodes.',
     ['histories'], 'all histories of changes and traversals within the documented preconditions',
     'Unit tests make a few changes in a fixed order; the bookkeeping of users, indices, top and bottom nodes and of traversals '
     'depends on the whole history.',
     ['jlm/rvsdg/region.cpp', 'jlm/rvsdg/node.cpp', 'jlm/rvsdg/node.hpp', 'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/Phi.cpp',
      'jlm/rvsdg/lambda.cpp', 'jlm/rvsdg/delta.cpp', 'jlm/rvsdg/structural-node.cpp', 'jlm/rvsdg/simple-node.cpp', 'jlm/rvsdg/traverser.cpp'],
     [('edges', 'jlm/rvsdg/node.cpp'), ('regions', 'jlm/rvsdg/region.cpp'), ('traversers', 'jlm/rvsdg/traverser.cpp')],
     'runtime monitoring of random histories: edge predictions, invariant monitor, observers as online checkers, also under sanitizers',
     'Random histories of 20 to 80 changes with up to 40 changes during each traversal; a snapshot of all edges before each change predicts the '
     'edges after it, the structural monitor checks everything else, watchers keep their own picture of regions. Bounded by the histories.',
     observe=['all edges and nodes before and after each change', 'events sent to observers', 'nodes visited by traversers'])

prop('C14', 'The compiler has no memory errors and no undefined behaviour',
     'Reading, converting, optimizing with any pass sequence and writing back any supported program performs no out-of-bounds or '
     'use-after-free access, no undefined arithmetic, no null or misaligned access, fails no internal assertion, throws no uncaught '
     'exception and terminates.',
     ['programs', 'configurations'], 'every supported module and every finite sequence of passes',
     'The unit tests run without sanitizers on small graphs; use-after-free in graph mutations depends on the history of the graph.',
     ['jlm/rvsdg', 'jlm/llvm', 'jlm/util'],
     [('graph mutation', 'jlm/rvsdg/region.cpp'), ('passes', 'jlm/llvm/opt')],
     'AddressSanitizer and UndefinedBehaviorSanitizer with jlm assertions over generated programs and random pass sequences',
     'The whole compiler is built with ASan and UBSan (all of undefined except vptr) and JLM_ENABLE_ASSERTS and run on generated, corpus and '
     'C programs with random pass sequences. No claim about uninitialised reads or leaks.',
     observe=['every memory access and arithmetic operation of the compiler'])

prop('C12', 'The compiler driver builds what the command line asks for',
     'For every set of sources, objects, libraries and options, jlc succeeds exactly if the equivalent clang commands succeed, and the '
     'program, objects and dependency files it leaves behind behave like theirs: every macro, include path, language standard, flag, '
     'warning, library and library path is passed on, in its order; objects take their place among the files to link; nothing but the '
     'outputs is written; exactly the passes asked for (or those of -O3) optimize each file, in order. The commands printed by -### do the '
     'same. jlm-opt runs exactly the passes it is given, in order, writes the same result to a file as to stdout in every format, dumps '
     'and counts what was demanded and nothing else, and both tools fail with a non-zero status whenever an input, option or output is bad.',
     ['configurations', 'programs', 'fault_sequences'], 'all command lines, file names and projects',
     'The tests compare a few generated command strings; nothing runs the driver, and quoting, order and lost options show only when it runs.',
     ['jlm/tooling/CommandLine.cpp', 'jlm/tooling/Command.cpp', 'jlm/tooling/CommandGraph.cpp', 'jlm/tooling/CommandGraphGenerator.cpp',
      'jlm/util/file.hpp', 'jlm/util/Statistics.cpp', 'jlm/rvsdg/Transformation.cpp', 'tools/jlc/jlc.cpp', 'tools/jlm-opt/jlm-opt.cpp'],
     [('command lines', 'jlm/tooling/CommandLine.cpp'), ('commands', 'jlm/tooling/Command.cpp'),
      ('command graph', 'jlm/tooling/CommandGraph.cpp'), ('pass sequence', 'jlm/rvsdg/Transformation.cpp')],
     'runtime monitoring of the tools from outside: random projects and command lines, differential against clang in a twin directory, '
     'monitors over exit status, files written, program output, statistics logs and graph dumps, with injected output faults',
     'Random C projects with hostile file names, macros, include orders, standards, flags, libraries, weak symbols and prebuilt objects; '
     'random jlm-opt pass sequences, formats, statistics and faults (/dev/full, missing directories, bad inputs). Options jlc documents but '
     'ignores (-g) and default dependency file names are not judged.',
     observe=['exit status, files and output of every run', 'output of the programs that were built', 'statistics logs and graph dumps'])

prop('C13', 'High-level synthesis preserves behaviour',
     'For every kernel that jlm-hls accepts: splitting it off its module gives two modules that link and run like the original; the '
     'reference kernel with memory tracing behaves like the original; and the circuit of buffers, forks, muxes, branches, queues, loads '
     'and stores that the HLS pipeline produces returns the same results, leaves the same memory behind and takes and returns exactly one '
     'token per argument and result, for every number of calls and every latency of the memories, without deadlock.',
     ['programs', 'inputs', 'schedules'], 'every kernel within the supported subset, every input, every memory latency and handshake order',
     'Unit tests check single passes for the nodes they contain; no test executes a circuit. Wrong orders of memory accesses, lost tokens and '
     'deadlocks show only when a whole circuit runs.',
     ['jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp', 'jlm/hls/backend/rvsdg2rhls/GammaConversion.cpp', 'jlm/hls/backend/rvsdg2rhls/ThetaConversion.cpp',
      'jlm/hls/backend/rvsdg2rhls/mem-sep.cpp', 'jlm/hls/backend/rvsdg2rhls/mem-queue.cpp', 'jlm/hls/backend/rvsdg2rhls/mem-conv.cpp',
      'jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp', 'jlm/hls/backend/rvsdg2rhls/add-buffers.cpp',
      'jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp', 'jlm/hls/backend/rvsdg2rhls/instrument-ref.cpp', 'jlm/hls/ir/hls.hpp'],
     [('pipeline', 'jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp'), ('memory', 'jlm/hls/backend/rvsdg2rhls/mem-conv.cpp'),
      ('components', 'jlm/hls/ir/hls.hpp')],
     'runtime monitoring: execution of the circuit in a cycle simulator of its components with random memory latencies, compared with the JIT',
     'Random kernels; the circuit is executed token by token with random latencies and several calls, and compared with the native execution '
     '(results, memory, tokens). A part of the cases runs under sanitizers. Bounded by generated kernels; the FIRRTL text itself is out of '
     'reach (no CIRCT). Known findings: a kernel that returns an argument unchanged, local arrays, two buffer sizing defects.',
     observe=['every token that passes a component, every memory access of the circuit, every result'])

na('C90', 'Translating RVSDG to MLIR and back preserves the graph',
   'Converting a module to the MLIR dialect and back yields an equivalent module.', ['programs'], 'every module',
   'Conversion tests sample a few operations.', ['jlm/mlir/frontend/MlirToJlmConverter.cpp', 'jlm/mlir/backend/JlmToMlirConverter.cpp'],
   'jlm/mlir needs MLIR and the jlm-specific dialect library, which are not installed here: the code cannot be compiled, so nothing can be executed and monitored.')
na('C91', 'Generated hardware descriptions behave like the dataflow graph',
   'The FIRRTL/Verilog emitted for a high-level-synthesis kernel behaves like the kernel.', ['programs', 'inputs', 'schedules'],
   'every kernel, input and stall pattern', 'Backend tests compare text fragments.', ['jlm/hls/backend/rhls2firrtl/RhlsToFirrtlConverter.cpp'],
   'The FIRRTL backend needs CIRCT, and its output a FIRRTL compiler and Verilator; none is installed, so this code cannot be compiled or run here.')
