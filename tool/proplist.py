SUM = 'function summaries (dataflow / value numbering over the typed AST), compared with requirement terms'
TB = 'Sound for the code it can summarise (paths are joined, not sampled); parts the summariser does not understand are reported as undecided in the evidence and never as violations. Trusts the clang front end, the fact exporter, the library models and the requirement tables. '
IN, HI, CO = 'inputs', 'histories', 'configurations'

p('C01', 'Dynamic bit sets behave like bit sequences of exactly their size',
  'A dynamically sized bit set holds exactly its number of bits: construction, element access, growing, setting, clearing, flipping, the bitwise operators, counting, comparison and text output act bit by bit on positions below the size and on nothing else. Two sets are equal exactly when their sizes and all their bits are equal, whatever operations produced them.',
  [IN, HI], 'all sizes (including ones that are no multiple of the block width), all bit positions, all operation sequences, every block width instantiated',
  'The tests use a handful of sizes and values; unused bits of the last block only matter for particular combinations of size and operation sequence.',
  ['util/dynamic_bitset.h'], [('class template dynamic_bitset', B + 'util/dynamic_bitset.h')], SUM,
  TB + 'Sizes are bounded by 40 to 60 bits only inside the numeric refutation step; the symbolic comparison has no bound.',
  [('blocks', 'bits stored in fixed width blocks, last block masked')])
p('C02', 'Sub bit sets behave like bit sequences of their current size',
  'A bit set of limited capacity behaves as a sequence of exactly its current number of bits for construction, access, growing, clearing, bitwise operators, shifts, counting, comparison and conversion. Positions at or beyond the current size never influence a result.',
  [IN, HI], 'all current sizes up to the capacity, all values, all operation sequences',
  'No test of the stable suite exercises this class.', ['util/sub_bitset.h'], [('class template sub_bitset', B + 'util/sub_bitset.h')], SUM, TB)
p('C03', 'Transition counts are exact for every pair of bus values',
  'The number of rising transitions between two bus values is the number of positions that are zero in the first and one in the second; falling transitions are the converse and changes are their sum. The number of ones of a value is the number of its set bits.',
  [IN], 'all pairs of values of every width used', 'Tests sample a few pairs of values.', ['util/binary_ops.h'],
  [('BinaryOps', B + 'util/binary_ops.h')], SUM, TB)
p('C04', 'Interval counters accumulate exactly the closed intervals plus the open one',
  'An interval counter reports, at any time, the sum of the lengths of all completed intervals plus the elapsed part of the currently open interval. Starting, closing and resetting change it by exactly the corresponding interval.',
  [IN, HI], 'all sequences of start and close events and all query times', 'Tests cover five short sequences.', ['util/cycle_stats.h'],
  [('interval_counter', B + 'util/cycle_stats.h')], SUM, TB)
p('C05', 'Command names and commands map to each other without loss',
  'Every command has its own name and reading that name gives the command back; a text that is no command name is read as the no-operation command. Exactly the four read and write commands are commands with data.',
  [IN], 'every command, every text', 'No stable test covers the tables; a wrong or missing entry only shows for one command.', ['command/CmdType.h'],
  [('from_string', B + 'command/CmdType.h'), ('to_string', B + 'command/CmdType.h'), ('needs_data', B + 'command/CmdType.h')], 'symbolic evaluation of the conversion functions per enumerator', TB + 'Texts that are no names are represented by a list of near misses.')
p('C06', 'Commands and coordinates carry exactly the values they were built from',
  'Constructing a command or an address coordinate stores every given value in its own component and gives every unspecified component a defined default. Converting a generic command to an LPDDR6 command keeps all components and derives the second bank of a dual bank refresh as the bank eight further, modulo sixteen.',
  [IN], 'all argument values and all constructors', 'No stable test constructs commands; swapped components only show in energies of particular traces.',
  ['command/Command.h', 'command/Command.cpp', 'standards/lpddr6/LPDDR6Command.h', 'standards/lpddr6/LPDDR6Command.cpp'],
  [('constructors', B + 'command/Command.cpp'), ('constructors', B + 'standards/lpddr6/LPDDR6Command.cpp')], SUM, TB)
p('C07', 'The default command encoder emits the right bit for every descriptor',
  'For every command pattern, address, override table and previously sent pattern, each position of the encoded pattern carries the constant, address bit or override its descriptor stands for, the first descriptor being the most significant bit. Positions outside the pattern are zero.',
  [IN, CO], 'all patterns, addresses, override tables and previous patterns', 'No stable test calls the encoder; each descriptor is a separate case.',
  ['command/Pattern.cpp', 'command/Pattern.h'], [('DefaultEncoder::encode', B + 'command/Pattern.cpp'), ('patternApplyBitSpec', B + 'command/Pattern.h')], SUM, TB + 'Patterns of at most 63 entries.')
p('C08', 'The LPDDR6 command encoder emits the right bit for every descriptor',
  'For every LPDDR6 command pattern, address and mode, each position carries the constant, address bit, burst length or sub channel bit its descriptor stands for. In parity mode the parity position makes the number of ones even and no other position changes.',
  [IN, CO], 'all patterns, addresses, burst lengths, parity modes', 'No stable test calls the encoder.',
  ['standards/lpddr6/LPDDR6Pattern.cpp', 'standards/lpddr6/LPDDR6Pattern.h'], [('LPDDR6Encoder::encode', B + 'standards/lpddr6/LPDDR6Pattern.cpp')], SUM, TB + 'Patterns of 3 to 63 entries.')
p('C09', 'Encoder overrides are stored, replaced, reported and removed per descriptor',
  'Looking up an override gives the value last stored for that descriptor, or reports that there is none. Updating replaces existing values, removing affects only its descriptor and reports whether there was one, and a bit follows low, high, keep-last or default as the override says.',
  [IN, HI], 'all descriptors and all sequences of updates', 'No stable test covers the override table.', ['command/Pattern.h'],
  [('BasePatternEncoderOverrides', B + 'command/Pattern.h'), ('BasePatternEncoder', B + 'command/Pattern.h')], SUM, TB)
p('C10', 'Command patterns are looked up, encoded and remembered per command',
  'Asking for the bus pattern of a command encodes exactly the pattern registered for that command with the given address, remembers the result as the previous pattern, and fails with an error if none is registered. Registering a pattern changes the pattern of that command only.',
  [IN, HI], 'all commands, addresses and registration orders', 'No stable test covers the pattern handler.', ['util/PatternHandler.h'],
  [('getCommandPattern', B + 'util/PatternHandler.h'), ('registerPattern', B + 'util/PatternHandler.h')], SUM, TB)
p('C11', 'A command is routed to exactly its own handler',
  'Executing a command calls the handler routed for its type exactly once with that command; a type without handler falls back to the default handler or to doing nothing. Routing one type leaves the others unchanged.',
  [IN, HI], 'all command types and routing orders', 'No stable test covers the router.', ['util/Router.h'], [('Router', B + 'util/Router.h')], SUM, TB)
p('C12', 'Deferred commands run exactly once, in time order, when due',
  'A deferred command is kept in time order, commands with equal times in the order they were added. Processing up to a time executes exactly the commands due by then, each once and in order, removes them, and reports the time of the last one.',
  [IN, HI], 'all insertion sequences and processing times', 'Tests never queue several deferred commands with equal or interleaved times.', ['util/ImplicitCommandHandler.h'],
  [('addImplicitCommand', B + 'util/ImplicitCommandHandler.h'), ('processImplicitCommandQueue', B + 'util/ImplicitCommandHandler.h')], SUM, TB)
CORES = ['standards/%s/%sCore.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')]
COREM = [('doCommand and its handlers', B + f) for f in CORES]
CORETECH = 'function summaries per standard and command type (paths joined, loops over banks summarised, closures of deferred actions summarised with their captures), compared with required state transitions'
p('C13', 'Row and column commands change exactly the addressed bank and rank state',
  'For every memory standard and state, activate, precharge (bank, same bank, all banks), read, write and their auto precharge forms update the command counters, the bank state and the active time intervals of exactly the addressed banks and their rank. An auto precharge takes effect once at the earliest allowed time, a precharge of a precharged bank has no effect.',
  [IN, HI, CO], 'all five standards, all states, addresses and times', 'No stable test drives a DRAM core; the effect of a command depends on the state left by all commands before it.',
  CORES + ['dram/Rank.h', 'dram/Bank.h', 'util/RegisterHelper.h'], COREM, CORETECH, TB, [('Rank, Bank', 'bank states, counters and activity intervals')])
p('C14', 'Refresh commands refresh exactly their banks for exactly their time',
  'For every memory standard and state, an all bank, per bank, two bank, same bank or dual bank refresh counts one refresh of that kind on each of its banks and no other, keeps them active until the refresh time of that kind has passed, and then precharges them. The rank is active while any of its banks is.',
  [IN, HI, CO], 'all five standards, all states, addresses and times', 'No stable test drives a DRAM core; overlapping refreshes and deferred ends are never sampled.',
  CORES, COREM, CORETECH, TB, [('refreshEndTime, endRefreshTime', 'end of the running refresh')])
p('C15', 'Power down, self refresh and deep sleep are entered and left at the right time',
  'For every memory standard and state, a power down entry or exit takes effect once, not before the command and not before every bank is ready, starts or ends the matching residency and stops or resumes the active time. Self refresh begins when its refresh is done and ends with its exit; deep sleep is nested in self refresh.',
  [IN, HI, CO], 'all five standards, all states and times', 'No stable test drives a DRAM core; entry times depend on the state of all banks.',
  CORES, COREM, CORETECH, TB, [('memState, cycles', 'power state and residency of a rank')])
p('C16', 'Window statistics report exact counts and residencies per bank and rank',
  'Statistics at a time first execute every deferred action due by then and report, for each bank of each rank, its own command counts and the time it was active, in each power down state, self refresh and deep sleep, and precharged as the remaining time. The last command time is the latest time seen.',
  [IN, HI, CO], 'all five standards, all numbers of ranks and banks, all query times', 'No stable test queries statistics; a bank or rank mix-up only shows with several ranks.',
  CORES + ['util/cycle_stats.h', 'data/stats.h'], [('getWindowStats', B + f) for f in CORES], CORETECH, TB)
p('C17', 'Statistics compare, accumulate, scale and convert part by part',
  'Two statistics are equal exactly when all their counters and all their bank and rank entries are. Adding statistics adds every counter and merges the bank and rank lists entry by entry, scaling multiplies every counter, and a conversion to JSON and back preserves every counter.',
  [IN, HI], 'all counter values and list lengths', 'No stable test covers these structures; a forgotten member only shows when that counter differs.',
  ['data/stats.h', 'util/bus_types.h'], [('statistics structures', B + 'data/stats.h'), ('bus_stats_t', B + 'util/bus_types.h')], SUM, TB)
p('C18', 'Energy totals, sums and reports contain every part exactly once',
  'The total energy is the sum over all banks and shared parts, each counted once, where the precharge share already contained in an auto precharge access is not counted again. Sums of energies add part by part, new energies are zero with one entry per bank, and the JSON report has every part under its own key.',
  [IN, CO], 'all energy values and numbers of banks', 'No stable test covers the energy structures; a missing part only shows for memories that use it.',
  ['data/energy.h', 'data/energy.cpp'], [('total, aggregated_bank_energy, to_json', B + 'data/energy.cpp')], SUM, TB)
p('C19', 'Toggling rate estimates count every burst once and scale by rate and duty cycle',
  'The estimator counts the length of every burst sent while it is enabled exactly once, a burst that is still running by its elapsed part. Ones, zeroes and transitions follow from that length, the duty cycle, the toggling rate, the idle level, the bus width and the time the estimator was enabled.',
  [IN, HI], 'all burst sequences, enable times and query times', 'No stable test covers the estimator; bursts cut by a query or by disabling are rare.',
  ['dram/Interface.h'], [('TogglingHandle', B + 'dram/Interface.h')], SUM, TB)
p('C20', 'Restoring a saved simulation reproduces the saved state exactly',
  'Every serializable part reads back exactly the values it wrote, in the same order, sizes and repetitions, so that a restored simulation has the same state as the saved one, including bus, burst, data bus inversion, pattern and override state. A core can be saved exactly when no deferred action is pending.',
  [IN, HI, CO], 'all states of all serializable classes of all five standards', 'No stable test serializes anything; a member that is forgotten or read in the wrong order shows only in what follows a restore.',
  ['util/Serialize.h', 'util/Deserialize.h', 'dram/Rank.h', 'util/bus.h', 'util/pin.h', 'util/dbi.h', 'command/Pattern.h'] + CORES + ['standards/%s/%sInterface.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')],
  [('serialize, deserialize', B + f) for f in CORES] + [('serialize, deserialize', B + 'standards/%s/%sInterface.cpp' % (s.lower(), s)) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')],
  'dataflow summaries (value numbering, branches joined) of serialize and deserialize, stream writes paired with stream reads', TB + 'The state of each class is a table; members added to a class later are not required until the table names them.')
CALCC = ['standards/%s/core_calculation_%s.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')]
CALCI = ['standards/%s/interface_calculation_%s.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')]
p('C21', 'Core energy follows the power model for every statistic and memory specification',
  'For every memory standard, each energy part of every bank of every device and each shared part is the sum over the core voltage domains of the documented formula of its command count or state duration, the currents and voltages of that domain and the timings. No part depends on statistics of another bank, device or rank.',
  [IN, CO], 'all statistics, memory specifications, numbers of ranks, devices, banks and bank groups, and bank architectures',
  'No stable test computes an energy; a formula that is wrong for one part, domain, rank or architecture shows only for traces and specifications that use it.',
  CALCC, [('calcEnergy', B + f) for f in CALCC],
  'dataflow summaries (value numbering, branches joined) of the energy calculation as ordered write effects, interpreted over loop domains under random valuations and compared with requirement formulas',
  TB + 'Currents, voltages and statistics are unconstrained reals in the comparison; rounding is not considered.')
p('C22', 'Interface energy follows the electrical model of every line',
  'For every memory standard, dynamic energy is the sum over all interface lines of rising transitions times the energy per transition; static energy is the sum over all terminated lines of the time in the conducting level times the termination power. Each line is charged to the side that drives it, with its own impedance, termination, clock and data rate.',
  [IN, CO], 'all statistics, impedance specifications, terminations and data rates', 'No stable test computes an interface energy; a line that is forgotten or charged with the values of another shows only for specifications where they differ.',
  CALCI, [('calculateEnergy', B + f) for f in CALCI], SUM, TB + 'Rounding is not considered.')
MSP = ['memspec/MemSpec%s.cpp' % s for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')]
p('C23', 'A memory specification configures the simulation exactly as described',
  'For every memory standard, each architecture size, timing, current, voltage, refresh and power parameter the simulation uses is the required function of the memory description, with the documented defaults for missing optional values. Core and interface use exactly these values, and every accepted description gives a finite specification.',
  [IN, CO], 'all memory descriptions of all five standards', 'Tests sample a few descriptions; swapped parameters show only where the two differ.',
  ['memspec/MemSpec.h'] + MSP, [('constructor', B + f) for f in MSP], SUM, TB)
p('C24', 'Bus statistics follow the wave form on the bus for every history of loads',
  'A bus drives its idle pattern except while a loaded burst lasts. Its counters at any time are the ones, zeroes and transitions of all complete beats since the start, gaps, back to back bursts, the first beat and disabled phases included. A load splits data into beats of the bus width in transmission order. A disabled bus counts nothing and ignores loads.',
  [IN, HI], 'all sequences of loads, enables, disables and queries, all bus widths, idle patterns and data rates; loaded data symbolic for sampled widths and lengths',
  'No stable test covers the bus; errors at burst boundaries show only in certain histories.',
  ['util/bus.h', 'util/burst_storage.h', 'util/pending_stats.h', 'util/binary_ops.h'], [('Bus', B + 'util/bus.h'), ('BusContainer', B + 'util/burst_storage.h')], SUM, TB)
p('C25', 'Line and clock statistics follow their level over time',
  'A single line carries the beats set on it and its idle level otherwise; its counters are the beats at each level and the level changes, high impedance excluded, up to the query time. A clock contributes half of its cycles times data rate to each level and one rise and one fall per cycle, exactly while it runs.',
  [IN, HI], 'all sequences of level changes, starts, stops and queries, all idle levels and data rates',
  'No stable test covers lines or clocks; a seamless change, a first change or a query between beats is rarely exercised.',
  ['util/pin.h', 'util/clock.h', 'util/burst_storage.h'], [('Pin', B + 'util/pin.h'), ('Clock', B + 'util/clock.h')], SUM, TB)
p('C26', 'Data bus inversion inverts exactly the profiting chunks and drives its lines',
  'With inversion enabled, a chunk is sent inverted exactly when more of its bits differ from the idle level than agree with it, other data is unchanged. The line of a chunk is reported in the state of that chunk at its beat, for every chunk in order, and is released when a burst ends that no burst follows at once. Reads and writes do not affect each other.',
  [IN, HI], 'all data, enable states, times and previous inversion states; sampled bus widths and burst lengths', 'No stable test covers inversion; seamless bursts, ties and chunks of several bytes are rarely sampled.',
  ['util/dbi.h', 'util/dbihelpers.h', 'util/dbialgos.h', 'util/dbitypes.h'], [('DBI', B + 'util/dbi.h'), ('StaticDBI', B + 'util/dbialgos.h'), ('SubChunkView', B + 'util/dbihelpers.h')], SUM, TB)
IFS = ['standards/%s/%sInterface.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')]
p('C27', 'Every command is put on the command bus as its standard encodes it',
  'For every memory standard and command type, the command bus is loaded exactly once, at the time of the command, with the bits of the command truth table: opcode levels, don\'t care and fixed levels, and the bits of bank, bank group, row and column of the target in the required order, for as many beats as the pattern has. The burst length of a read or write selects its burst bits. Commands without encoding leave the bus idle.',
  [IN, HI], 'all command types of all five standards, all targets, times, data sizes and previous encoder settings',
  'A swapped or wrong bit of one command changes only energies of traces with that command and a target where the bits differ.',
  IFS + ['util/PatternHandler.h', 'command/Pattern.h'], [('doCommand', B + f) for f in IFS] + [('registerPatterns', B + f) for f in IFS],
  'the pattern tables of the constructor summary are compared with truth tables; dataflow summaries (value numbering, branches joined) of doCommand per command type with the bus, encoder and lines kept as recorded calls', TB)
p('C28', 'Data of every access reaches data bus, strobes and inversion lines',
  'For every memory standard, each read and write puts its (inverted) data on the data bus of its direction at its time, once; the strobe of that direction, and WCK when it is not always on, run exactly for the burst; DDR4 counts seamless accesses per rank. Other commands touch none of these. Width, idle level, data rate, bus mode, line levels and the LPDDR6 data format are the required ones.',
  [IN, HI], 'all data, sizes, times, bus modes, inversion states and previous states; sampled bus widths for the initial state', 'No stable test runs an interface; a strobe, direction or line mixed up for one command shows only in interface energies.',
  IFS + ['util/databus.h', 'util/databus_presets.h'], [('doCommand', B + f) for f in IFS] + [('DataBus', B + 'util/databus.h'), ('getDataBusPreset', B + 'util/databus_presets.h')],
  'dataflow summaries (value numbering, branches joined) of doCommand per command type with the bus, encoder and lines kept as recorded calls, compared with required guarded call sequences; constructor and configuration summaries', TB)
p('C29', 'The statistics of a window combine all lines of the interface',
  'For every memory standard, the window statistics hold, for each line group, exactly the statistics of its lines up to the queried time: command bus, read and write data bus, toggling estimates, both lines of each differential clock and strobe, two strobe pairs for x16 devices, the sum over all inversion lines, and the seamless access counters of every rank. Core and interface are queried for the same time.',
  [IN, HI], 'all interface states, times, device widths, numbers of ranks and inversion lines', 'No stable test queries window statistics; a missing pair, line or direction shows only in interface energies.',
  IFS + ['util/databus.h'] + ['standards/%s/%s.cpp' % (s.lower(), s) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')], [('getWindowStats', B + f) for f in IFS], SUM, TB)
DEV = ['standards/%s/%s.%s' % (s.lower(), s, e) for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6') for e in ('cpp', 'h')]
p('C30', 'A device passes everything on to its core and interface and joins their results',
  'For every memory standard: a command given to a device reaches its core and its interface exactly once and unchanged (core-only and interface-only commands only that part); window statistics come from both parts for the asked time; energies are computed from those statistics with the specification of the device; the total energy is the sum of both; the last command time is the later one; a device is serializable exactly when no command is pending; what is saved is read back in the same order; both parts are built from the specification and configuration given.',
  [IN, HI], 'all commands, times, statistics and device states', 'No stable test creates a device; a part served twice, with another time or another specification shows only in results.',
  ['dram/dram_base.h'] + DEV, [('dram_base', B + 'dram/dram_base.h')] + [('getWindowStats', B + f) for f in DEV if f.endswith('cpp')],
  'dataflow summaries (value numbering, branches joined) of every public operation with the operations of core and interface kept as recorded calls, compared with the required guarded calls and results', TB)
p('C31', 'Extensions reach exactly the devices and hooks they are registered for',
  'Switching DBI through the extension changes the interface of its device and the remembered state only if the device accepts it (DDR4 x4 refuses); meta data set through the extension reaches the LPDDR6 interface and is read back from it. Managers return, visit, save and restore every registered extension, in registration order, and nothing else. A hook calls exactly the extensions whose mask contains it, for each of the 64 hook bits, in the dynamic and the static manager.',
  [IN, HI], 'all callbacks, states, values, hook masks and registration histories', 'The tests that run do not cover extensions; hooks beyond bit 4 and a refusing device are never sampled.',
  ['util/extensions.h', 'util/extensions.cpp', 'util/extension_manager.h', 'util/extension_manager_static.h'] + [f for f in DEV if f.endswith('cpp')],
  [('enable', B + 'util/extensions.cpp'), ('ExtensionManager', B + 'util/extension_manager.h'), ('ExtensionManagerWithHooks', B + 'util/extension_manager.h'), ('StaticExtensionManager', B + 'util/extension_manager_static.h')], SUM, TB)
p('C32', 'Devices do not influence each other and copies own their state',
  'The results of a device depend only on its own specification, configuration and command history: no object of the library that can change lives outside the devices, nothing is remembered from the first device that used a function, every member of a device holds its state itself, work deferred to a later time carries its data by value and acts on the core it is handed, and a copy or move carries every member.',
  [IN, HI], 'all numbers of devices, all interleavings of their commands, all copies', 'Tests create one device at a time; shared state shows only when two devices of different specification or history live in one process.',
  ['dram/dram_base.h', 'util/extension_manager.h', 'util/ImplicitCommandHandler.h'] + DEV, [('ExtensionManager', B + 'util/extension_manager.h')] + [('registerExtensions', B + f) for f in DEV if f.endswith('cpp') and '/DDR5' not in f],
  'inventory of static storage and of the member closure of the device classes over the type-checked program; escape analysis of closure captures on dataflow summaries (value numbering, branches joined) of constructors and command handlers', TB)
p('C33', 'Construction leaves nothing indeterminate',
  'After construction from any accepted specification and configuration, every scalar part of a memory specification, core, interface and device has a value determined by its inputs: no result depends on what the memory contained before.',
  [IN], 'all specifications and configurations; every member of every part, elements of containers included', 'A missing initializer usually reads zero in a test process; sanitizers see only the paths the tests run.',
  ['memspec/MemSpec.h'] + MSP + DEV, [('constructor', B + f) for f in MSP] + [('constructor', B + f) for f in DEV if f.endswith('cpp')],
  'definite initialisation analysis on dataflow summaries (value numbering, branches joined) of all constructors', TB)
CLI, CM = 'src/cli/lib/DRAMPower/cli/', 'src/cli/main/'
p('C34', 'Every line of a trace file becomes exactly one command, or reading fails',
  'Reading a trace gives, for each line in order, one command with the time, type, rank, bank group, bank, row and column of that line; a command with data also owns the bytes of its data field. A line with too few fields, a field that is no number, or malformed data makes reading fail with an error result; no input terminates the tool.',
  [IN], 'all trace files, all lines and fields', 'No test reads a trace file; a swapped column or a missing error path shows only for particular files.',
  [CLI + 'run.cpp'], [('parse_command_list', CLI + 'run.cpp')], SUM, TB + 'csv.hpp (third party) is trusted to deliver the fields.')
p('C35', 'The data field of a trace is decoded byte by byte, or refused',
  'A data field, with or without 0x or 0X prefix, is decoded to one byte for each pair of hexadecimal digits in order, with the number of bytes reported; a field with an odd number of characters or any character that is no hexadecimal digit is refused.',
  [IN], 'all texts of all lengths', 'No test decodes data; a wrong offset or an accepted non-digit shows only in toggle counts.',
  [CLI + 'util.cpp'], [('hexStringToUint8Array', CLI + 'util.cpp')], SUM, TB)
p('C36', 'The tool runs all stages on the given files and its exit code says so',
  'The tool requires configuration, trace and memory specification files that exist, and accepts an output file. It reads the configuration, the trace and the specification, runs every command of the trace in order on that device, and reports the result of that device. The exit code is zero exactly when every stage succeeded; refused arguments and --help end with the code of the argument parser.',
  [IN], 'all command lines, all outcomes of every stage', 'No test runs the tool; a swapped file or a failure reported as success shows only for scripts that rely on the exit code.',
  [CM + 'main.cpp', CLI + 'run.cpp'], [('main', CM + 'main.cpp'), ('runCommands', CLI + 'run.cpp')], SUM, TB + 'CLI11 (third party) is trusted to assign option values and to throw for refused arguments.')
p('C37', 'Reported energies are those of the device, each under its own name and bank',
  'The report covers the device up to its last command. The JSON document has the rank, device and bank counts, the total of core and interface energy, both energies, and each bank entry named by its rank, device and bank; the text report has a line for every rank, device and bank in order, the cumulated, shared, interface and total energy. Each energy of a bank, a rank or the interface is printed under its own label and none is left out. A file that cannot be opened or written completely is reported as a failure.',
  [IN, CO], 'all devices, all numbers of ranks, devices and banks (index expressions folded for up to 3 ranks, 2 devices and 3 banks), all energies',
  'No test runs the reports; a swapped label or index shows only with several ranks or devices.',
  [CLI + 'run.cpp', CLI + 'util.hpp'], [('jsonFileResult', CLI + 'run.cpp'), ('stdoutResult', CLI + 'run.cpp'), ('formatter', CLI + 'util.hpp')], SUM, TB + 'nlohmann::json, fmt and spdlog (third party) are trusted to write the values given.')
p('C38', 'Configuration and specification select the device and its toggling mode',
  'A configuration is accepted exactly when it can be read and names toggling rates whenever it asks for them; rates it does not ask for are not used. A memory specification gives a device of exactly its standard with that specification and the simulation settings. Anything that cannot be read is reported as failure, never as an exception.',
  [IN, CO], 'all configurations, all five standards', 'No test uses the configuration of the tool; a standard that is left out or rates used against the request show only for that input.',
  [CLI + 'run.cpp'], [('getConfig', CLI + 'run.cpp'), ('getMemory', CLI + 'run.cpp')], SUM, TB + 'DRAMUtils and nlohmann::json (third party) are trusted to parse their documents or to throw.')
p('C39', 'An output file is accepted exactly when it exists or can be created',
  'The output file is accepted when it is a regular file or can be created in an existing directory; directories and other objects are refused. A link is followed from its own directory, and the path used later is the one the link leads to. A file system that cannot answer (cycle of links, missing permission) is reported as a refused argument.',
  [IN], 'all answers of the file system, links followed for up to 3 steps', 'The stable build compiles this file without running it; relative, dangling and cyclic links are rare.',
  [CM + 'validators.cpp'], [('resolve_symlink', CM + 'validators.cpp'), ('createFileInParentDirectory', CM + 'validators.cpp'), ('EnsureFileExists_t', CM + 'validators.cpp')], SUM, TB)
p('C40', 'Rounding of accumulated energies stays negligible',
  'The energies reported for a trace differ from the exact sum of the contributions of its events by no more than the rounding of a few operations on each of the reported terms.',
  [IN, HI], 'all traces of any length, all specifications', 'A test compares a few totals with a tolerance.',
  ['standards/ddr4/core_calculation_DDR4.cpp', 'data/energy.cpp'], [('energy calculation', B + 'standards/ddr4/core_calculation_DDR4.cpp')], SUM, TB,
  na='The error of a sum depends on the number and size of its summands, which the trace fixes at run time; the rules compare real-valued terms and a sound static error bound over all traces is unbounded.')
p('C41', 'Running time and memory grow no faster than the trace',
  'Processing a command takes time independent of the commands before it, up to the number of banks and pending actions, and the memory used is bounded by device size and pending actions.',
  [IN, HI], 'all traces', 'Tests run short traces.',
  ['dram/dram_base.h', 'util/cli_architecture_config.h'], [('dram_base', B + 'dram/dram_base.h')], SUM, TB,
  na='Time and memory depend on container growth, the allocator and the pending actions a trace keeps alive; no static bound in reach says more than that each loop is bounded by its inputs.')
