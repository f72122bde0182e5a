DBG = 'src/debugger/'
TRD = 'Trusted: ' + ENG + '; the transport between debugger and machine (TCP or threads) is replaced by two message queues, number formatting and parsing are contracts.'
prop('C10', 'A single step executes exactly one instruction, and stops are reported truly',
     'Under the debugger, a single step executes exactly one instruction of the program, whatever it is, and stops with the registers, memory and program counter that one-by-one execution gives; a step over a call stops behind the call with its function executed, and a step out stops behind the call of the current function. Every stop is reported with its actual reason (step, breakpoint, watchpoint, end, error), stops inside a stepped-over function are reported rather than swallowed, and afterwards continuing runs on as if the program had never been stopped.',
     ['inputs', 'programs', 'histories'], 'every instruction kind and conditional jump from every register and memory content; calls with and without breakpoints, watchpoints, errors and halts in the callee; 48 generated sequences of steps',
     'The tests step through a few fixed programs; whether the pipeline state behind a stop is dropped and rebuilt correctly depends on the instruction kinds around the stop, and the reasons can coincide.',
     ['src/t86/cpu.cpp', 'src/t86/os.cpp', 'src/t86/debug.cpp', DBG + 'Native.cpp', DBG + 'T86Process.cpp', 'src/t86/cpu/reservation_station.cpp'],
     [('stepping', 'src/debugger/Native.cpp Native::PerformSingleStep, PerformStepOver, PerformStepOut'), ('trap flag and interrupts', 'src/t86/cpu.cpp Cpu::tick, Cpu::setTrapFlag'), ('stop loop', 'src/t86/debug.cpp Debug::Work, src/t86/os.cpp OS::Run')],
     'other', 'Single steps of every instruction kind proved for all data through the real debugger, protocol and machine; longer walks are bounded in length. Float registers at the stops are compared for one value except after the conversion that writes them. ' + TRD,
     bound='generated walks of 8 instructions (48 sequences) and fixed call shapes', observe=['the events returned by stepping', 'registers and memory read by the debugger'])
prop('C11', 'Breakpoints stop exactly where set and are otherwise invisible',
     'An enabled breakpoint on any instruction stops the program each time that instruction is about to be executed, before it has any effect, and nothing else stops; however breakpoints are set, removed, enabled, disabled and replaced, and whether the user continues or steps at them, the program computes what it computes without the debugger. The program text shown, read or restored is at all times the program\'s own (including text the user overwrote), and commands for addresses outside the program or for missing or already present breakpoints are refused and change nothing.',
     ['inputs', 'programs', 'histories'], 'every instruction kind under a breakpoint with all data; breakpoints on jumps, calls, returns and loops; 48 generated histories of nine commands on programs of five instructions with any immediates; all addresses out of range',
     'The tests set one or two breakpoints in fixed programs; combinations of disabling, stepping over, overwriting and replacing at the same address are never exercised, and the saved instruction depends on printing and reading agreeing for every operand.',
     [DBG + 'Native.cpp', DBG + 'T86Process.cpp', DBG + 'Breakpoint.h', 'src/t86/debug.cpp', 'src/t86/cpu.cpp', 'src/t86-parser/parser.cpp'],
     [('breakpoint bookkeeping', 'src/debugger/Native.cpp Native::SetBreakpoint, UnsetBreakpoint, EnableSoftwareBreakpoint, DisableSoftwareBreakpoint, SetAllBreakpoints, StepOverBreakpoint'), ('text access', 'src/debugger/Native.cpp Native::ReadText, WriteText'), ('breakpoint instruction', 'src/t86/instruction.h BKPT, src/t86/os.cpp OS::DispatchInterrupt')],
     'other', 'Single breakpoints on every instruction kind proved for all data; histories of commands are bounded in length and number. ' + TRD,
     bound='48 generated histories of 9 debugger commands', observe=['events, registers, memory and text seen by the debugger'],
     known={'known_replace_disabled': 'replacing the whole set of breakpoints with a disabled breakpoint (as when the program is run again) leaves the text shown there empty; pinned by the reference output of an existing test'})
prop('C12', 'Watchpoints stop behind exactly the executed stores to watched cells',
     'A write watchpoint stops the program immediately behind each executed store to the watched memory cell, with the store done and the cell reported, whatever instruction stores (moves of any addressing form, floats, pushes, calls) and whatever address it computes; reads, stores to other cells, stores that fail and stores that are never executed do not stop, and the program otherwise computes what it computes without the debugger. Watchpoints can be set on at most four distinct addresses; setting one that exists or a fifth, or removing one that does not exist, is refused and changes nothing.',
     ['inputs', 'programs', 'histories'], 'every kind of store with all addresses and values against every set of three watched cells; every pair of addresses in the bookkeeping; 40 generated histories of setting, removing and replacing',
     'The tests watch one cell in fixed programs; whether a stop is missed or doubled depends on the kind of the store, on its position in the pipeline and on other stops at the same place.',
     [DBG + 'Native.cpp', DBG + 'T86Process.cpp', DBG + 'Watchpoint.h', 'src/t86/debug.cpp', 'src/t86/cpu.cpp', 'src/t86/os.cpp'],
     [('watchpoint bookkeeping', 'src/debugger/Native.cpp Native::SetWatchpointWrite, RemoveWatchpoint, SetAllWatchpoints'), ('debug registers', 'src/t86/cpu.cpp Cpu::setDebugRegister, activateDebugRegister, writeMemory'), ('stop reason', 'src/t86/os.cpp OS::DispatchInterrupt, src/debugger/Native.cpp Native::MapReasonToEvent')],
     'other', 'Single stores proved for every kind, address, value and set of watched cells through the real debugger, protocol and machine; histories are bounded in length and number. ' + TRD,
     bound='40 generated histories over five stores and seven cells', observe=['events, registers and memory seen by the debugger'])
prop('C13', 'The debugger shows and changes the true state of the machine',
     'At every stop the debugger shows the true values of all registers, float registers, the program counter, memory and text; writing one of them changes exactly that one, is read back exactly (every 64-bit value, every number), and is what the program then works with, even if the program just computed or stored it itself. Writing or reading registers, memory or text that do not exist, and writing malformed instructions, is refused and changes nothing.',
     ['inputs', 'programs'], 'all registers and values, all addresses and counts in and out of range, memory and registers written at stops before and behind every kind of use',
     'The tests write a few small values into idle registers; values still travelling in the pipeline, extreme values, bit patterns of floats and addresses near the ends are not sampled.',
     [DBG + 'Native.cpp', DBG + 'T86Process.cpp', 'src/t86/debug.cpp', 'src/t86/cpu.cpp', 'src/t86/ram.cpp', 'src/t86/cpu/memory_writes_manager.cpp'],
     [('access', 'src/debugger/Native.cpp Native::SetRegister, SetRegisters, SetFloatRegister, SetFloatRegisters, GetRegister, ReadMemory, SetMemory, ReadText, WriteText'), ('protocol', 'src/debugger/T86Process.cpp, src/t86/debug.cpp Debug::Work'), ('machine', 'src/t86/cpu.cpp Cpu::setMemory, setRegister, setText, src/t86/ram.cpp RAM::set')],
     'proof', 'For all values, addresses and counts on fixed program shapes. Writing a float that is not a number is covered only as far as that it stays one. ' + TRD,
     assume=['a number formatted by the C++ library reads back as that number'], observe=['registers, memory and text read by the debugger', 'the final state of the program'])
prop('C17', 'Messages between debugger and machine arrive whole, once and in order',
     'Every message sent by the debugger or the machine arrives at the other side exactly once, unchanged, whole, and in the order of sending, whatever its content and length and however the network splits the bytes or the two threads interleave. A connection that ends or fails yields the end of the conversation or an error, and never a part of a message, a repeated or a made-up one.',
     ['inputs', 'schedules', 'fault_sequences'], 'any content; lengths 0..20 and up to 65536; arbitrary splits in up to two places, single bytes and random splits; the end or a failure of the connection at every operation; preemption of two threads at every synchronisation (up to three)',
     'On one host the network delivers each small message at once and the threads run in the usual order; short reads, short writes, failures in the middle of a message and unlucky preemptions do not happen in tests.',
     ['src/common/TCP.h', 'src/common/threads_messenger.h'],
     [('sockets', 'src/common/TCP.h TCP::Send, TCP::Receive, TCP::SendRaw, TCPClient, TCPServer'), ('threads', 'src/common/threads_messenger.h ThreadMessenger, ThreadMessengerOwner')],
     'other', 'Any content of messages, but bounded lengths, two to four messages, up to two (thorough: three) arbitrary splits besides single-byte and random splits, and up to three preemptions. The socket calls are replaced by a network that splits, ends and fails; mutex, condition variable and queue by ones that switch threads at every operation.',
     bound='two to four messages, lengths 0..20 symbolic and up to 65536 concrete; two arbitrary splits; three preemptions', assume=['sockets deliver the bytes in order (TCP)', 'lost wake-ups and spurious wake-ups of the real condition variable as in its specification'], observe=['messages received', 'bytes on the network', 'errors'])
prop('C18', 'Assembly text means one instruction, and printing and reading agree',
     'Every instruction of the documented instruction set prints as text that reads back as the same instruction with the same operands, for all immediate values, and instruction text written by a user with any valid operand form, and spacing is read as exactly that instruction. Text that does not form a valid instruction or program (unknown mnemonics, wrong operand kinds, out-of-range immediates, malformed memory operands) is rejected with an error, and data directives give exactly the listed numbers or characters.',
     ['inputs'], 'all instruction kinds and operand forms, all 64-bit immediates and finite doubles, a list of malformed texts',
     'The tests parse a few programs; extreme immediates, negative offsets, floats and near-miss operand forms are not sampled, and the debugger relies on the agreement to restore overwritten instructions.',
     ['src/t86-parser/parser.cpp', 'src/t86-parser/parser.h', 'src/t86/instruction.cpp', 'src/t86/instruction.h', 'src/t86/instructions/operand.cpp'],
     [('printing', 'src/t86/instruction.cpp Instruction::toString, src/t86/instructions/operand.cpp Operand::toString'), ('reading', 'src/t86-parser/parser.cpp Parser::Instruction, Parser::Operand, Lexer::getNext')],
     'proof', 'Every operand form for all immediate values. Rejected texts are a finite list. ' + TRD,
     bound='the rejected texts are a finite list', assume=['a number formatted by the C++ library reads back as that number'], observe=['the parsed instruction', 'the printed text', 'parser errors'],
     known={'known_register_name': 'a register name without a number is accepted and means register 0 (POP RBP is read as POP R0)'})
SRCD = DBG + 'Source/'
prop('C14', 'Source positions, functions, scopes and source steps follow the program text',
     'An address belongs to the source line the line table gives for it, a line or function name to its address, a function to every address from its first instruction up to its end, and a variable name to the variable of the innermost scope that contains the current instruction, with its location and type. A source-level step runs until an instruction that begins a line (entering calls, or over them), executing exactly the instructions up to there, and stops earlier only for a breakpoint, a watchpoint or the end, which it reports. Debugging information that is malformed is rejected with an error, and the source text is shown line by line as given.',
     ['inputs', 'programs'], 'all addresses of lines, functions and three nested scopes with declarations before and behind nested scopes; steps over lines, calls, returns and both ways of jumps with all data, with stops of each kind inside',
     'The tests use a handful of compiled programs whose scopes, lines and functions come in one order and at fixed addresses; boundaries, shadowing in another order, and stops inside a step are not sampled.',
     [SRCD + 'Source.cpp', SRCD + 'Parser.cpp', SRCD + 'LineMapping.cpp', 'src/common/parsing.h', DBG + 'Native.cpp'],
     [('queries', 'src/debugger/Source/Source.cpp Source::AddrToLine, LineToAddr, GetFunctionNameByAddress, GetFunctionAddrByName, GetAddressFromString, GetLines, GetLinesRange'), ('scopes', 'src/debugger/Source/Source.cpp Source::GetScopedVariables, GetVariableLocation, GetVariableTypeInformation'), ('steps', 'src/debugger/Source/Source.cpp Source::StepIn, StepOver')],
     'proof', 'For all addresses, registers and memory on fixed shapes of debugging information (four lines, two functions, three nested scopes). Rejected texts are a finite list. ' + TRD + ' Queries about scopes use a process that follows the contract proved as C13.',
     bound='fixed shapes of debugging information; the rejected texts are a finite list', observe=['answers to source queries', 'events, registers and memory after source steps'])
prop('C15', 'Location expressions denote what the documented stack machine leaves',
     'The location of a variable is what its location expression leaves on top of the stack, evaluated with the registers and memory of the stopped program as documented: PUSH puts a register or an address, BASE_REG_OFFSET the frame base plus an offset, ADD replaces the two topmost entries by their sum (a register counts with its content), and DEREFERENCE replaces the topmost one by the memory cell it addresses. An expression with a missing operand, an unknown register or an address outside of memory is refused without harm, and so is a malformed one when it is read.',
     ['inputs', 'programs'], 'every program of up to four instructions over six instruction kinds, all operands, register and memory contents; the same programs as text',
     'The tests evaluate five or so programs with small numbers; missing operands, wraparound and deeper programs are not sampled.',
     [SRCD + 'ExpressionInterpreter.cpp', SRCD + 'LocExpr.h', SRCD + 'Parser.cpp', SRCD + 'Source.cpp'],
     [('interpreter', 'src/debugger/Source/ExpressionInterpreter.cpp ExpressionInterpreter::Interpret'), ('reading', 'src/debugger/Source/Parser.cpp Parser::ParseExprLoc')],
     'other', 'All programs of up to four instructions, for all operands, register and memory contents; longer ones are not covered. ' + TRD + ' The process is one that follows the contract proved as C13.',
     bound='location programs of at most four instructions', observe=['the location of a variable'])
prop('C16', 'Expressions evaluate like the C expressions they look like',
     'An expression over the variables of a stopped program (integers, floats, chars, pointers, structures, arrays, in memory or registers) has the value the same C expression has on 64-bit integers and doubles, with the documented precedence, wherever its pointers and indices lead; assignment stores exactly this value in exactly the denoted cells or register, and results are numbered from zero and can be used again as $n. Expressions that are malformed, ill-typed, divide by zero, index outside an array or reach outside memory are refused with an error and change nothing. Values are shown as their C representation.',
     ['inputs', 'programs'], 'every operator on every type with all operand values; loads and stores through all pointer and index values; 40 generated expressions; 90 refused ones',
     'The tests evaluate a few expressions on one program state; which operand values, types and nestings go wrong cannot be sampled.',
     [SRCD + 'Expression.cpp', SRCD + 'ExpressionParser.cpp', SRCD + 'Source.cpp', SRCD + 'Type.h'],
     [('evaluation', 'src/debugger/Source/Expression.cpp ExpressionEvaluator'), ('grammar', 'src/debugger/Source/ExpressionParser.cpp ExpressionParser'), ('values shown', 'src/debugger/Source/Source.cpp Source::TypedValueToString, EvaluateExpression')],
     'other', 'Every operator, load, assignment and shown type is proved for all data; the generated nested expressions are bounded, and refused texts are a finite list. Shifts outside 0..63 are left unspecified (as in C), and so is the associativity of chained assignment. ' + TRD + ' The process is one that follows the contract proved as C13.',
     bound='40 generated expressions of depth up to 4; refused texts are a finite list', observe=['values, texts and errors of expressions', 'memory and registers written'])
