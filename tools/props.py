T86 = 'src/t86/'
ENG = 'the IR-level verification-condition generator in irvc/ and its C++-runtime hooks, the container/format models in models/, clang 18, z3/cvc5'
DED = 'contract-based deductive verification of the real code (VC generation from its LLVM IR, z3/cvc5)'
BND = 'contracts on the real code checked by VC generation from its LLVM IR; program length bounded, data unbounded'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, note=note, technique=kw.pop('technique', DED if level == 'proof' else BND), **kw))

prop('C01', 'Integer instructions compute the documented result and flags',
     'For every pair of 64-bit operand values and every operand form, each integer move, arithmetic, logic, shift, compare, increment, decrement, negate and complement instruction leaves exactly the wrapped 64-bit result in its destination, sets sign, zero, carry and overflow as documented (a move sets none), and changes nothing else. Division or remainder by zero is reported as an error of the program and never ends the virtual machine itself.',
     ['inputs'], 'all 2^128 operand pairs per instruction and operand form, all initial register, flag and memory contents',
     'The tests run a few programs with small constants; boundary operands (minimal value, -1, shift counts past 63, zero divisors) are never sampled, and a wrong flag in one corner passes them all.',
     [T86 + 'cpu/alu.cpp', T86 + 'cpu/alu.h', T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp'],
     [('ALU operations', 'src/t86/cpu/alu.cpp ALU::add ... ALU::arithmetic_right_shift'), ('instruction execute/retire', 'src/t86/instruction.cpp *::execute, *::retire'), ('tick and retire loop', 'src/t86/cpu.cpp Cpu::tick')],
     'proof', 'Every obligation (result, each flag, frame, error) is discharged for all operand values through the whole fetch-execute-retire path. Trusted: ' + ENG + '.',
     observe=['registers, flags and memory after the program halted', 'the error of the operating loop'])
prop('C02', 'Jumps go where the flags and the target say',
     'For every flag combination, every conditional and unconditional jump, call-free loop instruction and target operand form, execution continues at the given target exactly when the documented condition on the flags holds and at the next instruction otherwise. The jump itself changes no register, flag or memory cell (the loop instruction only decrements its counter), and a compare followed by a conditional jump is taken exactly when the compared values stand in the named relation.',
     ['inputs', 'programs'], 'all 16 flag values, all compared 64-bit values, all targets, all initial states',
     'The tests use a handful of comparisons between small numbers, so signed/unsigned confusion, overflow cases and rarely used conditions are not reached.',
     [T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'cpu.cpp', T86 + 'cpu/branchpredictor.h'],
     [('conditions', 'src/t86/instruction.h JZ..JNS, ConditionalJumpInstruction::condition'), ('resolving the prediction', 'src/t86/cpu.cpp Cpu::checkSpeculation..., Cpu::unrollSpeculation'), ('LOOP', 'src/t86/instruction.cpp LOOP')],
     'proof', 'All conditions for all flags, compared values and targets. The iterated loop body (3 of 185 cases) is bounded to a few iterations and labelled so. Trusted: ' + ENG + '.',
     bound='loop bodies: up to 3 iterations', observe=['program counter after a retired jump', 'registers after the program halted'])
prop('C03', 'Loads and stores reach exactly the addressed cell, or fail',
     'For every memory operand form and all register, offset and scale values, a load yields the content of exactly the cell at the documented address and a store changes exactly that cell and nothing else; an address outside the memory ends in a reported error and no cell is changed. Computing an address without accessing it yields that address, and the initial data of a program appears in memory from address zero with the rest of memory zero.',
     ['inputs'], 'all register/immediate/scale values, all addresses (also outside memory), all operand forms, all contents',
     'Tests use few small in-range addresses; wrap-around sums, negative addresses and one-past-the-end are not sampled.',
     [T86 + 'instructions/operand.cpp', T86 + 'ram.cpp', T86 + 'cpu/memory_writes_manager.cpp', T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp'],
     [('operand forms', 'src/t86/instructions/operand.cpp Operand::supply, Memory*'), ('memory', 'src/t86/ram.cpp RAM::read/write/tick'), ('write buffer', 'src/t86/cpu/memory_writes_manager.cpp')],
     'proof', 'All address values for a memory of three cells (memory size fixed in the harness; the code has no size dependence but the bound itself). Trusted: ' + ENG + '.',
     assume=['memory size 3: the bounds check compares with the stored size, nothing else depends on it'], observe=['memory and registers after the program halted'])
prop('C04', 'Stack and call instructions keep the stack discipline',
     'For all values and stack pointers, push stores the value one cell below the old stack pointer and moves the stack pointer there, pop returns that cell and moves the stack pointer up, call pushes the address of the following instruction and jumps, and return pops it and jumps back there. A pop after a push restores value and stack pointer, a stack pointer outside memory ends in a reported error, and nothing else changes.',
     ['inputs'], 'all register and immediate values, all stack pointers, integer and floating forms, memory contents',
     'Tests push and pop a few constants in the middle of a large memory; edges, aliasing with the stack pointer and returns to arbitrary addresses are not sampled.',
     [T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'cpu.cpp'],
     [('PUSH/POP/CALL/RET', 'src/t86/instruction.h PUSH, FPUSH, POP, FPOP, CALL, RET'), ('stack pointer renaming', 'src/t86/cpu/register_allocation_table.cpp')],
     'proof', 'All values and stack pointers for a memory of three cells. Trusted: ' + ENG + '.', observe=['memory, registers, stack pointer, program counter'])
prop('C05', 'Memory operations take effect in program order',
     'Whatever addresses loads, stores, pushes and pops use and however they overlap, each load sees the value of the latest earlier store to the same cell, and the final memory is that of executing the instructions one after another. This holds for every number of execution units, buffer entries and memory ports.',
     ['programs', 'inputs', 'configurations'], 'all sequences of three memory instructions with any aliasing and any values; 96 generated sequences of 24 on six configurations with any values',
     'Forwarding, several outstanding writes to one cell, and late completion depend on the exact distance between instructions and on the configuration; the tests run a few fixed programs on one default machine.',
     [T86 + 'cpu/memory_writes_manager.cpp', T86 + 'cpu/memory_writes_manager.h', T86 + 'ram.cpp', T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp'],
     [('pending writes', 'src/t86/cpu/memory_writes_manager.cpp MemoryWritesManager'), ('forwarding', 'src/t86/cpu/reservation_station.cpp RSEntry'), ('memory ports', 'src/t86/ram.cpp')],
     'other', 'Bounded in the number of instructions (3 exhaustively, 24 sampled), all data values and aliasings decided by the solver. Trusted: ' + ENG + '.',
     bound='instruction sequences of length 3 (all 512 of 8 kinds) and 96 generated sequences of length 24 on six machine configurations; values and addresses symbolic', observe=['registers and memory after the program halted'])
prop('C06', 'Out-of-order execution equals one-by-one execution',
     'Running any program with any number of execution units, buffer entries and memory ports leaves the same registers, flags, floating registers and memory as executing its instructions one after another. When an instruction fails, the program ends in a reported error and memory is as the instructions before it left it.',
     ['programs', 'inputs', 'configurations'], 'all pairs of 22 instruction kinds in any state, triples of dependent instructions on six configurations, 120 generated sequences of length 20; all data symbolic',
     'Hazards depend on distance between producer and consumer, on which physical registers are free and on the configuration; tests run fixed programs on the default machine.',
     [T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp', T86 + 'cpu/register_allocation_table.cpp', T86 + 'instructions/operand.cpp', T86 + 'instructions/product.cpp', T86 + 'instructions/requirements.cpp'],
     [('reservation station', 'src/t86/cpu/reservation_station.cpp'), ('register renaming', 'src/t86/cpu/register_allocation_table.cpp'), ('tick', 'src/t86/cpu.cpp Cpu::tick')],
     'other', 'Bounded in program length; data values symbolic. Trusted: ' + ENG + '.',
     bound='484 pairs, 216 triples, 120 generated sequences of length 20 over 6 machine configurations; values symbolic', observe=['registers, flags, floats and memory after the program halted'])
prop('C07', 'Mispredicted instructions leave no trace',
     'Instructions that lie behind a jump, call, return or halt that leads elsewhere have no effect: no register, flag, floating register or memory change, no error, no output and no stop, whatever they are. Execution on the right path proceeds with exactly the state at the jump.',
     ['programs', 'inputs', 'configurations'], 'every control transfer with each of 21 kinds of wrong-path instruction, any data, several configurations',
     'Whether a wrong-path instruction gets far enough to do damage depends on timing and on its kind; the tests have no program that checks it.',
     [T86 + 'cpu.cpp', T86 + 'cpu/reservation_station.cpp', T86 + 'cpu/memory_writes_manager.cpp', T86 + 'instruction.cpp'],
     [('unrolling', 'src/t86/cpu.cpp Cpu::unrollSpeculation'), ('pending writes dropped', 'src/t86/cpu/memory_writes_manager.cpp'), ('effects only at retirement', 'src/t86/instruction.cpp *::retire')],
     'other', 'Bounded in program shape (504 shapes), data symbolic. Trusted: ' + ENG + '.',
     bound='504 program shapes (transfer x wrong-path instruction x position x 3 configurations); values symbolic', observe=['registers, flags and memory after the program halted', 'errors', 'stops'])
prop('C08', 'Output and input happen once, in order, with the right value',
     'Each executed number or character output writes the value of its register exactly once, in program order, and each executed character input consumes exactly one character and stores its code. Input and output instructions that are not executed (skipped, mispredicted, behind a failing instruction) write and consume nothing.',
     ['programs', 'inputs', 'configurations'], 'all register values and input characters; sequences of three input/output instructions on four configurations',
     'The tests print small numbers in straight-line code on the default machine.',
     [T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'cpu.cpp'],
     [('PUTNUM/PUTCHAR/GETCHAR', 'src/t86/instruction.h, src/t86/instruction.cpp'), ('effects only at retirement', 'src/t86/cpu.cpp Cpu::tick')],
     'other', 'Single instructions proved for all values; sequences and not-executed cases bounded in length. The decimal formatting of the C++ stream library is trusted. Trusted: ' + ENG + '.',
     bound='sequences of three I/O instructions', assume=['std::ostream/std::istream formatting of integers and characters is the documented one'], observe=['the output stream', 'the input stream', 'registers'])
prop('C09', 'Floating-point instructions are exact IEEE doubles, moves are bit copies',
     'Each floating arithmetic and compare instruction yields the IEEE double result of its operands and the documented flags, for all operand values including infinities, NaNs and signed zeros. Moves, stores, loads, pushes and pops of floating registers keep every bit, and the conversions between integers and doubles truncate and widen as documented.',
     ['inputs'], 'all 2^128 operand bit patterns, all operand forms',
     'Tests use a few finite values.',
     [T86 + 'cpu/alu.cpp', T86 + 'instruction.cpp', T86 + 'instruction.h', T86 + 'cpu/memory.h'],
     [('float ALU', 'src/t86/cpu/alu.cpp ALU::fadd ...'), ('conversions', 'src/t86/instruction.h EXT, NRW'), ('moves', 'src/t86/instruction.cpp MOV')],
     'proof', 'All operand bit patterns in the solver\'s IEEE theory. Trusted: ' + ENG + '.', observe=['registers, float registers, flags and memory'])

exec(open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/props_dbg.py').read()) if __import__('os').path.exists(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/props_dbg.py') else None
NA = []
NOTES = 'See DESIGN.md. Checks rebuild /repo\'s sources to LLVM IR on every run; no hooks in /repo. Replays of counterexamples are native, sanitised builds of the same sources and harness.'
