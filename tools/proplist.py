REFNOTE = "Generated-case search, not a proof: trusts the independent reference model in harness/ref.cpp, which was written from the LoongArch manual and not from the emulator. "

prop("C06", "Integer instructions compute the architectural result for all operands",
     "Every implemented integer, bit-manipulation, multiply/divide, address-generation and CRC instruction leaves the guest registers exactly as the LoongArch64 architecture defines, for all operand values, immediates and register choices including aliased operands and the zero register. No other guest-visible register, memory or PC state changes, the hardwired zero register stays zero, and no operand combination can harm the host.",
     ["inputs"], "all instruction words of the implemented integer groups x all register contents",
     "Unit tests run a handful of operand values per instruction; sign extension, shift-amount masking, division corner cases, aliasing and rd=r0 are input-quantified.",
     [L + "la_instr_impl.hpp", L + "la64.cpp", L + "bytecode_impl.cpp", L + "threaded_rewriter.cpp"],
     [("instruction handlers", L + "la_instr_impl.hpp"), ("fast-path bytecodes", L + "bytecode_impl.cpp"), ("decoder tables", L + "la64.cpp")],
     "model-based random testing against a reference CPU", REFNOTE + "Single instructions executed in three dispatch modes.",
     ["cpu registers after one instruction"])

prop("C07", "Loads, stores, LL/SC and atomics access exactly the addressed bytes",
     "Every implemented load, store, indexed, post-offset, bound-checked, LL/SC and AM* atomic instruction reads or writes exactly the bytes the architecture defines at the effective address, with the right width, extension and returned value, at any alignment. Accesses outside the guest's readable or writable range raise an exception and change no memory, and nothing else in guest state changes.",
     ["inputs"], "all memory instruction words x base/index values, offsets, alignments and memory contents",
     "Unit tests use a few aligned addresses and small positive offsets; they do not reach scaled negative offsets, range edges, unaligned vectors or every atomic operation.",
     [L + "la_instr_impl.hpp", L + "la_instr_atomic.hpp", L + "memory_inline.hpp", L + "bytecode_impl.cpp"],
     [("memory handlers", L + "la_instr_impl.hpp"), ("atomics", L + "la_instr_atomic.hpp"), ("range checks", L + "memory_inline.hpp")],
     "model-based random testing against a reference CPU", REFNOTE + "Behaviour of accesses straddling the very top of the arena is not asserted.",
     ["cpu registers", "arena contents", "exceptions"])

prop("C09", "Scalar floating-point instructions follow IEEE-754 and the architecture",
     "Every implemented scalar floating-point arithmetic, fused, conversion, comparison, classification, selection and move instruction produces the bit-exact result the architecture defines, for all operands including NaNs, infinities, signed zeros, subnormals and out-of-range conversions. Condition flags and untouched registers are preserved exactly.",
     ["inputs"], "all scalar FP instruction words x all FP bit patterns and condition flags",
     "Unit tests use ordinary finite values; unordered comparisons, NaN handling, saturation and rounding are quantified over bit patterns.",
     [L + "la_instr_impl.hpp", L + "la64.cpp", L + "bytecode_impl.cpp"],
     [("FP handlers", L + "la_instr_impl.hpp"), ("decoder tables", L + "la64.cpp")],
     "model-based random testing against a reference CPU", REFNOTE + "NaN payload/sign of arithmetic results and fmax/fmin of opposite zeros are not asserted.",
     ["FP registers and condition flags after one instruction"])

prop("C10", "128-bit vector (LSX) instructions compute every lane correctly",
     "Every implemented LSX instruction computes each lane of its 128-bit result exactly as the architecture defines for all operand contents, immediates and register overlaps. Memory forms access exactly the addressed bytes at any alignment, and no other guest state changes.",
     ["inputs"], "all implemented LSX instruction words x vector contents and aliasing",
     "Unit tests cover a few lane patterns per instruction; saturation, lane order, immediates and destination/source overlap are input-quantified.",
     [L + "la_instr_impl.hpp", L + "la64.cpp", L + "bytecode_impl.cpp", L + "registers.hpp"],
     [("LSX handlers", L + "la_instr_impl.hpp"), ("decoder tables", L + "la64.cpp")],
     "model-based random testing against a reference CPU", REFNOTE + "Upper 128 bits of the overlapping LASX register are not asserted after an LSX write.",
     ["vector registers after one instruction"])

prop("C11", "256-bit vector (LASX) instructions compute every lane correctly",
     "Every implemented LASX instruction computes each lane of its 256-bit result exactly as the architecture defines, including the operations that act on each 128-bit half independently, for all operand contents, immediates and register overlaps. Memory forms access exactly the addressed bytes at any alignment, and no other guest state changes.",
     ["inputs"], "all implemented LASX instruction words x vector contents and aliasing",
     "Unit tests cover a few lane patterns per instruction; half-lane semantics, permutations and overlap are input-quantified.",
     [L + "la_instr_impl.hpp", L + "la64.cpp", L + "bytecode_impl.cpp", L + "registers.hpp"],
     [("LASX handlers", L + "la_instr_impl.hpp"), ("decoder tables", L + "la64.cpp")],
     "model-based random testing against a reference CPU", REFNOTE,
     ["vector registers after one instruction"])

prop("C02", "The instruction limit ends execution promptly and the count is exact",
     "Running any guest program with an instruction limit always returns control: execution ends no later than one taken branch after the limit is passed, the instruction counter then equals the number of instructions actually executed, and the machine reports the limit as the reason. A program that ends earlier is reported as completed with the limit not reached. A call with a limit never runs without bound.",
     ["inputs", "histories"], "all programs x all limits x all starting counters",
     "Tests run one or two endless loops with a round limit; exact counting through every block shape, branch kind and host call is quantified over programs.",
     [L + "threaded_dispatch.cpp", L + "decoder_cache.cpp", L + "machine_inline.hpp"],
     [("limit checks at branches", L + "threaded_dispatch.cpp"), ("per-block instruction counts", L + "decoder_cache.cpp")],
     "random programs with limits against a counting reference", REFNOTE + "After an exception the counter is not asserted. Nested calls' budgets are not asserted.",
     ["instruction counter", "simulate() result", "instruction_limit_reached()"])

prop("C08", "Programs follow the architectural control flow",
     "Whole programs - branches of every kind and distance, calls, returns, indirect jumps, loops, condition-flag branches, system calls, breakpoints and execution across several code segments - end in exactly the registers, memory, program counter, host-call sequence and exceptions that executing each instruction in order by the architecture's rules gives. Jumping outside executable code raises an exception.",
     ["inputs"], "all programs built from implemented instructions x initial states",
     "Tests run compiled samples, which rarely reach extreme branch offsets, very long blocks, block-cut rules or several segments.",
     [L + "threaded_dispatch.cpp", L + "decoder_cache.cpp", L + "threaded_rewriter.cpp", L + "cpu.cpp", L + "bytecode_impl.cpp"],
     [("branch rewriting", L + "threaded_rewriter.cpp"), ("block construction", L + "decoder_cache.cpp"), ("dispatch", L + "threaded_dispatch.cpp")],
     "model-based random program generation against a reference CPU", REFNOTE + "Misaligned jump targets and direct branches out of their own code segment are not asserted.",
     ["cpu registers", "arena contents", "host-call log", "exceptions"])

prop("C14", "Every way of executing a program gives the same result",
     "Single stepping (one step at a time, by the precise simulation, or in the debugger), the fast dispatch with an instruction limit, and the dispatch without counting execute any given program identically: same registers, memory, program counter, sequence of host calls and exception. Execution is deterministic.",
     ["inputs"], "all programs and initial states x the execution modes",
     "Tests use one mode per test; each mode has its own handler per instruction, so agreement is quantified over programs.",
     [L + "cpu.cpp", L + "threaded_dispatch.cpp", L + "threaded_inaccurate_dispatch.cpp", L + "bytecode_impl.cpp"],
     [("single stepping", L + "cpu.cpp"), ("fast dispatch", L + "threaded_dispatch.cpp"), ("uncounted dispatch", L + "threaded_inaccurate_dispatch.cpp")],
     "differential random program testing between dispatch modes", "Generated-case search. Vector bytes which the architecture leaves undefined are not compared; single stepping reports a jump into nowhere as a failed read.",
     ["cpu registers", "arena contents", "host-call log", "exceptions"])

prop("C15", "Pausing and resuming does not change an execution",
     "However an execution is divided - by instruction limits of any size, by host calls that stop the machine, by single steps in between - resuming it continues exactly where it paused, so that registers, memory, host-call sequence and final outcome are the same as in one uninterrupted run, and each pause leaves a precise state.",
     ["histories", "inputs"], "all programs x all ways of slicing the run",
     "Tests resume one program once or twice; precise state at every pause point is quantified over programs and slice lengths.",
     [L + "threaded_dispatch.cpp", L + "machine_inline.hpp", L + "cpu.cpp"],
     [("resume at any pc", L + "threaded_dispatch.cpp"), ("stop handling", L + "machine.hpp")],
     "random slicing of random programs against a reference CPU", REFNOTE,
     ["cpu registers", "arena contents", "host-call log", "program counter"])

prop("C03", "Host access to guest memory is exact and range-checked",
     "Every host-side memory operation - typed reads and writes, bulk copies in and out, string reads, fills, comparisons, views, and guest memory mapping - transfers exactly the requested bytes when the whole range is accessible to that operation, and otherwise raises a machine exception without touching anything outside the range. No address or length, including ones that wrap around, lets the host reach memory outside the guest arena.",
     ["inputs", "histories"], "all operation sequences x all addresses and lengths",
     "Tests use small in-range accesses; range ends and wrap-around are quantified over addresses and lengths.",
     [L + "memory.hpp", L + "memory_inline.hpp", L + "memory.cpp"],
     [("range checks", L + "memory_inline.hpp"), ("bulk operations", L + "memory.cpp")],
     "model-based random operation sequences against a byte-array model", "Generated-case search. Accesses straddling the very top of the arena are not asserted.",
     ["returned bytes", "arena contents", "exceptions"])

prop("C04", "Loading a well-formed ELF program reproduces it exactly",
     "For every well-formed LoongArch64 executable that fits in the configured memory, loading places every segment's bytes at its address, zero-fills the rest, enforces read-only and no-access ranges, makes exactly the executable bytes executable, starts at the entry point with a valid aligned stack, and leaves room for the configured heap and stack. Loader options (memory size, stack, brk, donated arena, ignored .text section) do what they say.",
     ["inputs"], "all well-formed ELF files x loader options",
     "Tests load a few linker-produced binaries; segment order, alignment, gaps, header placement and option combinations are input-quantified.",
     [L + "elf_loader.cpp", L + "memory.cpp", L + "memory.hpp"],
     [("segment loading", L + "elf_loader.cpp"), ("arena layout", L + "memory.cpp")],
     "random ELF generation against an image model", "Generated-case search over static executables.",
     ["arena contents", "memory permissions", "executable ranges", "start address", "stack and heap addresses"])

prop("C05", "No file can harm the host by being loaded",
     "Loading any byte sequence as a program, with any options, either produces a machine or raises a machine exception; it never reads outside the file, writes outside the guest's memory, crashes, hangs, raises another exception type or leaks memory. The same holds for looking up symbols, setting up arguments and running whatever was loaded.",
     ["inputs"], "all byte strings x loader options",
     "Tests load intact binaries and one or two invalid ones; every header field is attacker-controlled.",
     [L + "elf_loader.cpp", L + "memory.cpp", L + "machine.cpp"],
     [("header validation", L + "elf_loader.cpp"), ("arena setup", L + "memory.cpp")],
     "structured mutation fuzzing of ELF files under address sanitizer", "Generated-case search; damage is biased to header fields.",
     ["exceptions", "sanitizer reports", "process memory"])

prop("C28", "Symbol lookup and backtraces tell the truth",
     "address_of() returns the value of the named symbol of the loaded file and zero for unknown names; lookup_symbol() returns a symbol that covers the address when one exists, otherwise the closest one before it; a backtrace names the program counter and return address, never fails and never shows bytes that come from no symbol, for any symbol table and machine state.",
     ["inputs"], "all symbol tables x addresses and register/stack contents",
     "Tests look up a few exported functions; overlaps, duplicates, gaps, zero-sized and very long names are input-quantified.",
     [L + "elf_loader.cpp", L + "machine.cpp", L + "memory.cpp"],
     [("symbol tables", L + "elf_loader.cpp"), ("backtrace", L + "machine_backtrace.cpp")],
     "random symbol tables against a list model", "Generated-case search. Which of several covering symbols is returned is not asserted.",
     ["address_of()", "lookup_symbol()", "backtrace()"])

prop("C16", "Calling guest functions follows the calling convention",
     "A guest function called from the host receives every argument where the LoongArch calling convention puts it (integers widened correctly, floats, strings and structures by address on an aligned stack, further ones on the stack), returns its result exactly, and sees the exit address as return address. Faults and exceeded limits surface as exceptions. A call made while a program is running, with registers kept, leaves that program's registers, stack, instruction count and limit as they were.",
     ["inputs", "histories"], "all argument lists and values x functions x limits x nesting",
     "Tests call a few functions with ordinary values; widths, overflow to the stack, limits and nesting are input- and history-quantified.",
     [L + "machine_vmcall.hpp", L + "machine_inline.hpp", L + "threaded_dispatch.cpp"],
     [("argument placement", L + "machine_vmcall.hpp"), ("nested execution", L + "threaded_dispatch.cpp")],
     "random calls against an independent model of the calling convention", "Generated-case search over 20 argument lists. Structures are passed by address, as the library documents. Limits within a few instructions of the function's length are not asserted.",
     ["argument registers and stack as the callee sees them", "return values", "exceptions", "registers and memory of an interrupted program"])

prop("C17", "System calls reach the right handler with the right values",
     "A guest system call runs exactly the handler installed for its number, once, and otherwise the unknown-call handler with that number; the handler sees each argument as the guest passed it, converted to the requested type, with invalid pointers refused by an exception; results of every supported type arrive in the guest's result registers, and no other register changes.",
     ["inputs"], "all system-call numbers x register contents x argument and result types",
     "Tests resolve a few argument lists with valid pointers; widths, pointer ends and number ranges are input-quantified.",
     [L + "machine_inline.hpp", L + "machine.cpp", L + "machine.hpp"],
     [("argument resolution", L + "machine_inline.hpp"), ("handler table", L + "machine.cpp")],
     "random system calls against a model", "Generated-case search over 18 argument lists.",
     ["handler calls", "resolved arguments", "result registers"])

prop("C19", "A program starts with the stack its C runtime expects",
     "After setup_linux() the stack pointer is 16-byte aligned and points at argc, followed by the argument pointers, the environment pointers and the auxiliary vector, each terminated; every pointer designates the exact string given, nothing overlaps, the auxiliary values describe the loaded program, and nothing below or above the used stack is touched.",
     ["inputs"], "all argument and environment lists x initial stack pointers",
     "Tests start programs with one or two arguments; alignment and overlap depend on counts and lengths.",
     [L + "machine.cpp"],
     [("stack construction", L + "machine.cpp")],
     "random argument lists walked as a C runtime does", "Generated-case search. Stacks too small for the strings are not asserted.",
     ["stack contents", "stack pointer"])

prop("C20", "The native heap hands out valid, disjoint memory and keeps its books",
     "For every history of malloc, calloc, realloc and free, host-side or by the guest, each live allocation lies inside the configured heap, is at least as large as requested, is 16-byte aligned and overlaps no other; calloc memory is zero, realloc preserves contents, a request that cannot be met (including sizes whose rounding or product overflows) fails with a null pointer or leaves the old block untouched, freed memory becomes usable again, wrong or repeated frees are reported without damage, and the accounting functions agree with the live set. This holds wherever in the address space the heap lies.",
     ["inputs", "histories"], "all allocation histories, sizes and heap placements",
     "Tests allocate and free a few blocks; fragmentation, coalescing, in-place growth and overflow depend on the history.",
     [L + "native/heap.hpp", L + "machine_accelerate.cpp"],
     [("arena", L + "native/heap.hpp"), ("guest functions", L + "machine_accelerate.cpp")],
     "stateful model-based random testing", "Generated-case search over histories of up to a few hundred operations.",
     ["returned pointers", "guest memory", "accounting"])

prop("C21", "Accelerated C library functions behave like the functions they replace",
     "memcpy, memmove, memset, memcmp, memchr, strlen, strnlen, strcmp and strncmp executed natively give the guest exactly the result the C standard defines, for all contents, lengths, alignments, overlaps and pointers, including zero lengths with any pointer; they touch only the bytes the C function would, and an access outside guest memory is a machine exception instead of a wrong answer or host damage.",
     ["inputs"], "all arguments and memory contents",
     "Tests call them with short aligned strings; terminators near the end of memory, matches before a fault and limits are input-quantified.",
     [L + "machine_accelerate.cpp"],
     [("native functions", L + "machine_accelerate.cpp")],
     "random calls against a byte-level model", "Generated-case search. Partial effects of a faulting call and the sign-only results of comparisons are not asserted beyond the C standard.",
     ["result register", "guest memory", "exceptions"])

prop("C22", "Guest C++ and Rust objects stay consistent with the guest's own view",
     "Host-side handling of guest std::string, std::vector, Rust String and Vec, and scoped guest objects keeps exactly the layout and contents the guest code expects after every sequence of operations: contents read back equal those written, small-string and heap forms stay valid when objects move, storage is neither leaked, freed twice nor left dangling, failures leave objects valid, and no guest-controlled length, capacity or pointer can make the host read or write outside guest memory.",
     ["inputs", "histories"], "all operation histories and all guest-memory contents",
     "Tests build one object and read it back; growth, moves, exhaustion and hostile fields are not sampled.",
     [L + "guest_datatypes.hpp"],
     [("guest data types", L + "guest_datatypes.hpp")],
     "stateful model-based random testing, hostile-input fuzzing under the address sanitizer", "Generated-case search.",
     ["guest memory", "heap accounting", "exceptions"])

prop("C23", "Machines are independent, also when sharing decoded code or run concurrently",
     "What a machine does depends only on its own program, options and operations: any number of other machines, of the same or other programs, created, run, patched, reloaded or destroyed before, in between or at the same time in other threads, changes nothing about its results, and sharing decoded code between machines is unobservable. Code with equal checksums but different contents is never confused, machines of the same program that share decoded code hold one copy of it, shared code is freed with its last user, and there are no data races.",
     ["histories", "schedules"], "all histories of several machines and all thread schedules",
     "Tests run a few identical machines; confusion and races need particular programs, orders and interleavings.",
     [L + "shared_exec_segment.cpp", L + "shared_exec_segment.hpp", L + "memory.cpp", L + "decoder_cache.cpp", L + "decoder_cache.hpp", L + "util/crc32c.cpp", L + "machine_accelerate.cpp"],
     [("shared segment cache", L + "shared_exec_segment.cpp"), ("segment creation and release", L + "memory.cpp"), ("handler table", L + "decoder_cache.cpp")],
     "metamorphic random testing (together vs alone), thread-schedule stress with the thread sanitizer", "Generated-case search; thread schedules are those the operating system produces. Installing system-call handlers while machines run in other threads is not covered.",
     ["registers", "memory", "printed output", "exceptions", "lifetime of decoded code"])

prop("C01", "Guest code cannot escape, read hidden memory or change read-only memory",
     "Whatever code a guest runs, in every dispatch mode and with every built-in system call, native function, thread and signal feature enabled, it can change only its own registers and the writable part of its memory, and nothing it does depends on memory below its readable range or on host memory. Read-only guest memory and host memory are never written, and the only thing that reaches the host is a machine exception, after which the machine is still usable.",
     ["inputs"], "all guest programs x register and memory contents x dispatch modes x enabled features",
     "Isolation is a statement about hostile programs; tests run well-behaved ones, and a single unchecked access in one handler of one dispatch mode breaks it.",
     [L + "memory_inline.hpp", L + "memory_rw.cpp", L + "memory.hpp", L + "la_instr_impl.hpp", L + "bytecode_impl.cpp", L + "machine_accelerate.cpp", L + "linux/syscalls.cpp", L + "linux/syscalls_threads.cpp", L + "posix/threads.cpp"],
     [("access checks", L + "memory_inline.hpp"), ("bulk access", L + "memory_rw.cpp"), ("system calls", L + "linux/syscalls.cpp"), ("native functions", L + "machine_accelerate.cpp")],
     "hostile-program fuzzing with guard pages, address sanitizer and a two-run secrecy relation", "Generated-case search. The few bytes of over-allocation behind the arena count as part of it.",
     ["arena contents", "registers", "output", "exceptions", "host memory"])

prop("C25", "Guest threads are scheduled and synchronised exactly as documented",
     "With the thread system calls installed, guest threads run cooperatively in first-come-first-served order: only yields, futex waits, thread creation and exits switch, and each thread finds every register (general, floating-point, vector, condition flags) and its program counter exactly as it left them, except for the defined result. A futex wait blocks only while the word has the expected value, a wake resumes at most the given number of waiters of exactly that word and a matching bitset in order and returns how many, clone and clone3 create threads with the given stack, TLS and tid locations, exit clears the 4-byte clear_child_tid word and wakes its waiter, an exited or killed thread never runs again, and when every thread is blocked the main thread continues instead of hanging.",
     ["inputs", "schedules", "histories"], "all guest thread programs, thus all schedules they cause",
     "Tests run one threaded program with a fixed schedule; lost wakeups, stale waiters and clobbered registers need particular interleavings.",
     [L + "posix/threads.hpp", L + "posix/threads.cpp", L + "linux/syscalls_threads.cpp"],
     [("scheduler and futex queues", L + "posix/threads.hpp"), ("thread system calls", L + "linux/syscalls_threads.cpp")],
     "model-based random testing of generated thread programs", "Generated-case search. The limit on the number of threads is not asserted.",
     ["registers of every thread", "order of execution", "shared memory", "scheduler queues"])

prop("C18", "Linux system calls do what a guest program may rely on, and nothing more",
     "For every history of calls and arguments: write and writev to standard output print exactly the given bytes in order and return their number, other descriptors are refused; mmap returns page-aligned zeroed areas inside guest memory that never overlap a live one until memory is exhausted, which is reported; a fixed mapping replaces only its own range, munmap never releases anything else; times are the current time; poll, limits, identity, affinity, links and random bytes follow the fixed sandbox values; sizes and descriptors are taken at their ABI width. A call changes only its result register and the memory it documents, unreachable pointers fail without damage, and nothing touches the host's files, processes or descriptors.",
     ["inputs", "histories"], "all histories of system calls with all arguments and memory contents",
     "Guest tests make ordinary calls once; odd lengths, wide registers, exhausted memory, reused mappings and bad pointers are input-quantified.",
     [L + "linux/syscalls.cpp", L + "memory.cpp"],
     [("system calls", L + "linux/syscalls.cpp"), ("mappings", L + "memory.cpp")],
     "stateful model-based random testing", "Generated-case search. brk (a stub that always fails) and file-backed mappings are not asserted; an unreachable pointer may raise a machine exception or return -EFAULT.",
     ["result register", "all other registers", "guest memory", "printed output", "exceptions"])

prop("C26", "Signal actions, handlers and alternate stacks behave as installed",
     "For every history: rt_sigaction installs exactly the given handler, alternate-stack choice and mask for that signal and reports the previous ones, so that saving and restoring an action is the identity; sigaltstack does the same for the calling thread's stack; raising a signal with a handler continues at the handler with the signal number as first argument, on the thread's alternate stack exactly if requested; unset and ignored signals do nothing, an unhandled abort ends the program with an exception, invalid signal numbers are refused, and no other register or memory changes.",
     ["inputs", "histories"], "all histories of signal calls, signals, handlers, stacks and threads",
     "Tests install one handler and raise it; restoring, invalid numbers, stacks per thread and masks are not sampled.",
     [L + "linux/syscalls.cpp", L + "posix/signals.cpp", L + "posix/signals.hpp", L + "linux/syscalls_threads.cpp"],
     [("signal calls", L + "linux/syscalls.cpp"), ("delivery", L + "posix/signals.cpp")],
     "stateful model-based random testing", "Generated-case search. Returning from a handler to the interrupted code (there is no signal frame) and delivery to another thread are outside of what the library offers and not asserted.",
     ["program counter", "registers", "guest memory", "exceptions"])

prop("C13", "Words that are not implemented instructions are refused precisely",
     "In every mode, an instruction word which the architecture does not define, or which the library does not implement, is never executed as some other instruction: reaching it raises an illegal-opcode or unimplemented-instruction exception, everything before it has taken effect, and no register or memory has changed because of it.",
     ["inputs"], "all 2^32 instruction words x execution modes x preceding instructions",
     "Tests contain valid instructions only; which of the reserved encodings are caught by the mask of a neighbouring instruction is a question about 2^32 words.",
     [L + "la64.cpp", L + "la_instr.hpp", L + "la_instr_impl.hpp"],
     [("decoding", L + "la64.cpp")],
     "property-based testing against GNU objdump and a state-preservation oracle", "Generated-case search over random words, biased to near misses of real instructions.",
     ["exceptions", "registers", "guest memory"])

prop("C27", "Disassembly names the instruction and operands that a word encodes",
     "For every instruction word that the library decodes, the text of cpu.to_string is the mnemonic, registers and immediates that the word encodes by the architecture (as GNU objdump prints them, up to the documented aliases such as nop, move and li); words that are no instruction are not printed as one, and every implemented instruction is printed.",
     ["inputs"], "all 2^32 instruction words",
     "Tests print a handful of instructions; every printer has its own field extraction, and only some register numbers or immediates show a wrong one.",
     [L + "la_instr_printers.hpp", L + "la64.cpp"],
     [("printers", L + "la_instr_printers.hpp"), ("decoding", L + "la64.cpp")],
     "differential property-based testing (GNU objdump)", "Generated-case search.",
     ["disassembly text"])

prop("C29", "Compiled programs compute what they compute natively",
     "A statically linked C or C++ program for Linux built by the standard toolchain, whose behaviour the language defines, produces the same results and exit status in the guest as its host build does, with every execution mode and however it is sliced by instruction limits, as long as it uses only implemented instructions and system calls.",
     ["inputs"], "all well-defined programs x compiler options x execution modes x slice sizes",
     "Tests run a handful of fixed programs; compilers combine instructions, relocations and library calls in ways that depend on the program.",
     [L + "elf_loader.cpp", L + "bytecode_impl.cpp", L + "la_instr_impl.hpp", L + "linux/syscalls.cpp", L + "posix/threads.cpp", L + "linux/syscalls_threads.cpp"],
     [("start-up", L + "elf_loader.cpp"), ("execution", L + "bytecode_impl.cpp")],
     "differential random program testing (generated C/C++, host build as oracle)", "Generated-case search with a csmith-like generator; programs that need unimplemented instructions are rebuilt without vector instructions or skipped, and counted.",
     ["guest memory", "exit status", "exceptions"])

prop("C30", "The tail-call dispatch behaves as the other execution modes do",
     "A library built with LA_TAILCALL_DISPATCH executes every program with the same registers, memory, program counter, host calls, exceptions, instruction counts and limit behaviour as the architecture reference, single stepping and the computed-goto build define, with and without instruction counting, including after system calls that move the program counter, stop or limit the machine, and across execute segments.",
     ["inputs", "histories"], "all programs, initial states, limits and host calls x the two tail-call dispatch loops",
     "The repository's tests run in the default build only; the tail-call build has its own dispatch loops, jump and system-call handling.",
     [L + "tailcall_dispatch.cpp", L + "tailcall_inaccurate_dispatch.cpp", L + "bytecode_impl.cpp", L + "instruction_counter.hpp"],
     [("dispatch", L + "tailcall_dispatch.cpp"), ("uncounted dispatch", L + "tailcall_inaccurate_dispatch.cpp")],
     "model-based property testing of a second build (clang, LA_TAILCALL_DISPATCH=ON)", "Generated-case search with the harnesses of the other execution properties.",
     ["registers", "guest memory", "program counter", "exceptions", "instruction counter"])

prop("C31", "The command line emulator runs the program it is given and reports truthfully",
     "`laemu [options] program [args]` runs the program with exactly those arguments (whatever they look like) and the documented environment; standard output is exactly what the program writes followed by the documented report; the exit status is the program's exit code, and failures (exceptions, exhausted fuel, files that are not programs, memory that is not there, bad command lines) end with a message on standard error and a nonzero status, never with a crash; options change what is reported or limited, not what the program computes; the reported instruction count is the number executed.",
     ["inputs"], "all programs x command lines",
     "No test runs the emulator as a process; its command line, modes and reports are used by everyone who uses the project without programming against it.",
     ["emulator/src/main.cpp", L + "machine.cpp", L + "machine_bytecode_stats.cpp"],
     [("command line", "emulator/src/main.cpp"), ("program start", L + "machine.cpp"), ("statistics", L + "machine_bytecode_stats.cpp")],
     "property-based testing of the emulator process: generated programs and command lines against their own text and the library's single stepping",
     "Time-dependent numbers are only checked for their form; with --verbose the extra messages are only searched for.",
     ["standard output", "standard error", "exit status"])

prop("C32", "Memory that the host provides works like the machine's own, and reset clears it",
     "A machine that is given an arena by the host (custom_arena_pointer and custom_arena_size, used exactly when the size is at least memory_max) loads and runs every program as it does in memory of its own of the same size; it touches nothing outside the given bytes, does not free them, leaves them untouched when destroyed, and host and guest see each other's writes at once; the estimate for placing machine and arena together fits both. A buffer that was used before still loads exactly. Memory::reset() zeroes all guest memory, drops all decoded code, changes nothing outside the arena, and leaves a machine that can be loaded and run again like a new one.",
     ["inputs", "histories"], "all programs x kinds, sizes and placements of host memory",
     "Tests never donate memory or reset it; the emulator always does. Failures depend on alignment, kind and earlier contents of the buffer.",
     [L + "memory.cpp", L + "elf_loader.cpp", L + "machine_inline.hpp", L + "common.hpp"],
     [("donated arena", L + "memory.cpp"), ("loading into used memory", L + "elf_loader.cpp"), ("placement estimate", L + "machine_inline.hpp")],
     "differential and metamorphic random testing: donated against own memory, after reset against the first run, with guard bytes",
     "Generated-case search. Areas outside the program's segments of a used buffer (heap, stack) keep old contents, which is not judged.",
     ["registers", "memory", "exceptions", "bytes around the buffer"])

prop("C33", "Binary translation executes exactly what the interpreter does",
     "In a library built with LA_BINARY_TRANSLATION, translated code leaves every program with the same registers, memory, program counter, host calls, exceptions (nothing that executed before a fault is lost), completion, exact instruction counts and limits as the interpreter, whatever the translation options, the compiler failing, or the point at which translated code takes over from the interpreter; it never touches host memory outside the guest's, masked accesses included; and machines share translated code only when it means the same for both.",
     ["inputs", "histories"], "all programs, initial states, limits, host calls and translation options",
     "The repository's tests run without binary translation; its code generator repeats the semantics of every instruction, system call and fault in generated C.",
     [L + "tr_emit.cpp", L + "tr_translate.cpp", L + "tr_compiler.cpp", L + "tr_api.cpp", L + "threaded_dispatch.cpp", L + "bytecode_impl.cpp", L + "memory.cpp"],
     [("code generation", L + "tr_emit.cpp"), ("entry and callbacks", L + "tr_compiler.cpp"), ("taking over", L + "bytecode_impl.cpp")],
     "model-based property testing of a build with binary translation, against the reference CPU",
     "TinyCC itself is not available offline: the generated C is compiled by gcc (wrapping arithmetic, no aliasing assumptions, no unwind tables). The option that leaves memory accesses unchecked gives up faults, which are then not asserted.",
     ["registers", "guest memory", "program counter", "exceptions", "instruction counter", "host calls"])

prop("C34", "With masked memory every guest address means itself modulo 2^N",
     "In a library built with LA_MASKED_MEMORY_BITS=N, guest memory has exactly 2^N bytes; every load, store and atomic access of a program reads or writes the bytes at its address modulo 2^N and nothing outside the memory, in every execution mode and in translated code, and otherwise programs execute as they do without masking; loading places segments, heap and stack inside 2^N bytes or refuses, whatever memory size is asked for or donated; and the range checks of the host's memory functions hold against 2^N.",
     ["inputs"], "all programs, addresses, memory sizes and donated arenas x build options",
     "The repository's tests run with masking disabled; the option replaces every bounds check by an address computation.",
     [L + "memory_inline.hpp", L + "memory.cpp", L + "memory_rw.cpp", L + "tr_emit.cpp", L + "elf_loader.cpp"],
     [("masked accesses", L + "memory_inline.hpp"), ("sizes", L + "memory.cpp"), ("translated accesses", L + "tr_emit.cpp")],
     "model-based property testing of masked builds against a reference CPU with a wrapping memory",
     "N=16 and N=32 are built, with and without binary translation. Accesses that straddle the end of memory, writes to code, and instruction fetches beyond the code are not judged.",
     ["registers", "guest memory", "exceptions", "bytes around donated memory"])

prop("C35", "The debugger shows the execution as it happens, and changes nothing",
     "DebugMachine executes a program exactly as single stepping does; it prints, as asked, every executed instruction once and in order with its address, function, offset and disassembly, and the registers as they are after it; each call of simulate and vmcall runs up to its own limit of instructions; vmcall passes its texts, terminated and on an aligned stack, in the argument registers, ends when the function returns, and returns its value; beside a disassembler, instructions that it shows differently, and only those, are reported, and none is executed when execution is to stop there.",
     ["inputs", "histories"], "all programs, symbol tables, limits, arguments and option combinations",
     "Tests never look at the debugger's output or limits; the trace is what users rely on when a guest misbehaves.",
     [L + "debug.cpp", L + "debug.hpp", L + "cpu.cpp", L + "machine_vmcall.hpp"],
     [("debugger", L + "debug.cpp"), ("register text", L + "cpu.cpp")],
     "model-based property testing: printed traces parsed and compared with the reference CPU's execution",
     "Spacing of the output is not judged; symbol lookup and disassembly themselves are C28 and C27.",
     ["standard output", "registers", "guest memory", "instruction counter", "exceptions"])
