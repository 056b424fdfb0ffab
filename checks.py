"""Which generated-case properties decide which listed property, and how many cases."""

VARIANTS = {
    # plain optimised build
    "plain": dict(flags="-O1 -g1"),
    # address sanitizer: host memory safety
    "asan": dict(flags="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer",
                 env={"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_abort=0"}),
}

VARIANTS["tsan"] = dict(flags="-O1 -g1 -fsanitize=thread",
                        env={"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0"})

VARIANTS["tail"] = dict(flags="-O1 -g1 -w", cxx="clang++", cc="clang", cmake=["-DLA_TAILCALL_DISPATCH=ON"])

# binary translation, compiled by a stand-in for TinyCC
VARIANTS["jit"] = dict(flags="-O1 -g1", cmake=["-DJIT=ON"])

MAX_S = {"quick": 240, "thorough": 3000}


def T(harness, prop, quick, thorough=None, variant="plain", **kw):
    d = dict(harness="h_" + harness, prop=prop, quick=quick, variant=variant)
    d["thorough"] = thorough if thorough is not None else quick * 30
    d.update(kw)
    return d


CHECKS = {}


def C(id, rule, *tasks, **kw):
    CHECKS[id] = dict(rule=rule, tasks=list(tasks), **kw)


ISA_RULE = ("Each case draws one implemented instruction, random operand registers, immediates and register, vector and memory contents "
            "(biased to boundary values and aliased operands), executes it in single-step, threaded and inaccurate dispatch and compares the whole "
            "architectural state with an independent reference CPU. Non-trivial: the reference defines the outcome; distinct by instruction word and operand state.")
C("C06", ISA_RULE, T("isa", "isa_int", 1600000))
C("C07", ISA_RULE, T("isa", "isa_llsc", 400000), T("isa", "isa_mem", 1200000))
C("C09", ISA_RULE, T("isa", "isa_fp", 1200000))
C("C10", ISA_RULE, T("isa", "isa_lsx", 1200000))
C("C11", ISA_RULE, T("isa", "isa_lasx", 800000))
PROG_RULE = ("Each case draws a random program (straight-line code of all implemented groups, all branch kinds, loops, indirect jumps, host calls, breakpoints, one or two "
             "execute segments, up to tens of thousands of instructions) with random registers and data; the reference CPU executes it, instructions whose result is architecturally "
             "open being replaced by NOPs. Non-trivial: at least 3 instructions executed; distinct by program text and outcome. ")
C("C02", PROG_RULE + "The real machine runs under a random limit from a random counter.", T("prog", "prog_limit", 70000))
C("C08", PROG_RULE + "The real machine runs it single-stepped and in fast dispatch; single branch instructions are also checked one by one.", T("prog", "prog_ref", 160000), T("isa", "isa_branch", 400000))
C("C14", PROG_RULE + "The real machine runs it in three dispatch modes.", T("prog", "prog_modes", 400000))
C("C15", PROG_RULE + "The real machine runs it in random slices with single steps and host pauses in between, compared at every pause.", T("prog", "prog_slices", 200000))
C("C03", "Each case performs a random sequence of the public memory operations (typed and bulk reads and writes, strings, copies, comparisons, views, execute-segment-free arenas of random layout) or of mapping operations, with addresses biased to range ends and overflow, against a byte-array model with read-only and no-access ranges. Non-trivial: at least one operation succeeded; distinct by operation history.",
  T("mem", "mem_api", 240000), T("mem", "mem_mmap", 120000), T("mem", "mem_api", 40000, variant="asan"))
C("C04", "Each case builds a well-formed ELF file (several segments of random placement, sizes, permissions and file order, zero-initialised tails, optional sections and symbols) and random memory options, loads it and compares image, permissions, executable ranges, entry point, heap/stack layout and program headers with the file. Non-trivial: file loaded; distinct by file contents and options.",
  T("elf", "elf_load", 60000))
C("C05", "Each case damages a generated ELF file (header, program header, section, symbol fields set to boundary values, truncation, bit flips) and random options, then loads, inspects and runs it: only machine exceptions may come out, nothing may touch memory outside the file copy and the arena (address sanitizer), and nothing may leak. Non-trivial: every damaged file; distinct by contents.",
  T("elf", "elf_robust", 120000), T("elf", "elf_robust", 60000, variant="asan"))
C("C28", "Each case builds an ELF file with a random symbol table (overlaps, gaps, zero sizes, duplicates, long names) and compares address_of, lookup_symbol and backtrace with the table. Non-trivial: at least two usable symbols; distinct by table.",
  T("elf", "elf_symbols", 300000), T("elf", "elf_symbols", 60000, variant="asan"))
C("C16", "Each case calls a generated guest function with a random one of 20 argument lists and random values through every entry point (vmcall, limited vmcall, timed_vmcall, preempt in three forms), by address or name, ending in a return, a fault, an exception, a wild jump or an endless loop, and compares everything the callee sees and returns with an independent statement of the calling convention; or interrupts a running program with nested calls. Non-trivial: every call made; distinct by arguments, function and limits.",
  T("call", "call_args", 400000), T("call", "call_nested", 300000))
C("C17", "Each case makes system calls with random numbers, registers and pointers; the handler resolves a random one of 18 argument lists and sets a random kind of result; handler choice, resolved values, refused pointers and registers afterwards are compared with the rules. Non-trivial: every case; distinct by registers and numbers.",
  T("call", "sys_args", 300000), T("call", "sys_dispatch", 300000))
C("C19", "Each case sets up a program start with random argument and environment strings and walks the stack the way a C runtime does. Non-trivial: every case; distinct by string counts and sizes.",
  T("call", "setup_args", 60000))
C("C20", "Each case drives the native heap with a random history of allocations, reallocations and frees (sizes around chunk and arena ends, huge and overflowing ones, wrong and repeated frees), host side or through the guest-visible functions with contents checked, also in guests whose heap lies above 2 GiB, against a model of the live allocations. Non-trivial: at least one allocation; distinct by history.",
  T("heap", "heap_arena", 300000), T("heap", "heap_guest", 120000), T("heap", "heap_high", 6000), T("heap", "heap_guest", 15000, variant="asan"))
C("C21", "Each case calls one accelerated string or memory function with random contents, lengths, alignments and overlaps, pointers near range ends and out of range, and compares result, memory and exception with the C definition over a byte model. Non-trivial: every call; distinct by function, arguments and contents.",
  T("acc", "acc_libc", 300000), T("acc", "acc_libc", 40000, variant="asan"))
C("C22", "Each case performs a random history of operations on guest std::string, std::vector (of numbers and strings), Rust String and Vec views and scoped guest objects, and compares contents, ownership and heap use with host models; or gives them hostile guest memory (lengths, pointers, capacities at boundary values), where only machine exceptions may come out. Non-trivial: at least one operation succeeded; distinct by history.",
  T("guest", "guest_objects", 120000), T("guest", "guest_hostile", 400000), T("guest", "guest_hostile", 30000, variant="asan"), T("guest", "guest_objects", 15000, variant="asan"))
C("C23", "Each case creates, runs, calls, single-steps, accelerates, reloads, evicts and destroys several machines of similar programs (equal and colliding checksums, different lengths, code and memory sizes, sharing on and off), interleaved in one thread or concurrently in several, and requires every observation of a machine to equal the one it makes alone; no decoded code may outlive its machines; machines of one program that may share have one copy of its decoded code (share_effective), and never with one that may not or replaced an instruction; the checksum equals its bitwise definition. Concurrency also runs under the thread sanitizer, and in fresh processes. Non-trivial: at least two machines (histories), every case (threads); distinct by programs and observations.",
  T("share", "share_history", 60000), T("share", "share_effective", 60000), T("share", "share_history", 8000, variant="asan"), T("share", "share_threads", 16000, racy=True),
  T("share", "share_threads", 3000, variant="tsan", racy=True), T("share", "share_decode", 8000, racy=True), T("share", "share_decode", 1500, variant="tsan", racy=True), T("share", "share_crc", 200000))
C("C01", "Each case draws a guest program (random words, instructions with random operands, system calls of the Linux, thread, signal, heap and string groups with boundary arguments and earlier results, accesses through boundary pointers), registers and memory full of boundary pointers, and runs it in one of three dispatch modes, resuming after exceptions, once with each of two contents of the memory it may not read. Afterwards memory that is not writable is unchanged, both runs are equal in every observation, only machine exceptions came out, and nothing outside the arena was touched (guard pages, canary, address sanitizer). Non-trivial: every case; distinct by program and data.",
  T("iso", "iso_guest", 160000), T("iso", "iso_guest", 60000, variant="asan"))
C("C25", "Each case runs a random program of threads (scripts of register arithmetic, yields, futex waits and wakes with bitsets, thread creation by clone and clone3 with random flags, exits, kills, tid queries, shared-memory updates), each step logged by a host system call, and compares every logged state of every thread (all registers), the order of execution, shared memory and scheduler queues with a model in which every thread runs on the reference CPU. Non-trivial: at least one switch; distinct by program.",
  T("thread", "thread_model", 200000), T("thread", "thread_model", 20000, variant="asan"))
C("C18", "Each case makes a random history of up to 40 system calls (output, files, mappings, time, limits, polling, identity, futexes, stubs) with boundary descriptors, lengths, counts and pointers, interleaved with guest writes to its mappings, and compares result, every other register, all mapped memory, printed bytes and exceptions with a model. Non-trivial: at least two calls completed; distinct by calls and arguments.",
  T("sys", "sys_linux", 300000), T("sys", "sys_linux", 40000, variant="asan"))
C("C26", "Each case makes a random history of signal calls (actions set, queried and restored, alternate stacks, tkill and tgkill with set, unset, ignored and invalid signals), compared with a model in the same way; or runs threads that set and raise signals, each with its own alternate stack. Non-trivial: at least three calls completed (or a thread switch); distinct by calls and arguments.",
  T("sys", "sys_signals", 300000), T("thread", "thread_model", 60000))
C("C13", "Each case draws up to 120 instruction words (random operands of every instruction of the architecture table, near misses with flipped bits, random words); those that the GNU toolchain does not know, or that the library does not print, are executed after a random prefix in all three modes. Non-trivial: at least one word was refused and compared; distinct by words.",
  T("print", "decode_reject", 24000))
C("C27", "Each case draws up to 200 instruction words (random operands of every instruction, near misses, random words) and disassembles them with the library and with GNU objdump. Non-trivial: at least one disassembled word compared; distinct by words.",
  T("print", "print_same", 24000))
C("C29", "Each case generates a C or C++ program without undefined behaviour (integer, floating-point and 128-bit arithmetic, arrays, vectorisable loops, calls with up to eleven arguments and structures, switches, recursion, C library calls, setjmp, varargs, atomics, threads, exceptions), compiles it with one of ten option sets for the guest and for the host, and compares every recorded result in fast, uncounted, sliced and single-step execution. Non-trivial: more than 20 results recorded; distinct by source.",
  T("cprog", "c_programs", 400, 20000))
C("C30", "The histories of C02, C06 to C11, C14 to C16, C25 and C23 (see their rules), on a library built with clang and LA_TAILCALL_DISPATCH: single instructions and programs against the reference CPU, the three execution modes against each other, random slices and limits, nested host calls, guest threads. Non-trivial: as for those properties.",
  T("isa", "isa_int", 60000, variant="tail"), T("isa", "isa_mem", 60000, variant="tail"), T("isa", "isa_branch", 60000, variant="tail"), T("isa", "isa_fp", 60000, variant="tail"),
  T("isa", "isa_lsx", 60000, variant="tail"), T("isa", "isa_lasx", 40000, variant="tail"), T("prog", "prog_modes", 40000, variant="tail"), T("prog", "prog_slices", 30000, variant="tail"),
  T("prog", "prog_limit", 10000, variant="tail"), T("call", "call_nested", 10000, variant="tail"), T("call", "call_args", 10000, variant="tail"), T("thread", "thread_model", 15000, variant="tail"))

C("C31", "Each case generates a guest program (prints its arguments, environment and texts, computes, then exits, faults, loops or makes an unknown call), a random command line (every option in its spellings and any order, fuel around the exact instruction count, option-like guest arguments) and runs the emulator as a process: output, exit status and messages are compared with what the program text says and with the library stepping through it; a second property gives it files and command lines it has to refuse. Non-trivial: programs of more than 8 words, every refusal; distinct by program and command line.",
  T("cli", "cli_run", 12000), T("cli", "cli_refuse", 4000))
C("C32", "Each case draws a program, a memory size and a host buffer (allocated, anonymous or shared mapping, any 16-byte placement, exact, larger, too small, or the machine itself placed in front by the library's own estimate), loads one to three machines into it one after the other, and compares loading, a limited run (registers and addresses near the end of memory included) and all memory with a machine that has memory of its own; bytes around the buffer, host writes and reads, replacement of the memory and the buffer after the machine are checked. A second property resets machines with own and donated memory between runs: all zero, no code, then the same program behaves as it did first. Non-trivial: more than three instructions executed in donated memory, or before a reset; distinct by program, sizes and outcome.",
  T("arena", "arena_donated", 60000), T("arena", "arena_donated", 6000, variant="asan"), T("arena", "arena_reset", 60000), T("arena", "arena_reset", 6000, variant="asan"))
C("C33", "On a library built with binary translation (TinyCC, which cannot be fetched here, is replaced by a stand-in that compiles the generated C with gcc and loads it without unwind tables). Each case either translates up to 250 random instructions as one block and executes each from a random state of its own, or a random program in one go, in slices, or with uncounted dispatch, or with the translation taking over while the program runs (deferred, at once, in a thread, never, or failing), or several machines with different layouts and options that share their code, or masked memory accesses at arbitrary addresses; register caching, sharing, masking and the other options are drawn. The whole state, host calls, exceptions, limits and exact instruction counts are compared with the reference CPU. Non-trivial: an instruction or program executed with translation active whose outcome the reference defines; distinct by word and state, or program and outcome.",
  T("jit", "jit_isa", 700, 20000, variant="jit"), T("jit", "jit_prog", 2000, 60000, variant="jit"), T("jit", "jit_live", 1600, 50000, variant="jit"),
  T("jit", "jit_share", 500, 15000, variant="jit"), T("jit", "jit_nbit", 800, 20000, variant="jit"))
for _n in (16, 32):
    VARIANTS["mask%d" % _n] = dict(flags="-O1 -g1", cmake=["-DLA_MASKED_MEMORY_BITS=%d" % _n])
    VARIANTS["jitmask%d" % _n] = dict(flags="-O1 -g1", cmake=["-DJIT=ON", "-DLA_MASKED_MEMORY_BITS=%d" % _n])
C("C34", "On libraries built with LA_MASKED_MEMORY_BITS 16 and 32, without and with binary translation: each case draws a program (or a single access of every kind) whose base registers lie beyond 2^N, anywhere, or at the ends of memory, and compares it, single-stepped, counted, uncounted or in slices, with the reference CPU whose memory has 2^N bytes and takes addresses modulo 2^N; or loads a program at any place with any memory size, own or donated memory of any size, and checks what is loaded, the size, the placement of stack and heap, and host accesses; donated memory lies between guard bytes. Compiled C programs, heap, system call and guest object histories that stay in range also run on the 32-bit build. Non-trivial: accesses and programs with an outcome, every load; distinct by program, addresses and sizes.",
  T("mask", "mask_prog", 60000, variant="mask16"), T("mask", "mask_prog", 30000, variant="mask32"), T("mask", "mask_isa", 300000, variant="mask16"), T("mask", "mask_isa", 150000, variant="mask32"),
  T("mask", "mask_load", 30000, variant="mask16"), T("mask", "mask_prog", 500, 15000, variant="jitmask16"), T("mask", "mask_prog", 500, 15000, variant="jitmask32"),
  T("cprog", "c_programs", 24, 400, variant="mask32"), T("heap", "heap_guest", 6000, variant="mask32"), T("guest", "guest_objects", 4000, variant="mask32"), T("call", "sys_args", 10000, variant="mask32"), T("call", "sys_dispatch", 10000, variant="mask32"))
C("C35", "Each case runs a random program (with function symbols, plain and mangled) in the debugger, in one or several calls with limits, with instructions, registers or both shown, short or long, alone or beside the output of a disassembler that may differ, and compares every line printed with the reference CPU's execution and the whole state, count and flags afterwards; or calls a function through the debugger, with up to eight texts, after other executions, with limits around its length, and compares what it sees, its result and how it ended; or compares a listing of a program with some lines changed, and expects exactly those reported and the machine untouched. Non-trivial: at least three instructions executed, every call, every listing; distinct by program, plan or listing.",
  T("debug", "debug_trace", 24000), T("debug", "debug_call", 60000), T("debug", "debug_compare", 10000))
