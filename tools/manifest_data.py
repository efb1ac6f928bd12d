TV = "TLA+ specification evaluated by TLC; trace validation of recorded implementation calls against it"
NOTE = ("Every claim about the implementation is a TLC verdict on a recorded call or history. Natively screened calls "
        "only select which calls are recorded; inputs are bounded by the run's budget.")
CHECKS = {p: (TV, "model_checking", NOTE) for p in
          "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C22 C23 C24 C25 C26 C32 C33 C34".split()}
SIM = ("TLA+ specification and model checked by TLC; histories of the real code under a simulated machine and scheduler "
       "validated against it")
SIMNOTE = ("The library's own sources are compiled against a stand-in for core's atomics, assembly and cpuid; every schedule is "
           "a history judged by TLC. Schedules are enumerated for small cases and random beyond. Assumes sequentially "
           "consistent memory apart from the explicit barrier rule.")
CHECKS["C19"] = (SIM, "model_checking", SIMNOTE)
CHECKS["C27"] = (SIM, "model_checking", SIMNOTE)
CHECKS["C20"] = ("TLC explores all interleavings of the machine code of each routine, executed by a TLA+ model of the AArch64 "
                 "instructions, with interfering writes and lost reservations", "model_checking",
                 "The machine words are assembled from the library's own assembly at check time. Operand values from a lattice; "
                 "interference bounded (1 to 2 writes). Ordering is checked on the instructions' acquire/release attributes; "
                 "LDXP counts as single-copy atomic.")
CHECKS["C21"] = (TV, "model_checking",
                 "The routines' own assembly, for x86_64, SGX, x86 and x86 UEFI, runs on a private stack of untouched pages; every "
                 "call is judged by TLC. The probing loop is model-checked for all offsets and sizes of a small page.")
for p, what in (("C28", "32-bit ARM"), ("C30", "AVR, PowerPC, SPARC, RISC-V, x86, UEFI, WebAssembly and AArch64")):
    CHECKS[p] = (TV + "; routines in assembly executed as machine words by a TLA+ model of the processor", "model_checking",
                 "The library's sources, with the predicates of %s chosen, are compiled for the host and called through their symbols; "
                 "pointers keep the host's width. Assembly is assembled for its target and executed in the specification, for "
                 "operands from a lattice and at random." % what)
CHECKS["C29"] = (TV + "; AArch64 and LoongArch functions executed as machine words by a TLA+ model of the processor", "model_checking",
                 "AArch64 and LoongArch code is compiled for its target and executed in the specification on a lattice and at random; "
                 "x87 code runs on the host; WebAssembly instructions are replaced by host instructions of the same meaning.")
CHECKS["C31"] = ("TLA+ specification model-checked by TLC; verdicts of the built tool on generated archives validated against it", "model_checking",
                 "Objects are ELF, COFF and Mach-O files written byte by byte; rustc and cargo are replaced by scripts that print their "
                 "recorded output. Cases the tool's documentation leaves open are not generated.")
CHECKS["C35"] = ("TLA+ model of the Hexagon processor executes the assembled routines; TLC judges every execution against the TLA+ "
                 "specification of the operation", "model_checking",
                 "The files are assembled at check time and translated word for word into a TLA+ module. Operands from a lattice and at "
                 "random, all rounding modes. The tables behind sfrecipa and sfinvsqrta are modelled by their rule; status flags in "
                 "USR, timing and slots are not modelled. __clear_cache runs on the host with its instructions recorded.")
CHECKS["C36"] = ("TLA+ specification of the exported symbols as a function of the target and the features; TLC compares it with the "
                 "symbols of the crate as configured and expanded for every target, and explores it over all combinations of facts", "model_checking",
                 "The build script runs as cargo would run it for the target, predicates on the target get their value there, and the "
                 "compiler expands the crate. Quick: every target with the default features, a quarter with the others. Code for other "
                 "targets is not generated; the host's symbol table is compared with the object file. The feature c (C sources) is left out.")
NA = {}
HOOKS = {"guard": "none", "enable": "none", "source_commits": []}
NOTES = "Specification in /verif/tlc/spec (TLA+); see DESIGN.md."
