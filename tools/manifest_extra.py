HOOKS = {"guard": "cfg(dice_sim)", "enable": "RUSTFLAGS=--cfg dice_sim", "source_commits": ["3558da926d03cd1b45630e2c0e92f30dedac3219", "2c1852bf01e891635d7397fec9a7b4a64b79253d"]}
CHECKS["C13"] = ("seeded storage faults (torn, truncated, spliced, overwritten, flipped) on source files, compilation monitored and compared with an independent recogniser of the language", "Seeded search: no violation in the runs of the tier. Non-text files are out of scope (they cannot become a Source); nesting depth stays below what exhausts the stack.")
CHECKS["C14"] = ("write failures injected at every write and at seeded byte counts of the sink, output compared with the full text", "Seeded search: no violation in the runs of the tier; sinks fail as fmt::Write sinks do.")
CHECKS["C15"] = ("file-system calls of the real loader interposed: errors, short and interrupted reads, files, links and directories changed at seeded points; outcome compared with the files' contents", "Seeded search: no violation in the runs of the tier. Assumes that a directory on the resolved path is not replaced by a link between resolution and opening. The rest of dice-runtime does not compile and is left out by the guarded hook.")
CHECKS["C11"] = ("simulated entropy (seeded bytes, interrupted and short supply), seeded histories of earlier compilations, each environment a fresh process; results compared", "Seeded search: no violation in the runs of the tier, given entropy that does not repeat.")
CHECKS["C12"] = ("seeded scheduler over real threads stopped at branches, memory accesses, allocations and futex waits, with spurious wake-ups; results compared with those of each task alone", "Seeded search: no violation in the runs of the tier. Memory is sequentially consistent: reordering by the processor is not simulated.")
CHECKS["C21"] = ("programs inflated to seeded sizes around every limit of the encoding run against a simulated host, history compared with a reference evaluator", NOTE)
CHECKS["C22"] = ("a seeded edit breaks one rule at a seeded place of one file; verdict and location checked, and the program that imports the rejected file run against a simulated host with faults, history compared with a reference evaluator", NOTE)
CHECKS["C19"] = ("seeded programs run by the sources of the real interpreter against a simulated host: failures, malformed values, module-load failures, aborted activations, callback schedules; history compared with a reference evaluator", "Seeded search: no violation in the runs of the tier. The interpreter's own files are compiled in a crate of /verif that supplies the values, stack and runtime they import, because dice-runtime as a whole does not compile; those are stand-ins, as is the host. Arithmetic wraps as in a release build; limits on depth and steps belong to the stand-ins.")
CHECKS["C20"] = ("seeded histories of heap and stack operations with collections started, stepped and finished between any two of them, in an allocator that poisons freed memory; every value read back and every block accounted for, compared with a reference model", "Seeded search: no violation in the runs of the tier. Operations are issued by the simulator in place of the interpreter, which does not compile with the collected heap.")
CHECKS["C23"] = ("seeded histories of heap and stack operations with collections and ill-typed uses between them, compared with a reference model", "Seeded search: no violation in the runs of the tier. Operations are issued by the simulator in place of the interpreter, which does not compile with the collected heap.")
CHECKS["C24"] = ("seeded programs that use the standard library, run by the sources of the real classes and interpreter against a simulated host whose callbacks fail, return ill-typed values, re-enter and abort; history compared with a reference evaluator", "Seeded search: no violation in the runs of the tier. The files of classes and interpreter are compiled in a crate of /verif that supplies the values, stack and runtime they import, because dice-runtime as a whole does not compile; those are stand-ins, as is the host. How an object or a function is written as text is not claimed. Integers wrap as in a release build.")
CHECKS = dict(sorted(CHECKS.items()))
