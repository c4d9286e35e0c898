G = "Sampled evidence over generated inputs with shrinking, deterministic for a given VERIF_SEED; not a proof. "
T["P01"] = (E, "property-based round-trip testing", G + "Trusts the harness's generators, its independent reference encoder and structural comparison; protocol under test covers every field type, attribute and payload flavour.")
T["P02"] = (E, "property-based testing against a reference encoder", G + "Trusts the independent reference encoder written from the documented layout.")
T["P03"] = (E, "fault-injecting property-based testing (corruption of encodings)", G + "Assumes no 2^-32 checksum collisions beyond those the oracle recognises.")
T["P04"] = (E, "generative fuzzing of mixed streams against the generation record", G + "Streams are generated together with their expected content.")
T["P05"] = (E, "generative fuzzing of damaged streams against a reference scanner", G + "Trusts the reference scanner.")
T["P06"] = (E, "metamorphic property-based testing of incremental readers", G + "Compares every prefix with the complete-input result and the source position.")
T["P08"] = (E, "model-based testing of storage histories", G + "Model is the list of inserted packets; medium is an in-memory stand-in for a file.")
T["P09"] = (E, "model-based testing of append/reload histories", G + "Model is the list of inserted packets; medium is an in-memory stand-in for a file.")
T["P07"] = (E, "property-based testing of filter rules against a predicate model", G + "Predicates are pure functions of the packet, evaluated independently by the model.")
T["P10"] = (F, "crash-point enumeration over generated append histories", G + "Every prefix of the recorded write log of a case (every byte of short ones) is tried; a crash is modelled as a prefix of the written bytes.")
T["P11"] = (E, "fault-injecting property-based testing of storage files", G + "Only packets wholly covered by checksums are used; assumes no checksum collisions.")
T["P12"] = (E, "stateful model-based testing with threads, processes and kills", G + "Real files and advisory locks in a scratch directory; schedules are those the machine produces.")
T["P13"] = (E, "stateful model-based testing", G + "Model is the byte array and the number of consumed bytes.")
T["P14"] = (E, "fault-injecting property-based testing with scripted sinks", G + "Trusts the independent reference encoder.")
T["P17"] = (E, "stateful and concurrent property-based testing on real files", G + "Schedules are those the machine produces; they are not enumerated.")
T["P18"] = (E, "property-based round-trip and refusal testing over all 36 length pairs", G + "Trusts the independent frame encoder.")
T["P19"] = (E, "differential property-based testing of borrowed and owned decoders", G + "Trusts the reference encoder and structural comparison.")
T["P20"] = (F, "fault-injecting model-based testing of sources and media", G + "Faults are injected at generated operations of in-memory sources and media.")
T["P21"] = (F, "model-based testing of readers at every stage of recorded appends, with failing reads", G + "Stages of an append are prefixes of its recorded write calls; failing reads and seeks are injected at generated calls.")
T["P22"] = (E, "property-based testing against an independent encoder of storage files, both directions", G + "Trusts the independent encoder of the storage layout.")
T["P16"] = (E, "generative fuzzing with structure-aware hostile inputs and an allocation meter", G + "Overflow checks are on, so wrap-around counts as a panic; single allocations are metered per decoder call.")
T["P15"] = (E, "generative compilation testing (random programs) with codec-law oracles", G + "Random protocol definitions are compiled against /repo and run; trusts the generator of definitions (its assumptions are listed in the evidence) and the independent encoder in progen/rt.")
T["P23"] = (E, "generative testing of the compiler macro with pairs of unsupported and supported programs", G + "Decided by compiling generated programs; for errors only the compiler can find (unknown names) any error counts.")
T["P24"] = (E, "generative testing of protocol definitions over all combinations of features", G + "All 8 combinations are built in every run; definitions and values are sampled.")
T["P25"] = (E, "differential generative fuzzing of all read paths with self-consistent hostile inputs", G + "The read paths are compared with each other, and their end with the header of the packet.")
