"""level notes of the checks (MANIFEST.json) and reasons for properties that are not claimed"""
BASE = 'Every obligation generated from the current source is decided for all inputs; trusted: the clang front end, the VC generator in lpv/, z3/cvc5 and the library contracts named in the evidence. '
NOTES = {
    'P01': BASE + 'Both directions are verified against one description of the encoding, including the generated schema code; trusted is the FlatBuffers run time (builder and read accessors) as an abstract store of strings, vectors and tables. Structural induction over finite trees.',
    'P02': BASE + 'The copy is proved node by node against a recursive contract: structural identity of children is assumed from the contract (structural induction over finite trees); fresh nodes form a ghost set that no later write may touch.',
    'P03': BASE + 'Recursive contract, structural induction over finite trees; comparison of doubles is a symmetric relation.',
    'P04': BASE + 'Dictionaries are finite maps, lists sequences; every operation is verified against its effect on one node with all others framed.',
    'P05': BASE + 'Strings are exact sequences; recursive contract over the path.',
    'P06': BASE + 'The JSON library is a contract over an abstract document (type, value, items, keys of every node); structural induction over finite documents.',
    'P07': BASE + 'Strings are exact sequences.',
    'P08': BASE + 'Strings are exact sequences.',
    'P09': BASE + 'Queue drain and distribution loops are cut by invariants; the deliveries are a ghost sequence; other threads interfere only where no lock is held.',
    'P10': BASE + 'The message queue is a sequence with a rely/guarantee step for the other threads at every unlocked point; the order of entry is a ghost sequence.',
    'P11': BASE + 'Registries are finite maps; start of a bus thread is a ghost effect.',
    'P12': BASE + 'Registries are sequences of shared objects; loops cut by inferred invariants.',
    'P13': BASE + 'Payload trees are verified with the copy contract of P02 and the other datagram operations in place; publishing and the callbacks are ghost records; freshness of an id is that it is newly generated (P25 and the replay decide the generator).',
    'P14': BASE + 'Ghost set of held locks; the lock belonging to a collection is the one the majority of operations hold. Sequentially consistent interleaving; the replay uses ThreadSanitizer.',
    'P15': BASE + 'Memory is a set of byte blocks with length and liveness; sizes below 2^61.',
    'P16': BASE + 'Strings are exact sequences.',
    'P17': BASE + 'POSIX directory calls are contracts with a ghost stream; the loop is cut by an inferred invariant.',
    'P18': BASE + 'Registries are finite maps; the creation function of the plugin is an unknown function whose calls are recorded; child bus creation by the contract P11 proves.',
    'P19': BASE + 'Counts per instance, template and library are ghost functions; unloading, stopping and the manager are separate functions verified against each other\'s contracts; std::thread is a contract (joinable until joined).',
    'P20': BASE + 'dlopen/dlsym/dlclose are contracts with ghost open counts per handle; what a library exports is an unknown but fixed set; registries are finite maps.',
    'P21': BASE + 'Loading, reading, running and unloading are contracts proved by P20, P22, P10 and P19; IsStopped is evaluated (real body) at every one of these events.',
    'P22': BASE + 'The document is an abstract datagram (contracts of P04 and P06); each request is checked against the next listed entry, the loop is tied to the entries by an invariant.',
    'P23': BASE + 'The ZeroMQ functions are contracts (parts of messages as byte blocks); the installed callback is verified for each combination of roles; serialisation by the contract P01 proves, sender marks by P07.',
    'P24': BASE + 'The indentation loop is cut by an inferred invariant; ghost output and held-lock state.',
    'P25': BASE + 'snprintf and the random distributions are contracts over all their outcomes.',
    'P26': BASE + 'Lists are sequences with out-of-range access obligations.',
    'P27': BASE + 'What may be read in a block is a set of facts, each read requires its fact, and only the FlatBuffers verifier (trusted) establishes facts; the generated Verify functions are verified to establish all the accessors need. Recursive contract over accepted tables.',
    'P28': BASE + 'Termination by ranking arguments: every loop of the run loop, the distribution and the other bus operations has a proved variant, the run loop one for iterations that begin after the stop; the running flag is a rely (only cleared by others). Fairness of mutexes and of timed waits is assumed.',
    'P29': BASE + 'Interference is the real callback itself, executed at every point where another thread may run it (no lock held that it takes) and after the call has returned with its frame removed; RequestAsync by the contract P13 proves; lock sets over what both sides share.',
}
NA = {}
