"""What the manifest says of each check: the deciding method, and what its answer is worth."""
MODEL = 'stateful model-based property testing'
TECHNIQUE = {
    'C01': 'property-based testing: structured document generator against an independent JSON reader (differential), with coverage-guided libFuzzer',
    'C02': 'property-based testing and fuzzing: grammar mutation, token soup and raw bytes against an independent JSON recogniser, with coverage-guided libFuzzer; deep nesting by size sweep',
    'C03': 'property-based testing: round trip of generated value trees through two readers, with coverage-guided libFuzzer (thorough)',
    'C04': MODEL + ': generated histories over four values against a value model, with coverage-guided libFuzzer',
    'C05': MODEL + ': generated histories over three vectors against std::vector, with coverage-guided libFuzzer',
    'C06': MODEL + ': generated histories over three tables and seven hash functions against std::map, with coverage-guided libFuzzer',
    'C07': MODEL + ': generated histories over string-keyed containers, with precomputed hash collisions, against std::map, with coverage-guided libFuzzer',
    'C08': MODEL + ': generated histories with self-recording keys and values and allocation accounting, with coverage-guided libFuzzer',
    'C09': MODEL + ': generated call histories with scripted hooks against the permitted call order, with coverage-guided libFuzzer',
    'C10': 'property-based testing and fuzzing: generated and damaged argument lists, keys and ciphertexts under sanitizers and stand-ins, with coverage-guided libFuzzer',
    'C11': 'differential property testing: the same generated call sequences over three builds, environments, memory contents, clocks and histories',
    'C12': 'property-based testing of schedules: generated sets of concurrent invocations under ThreadSanitizer, against the sequential results',
    'C13': 'property-based testing: generated keys, messages and ciphertexts against modular exponentiation, and round trip, with libFuzzer (thorough)',
    'C14': 'property-based testing: round trip and differential against a table, with coverage-guided libFuzzer',
    'C15': 'differential property testing against OpenSSL scrypt and PBKDF2, with libFuzzer (thorough)',
    'C16': 'property-based testing: reference and involution (metamorphic), with coverage-guided libFuzzer',
    'C17': MODEL + ': generated documents and chains of selections against a reader that remembers positions, with coverage-guided libFuzzer',
    'C18': 'property-based testing: published rates as the oracle over generated calls and orders of quoting and running, with libFuzzer (thorough)',
    'C19': 'property-based testing: generated command lines against a reference reading and a direct call of the operation',
    'C20': 'property-based testing: generated numbers against schoolbook arithmetic, and round trip, with coverage-guided libFuzzer',
    'C21': 'metamorphic property testing: substrings, permutations and changes of case of generated strings, with coverage-guided libFuzzer',
    'C22': MODEL + ': generated movements against positions and algorithms against plain pointers, with coverage-guided libFuzzer',
    'C23': MODEL + ': generated histories with self-recording elements and allocation accounting, with coverage-guided libFuzzer',
    'C24': 'property-based testing: repetition of generated invocations with allocation accounting, with libFuzzer (thorough)',
    'C26': MODEL + ' with injected faults: every request for memory of every operation of a generated history is refused in turn, against models of the objects',
    'C27': MODEL + ': accesses that cannot be served within generated histories, errors sent on generated journeys, against the list of diagnoses and the contents before',
    'C28': 'metamorphic property testing: generated shapes of documents and programs on containers, costs at one size against costs at 32 times that size',
    'C29': MODEL + ' and differential testing: generated scripts of loading, calling and unloading operation libraries of many builds, against a reference and against the operations called directly',
    'C30': 'differential property testing: generated strings against independent implementations of the published functions, in builds with signed and unsigned characters, with coverage-guided libFuzzer',
    'C31': MODEL + ': generated programs of allocating, constructing, destroying and releasing against a map of the blocks, with coverage-guided libFuzzer',
    'C32': 'property-based testing: generated invocations, readings and printings between two records of the state of the process (invariant), with libFuzzer (thorough)',
    'C25': 'property-based testing of schedules: generated objects and sets of concurrent reading accesses under ThreadSanitizer, against a single-threaded reading',
}
NOTE = 'Generated-input search against an explicit oracle; it can show a violation, never its absence. '
NOTES = {
    'C32': 'What a process can tell of itself; error queues of libcrypto are left out.',
    'C10': 'Defects of the two example operations that are recorded in KNOWN_FINDINGS are recognised by the arguments that trigger them.',
    'C11': 'Calls the example operations cannot serve (KNOWN_FINDINGS) are left out.',
    'C12': 'Schedules are those the machine produces; races are found by happens-before, so that the accesses need not collide in the run.',
    'C25': 'Schedules are those the machine produces; races are found by happens-before, so that the accesses need not collide in the run.',
    'C26': 'Requests of libcrypto are not refused: what it does without memory is not under test.',
    'C28': 'Processor time is compared with a margin of seven, minima and maxima of seven runs; memory exactly, with a margin of six.',
    'C29': 'Two compilers, with one standard library; RTLD_DEEPBIND is left out, the standard streams do not support it.',
    'C17': 'Indices outside an array are recorded in KNOWN_FINDINGS.',
    'C19': 'Processes of the real tools; a reference reading of the command line.',
}
