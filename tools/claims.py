BASE = ('Every obligation generated from the current source is discharged for all inputs, capacities, cursor positions and loop iterations (no bound). '
        'Trusted: the IR-level verifier in /verif/engine, clang, z3/cvc5, contracts on the C++ standard library. ')
CL = {p: BASE for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C19 C20 C21 C22 C23'.split()}
NA = {}
NA['C17'] = 'three threads racing inside resize(): the buffer access flags live in the buffer that is deleted and are not atomic; no contract within reach (no concurrent separation logic verifier for this C++) can express or decide it'
NA['C18'] = 'liveness under fair scheduling: deductive contracts here decide safety (partial correctness); eventual progress of blocked threads is out of reach'
