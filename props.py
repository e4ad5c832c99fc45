"""Which harness entries decide which property, and within what bounds."""
COMMON = [
    'floating-point numbers of the quantum state, angles and samples are treated as real numbers; |x| <= k with k <= 1e-7 (the simulator\'s "nearly zero" tests) is read as x = 0',
    'the IR is the release build (overflow wraps, panic=abort) with link-time optimisation; the Rust standard library, num-bigint, num-complex, ndarray, rustc-hash are executed as compiled, not modelled',
    'the rand crate is replaced by arbitrary draws in [0,1) (a function of stream seed and position); the allocator never fails below 256 MB; libm functions are exact',
    'every reported counterexample is replayed against the natively compiled code first',
]
THIN = ' Coincidental zeros of amplitudes or angles are explored up to %s per path (others are listed as cuts).'
def J(crate, entry, shards=1, **k): return dict(crate=crate, entry=entry, shards=shards, **k)
PEND = '8 kinds of deferred work (none, H, Rx, Ry, H+Ry, Rx+Ry, Y, S·X·H)'
PROPS = {
    'S01': dict(jobs=[J('sim', 'h_s01a', 11), J('sim', 'h_s01b', 11, thin=1), J('sim', 'h_s01q', 6), J('sim', 'h_w01', 11, thin=0, thin_thorough=1), J('sim', 'h_h01', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='one qubit entangled with a spectator: every sequence of 3 of the 11 gates; two qubits with %s on each, then a gate on the first and one on each; 10,002 equal gates on one qubit (queue limit). Symbolic amplitudes and angles. Also 24 (240 thorough) fixed long sequences of gates on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '1-2 (3 thorough)' + ' Also each gate on one of 67 or 131 qubits (three of them, around the word boundaries, in an arbitrary state).'),
    'S02': dict(jobs=[J('sim', 'h_s02a', 12, thin=1, thin_thorough=2), J('sim', 'h_s02b', 12, thin=1, thin_thorough=2), J('sim', 'h_s02c', 12, thin=0, thin_thorough=1), J('sim', 'h_s02d', 12, thin=1), J('sim', 'h_s02e', 12, tier='thorough', thin=1), J('sim', 'h_w02', 12, thin=0, thin_thorough=1), J('sim', 'h_s02q', 6), J('sim', 'h_w22', 6, thin=1), J('sim', 'h_h02', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='all 12 controlled gates with 0, 1, 2 controls (3 thorough), %s on control and target (4-6 kinds with two controls), pairs of controlled gates with exchanged roles; symbolic amplitudes on 2-4 qubits (3-4 non-zero entries), symbolic angles. Also 24 (240 thorough) fixed long sequences of gates and controlled gates on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '0-1 (2 thorough)' + ' Also each controlled gate among 67 or 131 qubits, and with 3-9 controls; 10,002 equal controlled gates (queue limit).'),
    'S03': dict(jobs=[J('sim', 'h_s03a', 16, thin=1), J('sim', 'h_s03b', 4, thin=1), J('sim', 'h_s03c', 16, thin=0, thin_thorough=1), J('sim', 'h_s03d', 12, thin=0), J('sim', 'h_w03', 8, thin=0, thin_thorough=1), J('sim', 'h_w23', 6, thin=1), J('sim', 'h_h03', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='every Pauli string on 1, 2 and 3 targets and 12 strings on 4, 0 or 1 control, two target orders, %s on the qubits involved; symbolic amplitudes and angle. Also 24 (240 thorough) fixed long sequences of gates, controlled gates and Exps on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '0-1' + ' Also two targets among 67 or 131 qubits, and 18 Pauli patterns on 4-9 targets.'),
    'S04': dict(jobs=[J('sim', 'h_s04a', 6, thin=1, thin_thorough=2), J('sim', 'h_s04b', 6, thin=1, thin_thorough=2), J('sim', 'h_s04c', 5), J('sim', 'h_s04d', 6, thin=1), J('sim', 'h_w04', 4, thin=0, thin_thorough=1), J('sim', 'h_w24', 4, thin=1), J('sim', 'h_h04', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='symbolic 2x2 matrices with 0-2 controls and symbolic 4x4 matrices (3 sparsity patterns) with 0-1 control on 3 qubits, every order of qubits, deferred work on target and first control, gaps left by released qubits; sizes 1..5 x 1..5 against 0-2 targets for the rejection. Also 24 (240 thorough) fixed long sequences of gates, controlled gates and matrices on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' + THIN % '1 (2 thorough)' + ' Also 2x2 matrices among 67 or 131 qubits, and an 8x8 generalised permutation with 3-6 controls.'),
    'S05': dict(jobs=[J('sim', 'h_s05a', 8, thin=1, thin_thorough=2), J('sim', 'h_s05b', 7, thin=1, thin_thorough=2), J('sim', 'h_s05c', 11, thin=1), J('sim', 'h_s05d', 8), J('sim', 'h_w05', 8, thin=0, thin_thorough=1), J('sim', 'h_w25', 4, thin=1), J('sim', 'h_h05', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='one qubit of two with %s on each; every non-empty subset of three qubits in two orders; two measurements with a gate between; every basis state of three qubits through sequences of 2-5 measurements with certain outcomes and one with a random one; symbolic amplitudes, angles and sample. Also 24 (240 thorough) fixed long sequences of gates, controlled gates and measurements on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '1 (2 thorough)' + ' Also subsets of three among 67 or 131 qubits, and parities of 4-11 qubits.'),
    'S06': dict(jobs=[J('sim', 'h_s06a', 7, thin=1, thin_thorough=2), J('sim', 'h_s06b', 8, thin=1, thin_thorough=2), J('sim', 'h_w06', 8, thin=0, thin_thorough=1), J('sim', 'h_w25', 4, thin=1), J('sim', 'h_h06', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='every non-empty subset of three qubits in two orders, %s, two gates afterwards; qubit_is_zero on six sparsity patterns of two qubits. Also 24 (240 thorough) fixed long sequences of gates, controlled gates and queries on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '1 (2 thorough)' + ' Also subsets of three among 67 or 131 qubits, and parities of 4-11 qubits.'),
    'S07': dict(jobs=[J('sim', 'h_s07a', 9, thin=1), J('sim', 'h_s07b', 8), J('sim', 'h_s08b', 8), J('sim', 'h_s08e', 4), J('sim', 'h_w07', 7), J('sim', 'h_h07', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='every history of 3 (4 thorough) steps out of allocate, gate+allocate, release of any live qubit, two identifier swaps, H, X+Rx from an arbitrary two-qubit state, then an allocation; every set of live identifiers out of six; release of the last qubit with every kind of deferred work on it, then an allocation of the same identifier. Also 24 (240 thorough) fixed long sequences of gates, swaps, allocations and releases on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' + THIN % '1' + ' Also every pair out of 7 identifiers released among 70 or 130 qubits.'),
    'S08': dict(jobs=[J('sim', 'h_s08a', 3, thin=1, thin_thorough=2), J('sim', 'h_s08b', 8), J('sim', 'h_s08e', 4), J('sim', 'h_s08c', 4), J('sim', 'h_s08d', 3), J('sim', 'h_w08', 8, thin=0, thin_thorough=1), J('sim', 'h_h08', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='any of three qubits released from two sparsity patterns with %s on it and 6 on a neighbour; the only qubit with %s; 0-3 live qubits and 5 identifiers for the rejection. Also 24 (240 thorough) fixed long sequences of gates, snapshots, allocations and releases on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % (PEND, PEND) + THIN % '1 (2 thorough)' + ' Also a release among 67 or 131 qubits.'),
    'S09': dict(jobs=[J('sim', 'h_s09a', 8, thin=1), J('sim', 'h_s09b', 4), J('sim', 'h_w09', 8, thin=0, thin_thorough=1), J('sim', 'h_h09', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='three pairs of three qubits, %s on both and 3 kinds on the third, a gate afterwards; all pairs of identifiers 0..3 with one unallocated. Also 24 (240 thorough) fixed long sequences of gates, controlled gates and swaps on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' % PEND + THIN % '1' + ' Also among 67 or 131 qubits.'),
    'S10': dict(jobs=[J('sim', 'h_s10a', 8, thin=1, thin_thorough=2), J('sim', 'h_w10', 4, thin=1)],
        bounds='two qubits, both values, four sparsity patterns, %s on the qubit and 6 on the other.' % PEND + THIN % '1 (2 thorough)' + ' Also among 67 or 131 qubits.'),
    'S11': dict(jobs=[J('sim', 'h_s11a', 12, thin=1), J('sim', 'h_s11b', 9), J('sim', 'h_s11c', 14)],
        bounds='12 controlled gates x 4 duplicate patterns x deferred work; 9 list operations with duplicates x all Pauli pairs; 14 operations on 3 unallocated identifiers (a released one, the next one, 70).' + THIN % '1'),
    'S12': dict(jobs=[J('sim', 'h_s12a', 6, thin=1, thin_thorough=2), J('sim', 'h_s12b', 3), J('sim', 'h_s12c', 12), J('sim', 'h_w12', 8, thin=1), J('sim', 'h_h12', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='three live qubits reached by 6 allocate/release/swap histories, three sparsity patterns with known symbolic amplitudes, 8 deferred gate combinations; 70 qubits (indexes of two machine words) with concrete gates; dump compared with the snapshot on concrete amplitudes. Also 24 (240 thorough) fixed long sequences of gates, controlled gates, swaps and snapshots on three to five qubits with symbolic amplitudes, draws and up to two angles: 12-20 operations, 72-120 from a basis state with a symbolic phase (up to 360 thorough); what 15 s (150 s thorough) per sequence do not reach is dropped.' + THIN % '1 (2 thorough)' + ' Also 64-131 qubits with three in an arbitrary state and up to two gaps in the identifiers.'),
    'S13': dict(jobs=[J('sim', 'h_s13a', 4, thin=1), J('sim', 'h_s13b', 11)],
        bounds='symbolic 64-bit seed, symbolic samples; 3 measurements with 16 gate combinations for 4 ways of seeding; the same 3-measurement program (121 gate pairs) run twice.' + THIN % '1-2'),
    'B01': dict(jobs=[J('qir', 'h_b01a', 20, thin=1), J('qir', 'h_b01b', 9, thin=1), J('qir', 'h_b01c', 19, thin=0, thin_thorough=1), J('qir', 'h_b01d', 19), J('qir', 'h_q01', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='30 gate functions on 2-3 entangled qubits with symbolic angles and up to two identifiers not used before, 4 kinds of deferred work (none, H, Rx, Ry); 19 controlled functions with 0-2 controls in every order of identifiers. Also 24 fixed programs of 14 to 56 operations (240 longer ones thorough) on up to four qubits of an entangled state with two or three symbolic angles.' + THIN % '1 (controlled functions: 0, thorough 1)'),
    'B02': dict(jobs=[J('qir', 'h_b02a', 4, thin=0, thin_thorough=1), J('qir', 'h_b02b', 4), J('qir', 'h_q02', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='every Pauli string on 1-2 targets (3 thorough), 0-2 controls, symbolic angle, 2 orders of identifiers with up to two not used before, 4 kinds of deferred work on the first target and H on another. Also 24 fixed programs of 14 to 56 operations (240 longer ones thorough) on up to four qubits of an entangled state with two or three symbolic angles.' + THIN % '0 (1 thorough)'),
    'B03': dict(jobs=[J('qir', 'h_b03a', 8, thin=0, thin_thorough=1), J('qir', 'h_b03b', 4), J('qir', 'h_b03c', 1)],
        bounds='every Pauli string on 1-3 qubits of a 3-qubit entangled state with symbolic angles, 2 orders of identifiers with one not used before, symbolic sample; arrays of every pair of different lengths 0-3.' + THIN % '0 (1 thorough)'),
    'B04': dict(jobs=[J('qir', 'h_b04a', 2, thin=1), J('qir', 'h_b03b', 4), J('qir', 'h_b03c', 1)],
        bounds='every Pauli string on 1-2 qubits, both results, symbolic expected probability in [-1,2] and tolerance in [0.001,1], both entry points.' + THIN % '1'),
    'B05': dict(jobs=[J('qir', 'h_b05a', 4, thin=1), J('qir', 'h_b05b', 3), J('qir', 'h_q05', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='four measuring functions on any of two entangled and two fresh qubits, 4 kinds of deferred work, 3 result identifiers, earlier results of both values; repeated measurement of certain and correlated qubits. Also 24 fixed programs of 10 to 40 operations (240 longer ones thorough) on up to four qubits of an entangled state with two or three symbolic angles.' + THIN % '1'),
    'B06': dict(jobs=[J('qir', 'h_b06a', 6), J('qir', 'h_b06b', 1), J('qir', 'h_b06c', 2), J('qir', 'h_x06', 2), J('qir', 'h_x06c', 1), J('qir', 'h_q05', 24, thin=1, secs=15, secs_thorough=150)],
        bounds='every history of 3 (4 thorough) writes of a symbolic value and reads over identifiers 0, 1, 2, 63, 64, 130; every pair of 64-bit result values; every history of two stores (written, mz, mresetz) over identifiers 0, 1, 2, 64, each followed by recording any of them, in both output forms. Also identifiers 0 to 5000 on both sides of word and table boundaries. Also 24 fixed programs of 10 to 40 operations (240 longer ones thorough) on up to four qubits of an entangled state with two or three symbolic angles.'),
    'B07': dict(jobs=[J('qir', 'h_b07a', 4), J('qir', 'h_b07b', 5), J('qir', 'h_b07c', 4), J('qir', 'h_b07d', 4), J('qir', 'h_x07', 6)],
        bounds='two arrays of 0-3 qubits and one qubit released in every order; arrays of 0-4 released and allocated again; 0-2 further references; every history of 4 (5 thorough) allocations, releases and gates from 0-4 qubits. Also 9 to 130 qubits allocated together with one released and allocated again.'),
    'B08': dict(jobs=[J('qir', 'h_b08a', 6), J('qir', 'h_b08b', 2)],
        bounds='programs of 0-3 qubits with measurements, releases, allocations or pending gates before, a two-qubit program after; symbolic seed in both orders with 1-3 initializations.'),
    'L01': dict(jobs=[J('qir', 'h_l01a', 8), J('qir', 'h_l01b', 1), J('qir', 'h_l01c', 4), J('qir', 'h_x01a', 14), J('qir', 'h_g01', 8)],
        bounds='element sizes 1, 2, 3, 4, 8, 16, 24; 0-3 and 0-2 elements of symbolic bytes through create, write, concatenate, copy; any 32-bit element size and 64-bit count whose product does not fit; every pair of four element sizes for the mismatch. Also 14 sizes from 15 to 1000 elements of 1, 3 or 8 bytes with symbolic bytes at the ends and in the middle, concatenated with 0, 1 or 40 more in both orders. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L02': dict(jobs=[J('qir', 'h_l02a', 3), J('qir', 'h_x02a', 7), J('qir', 'h_g02', 8)],
        bounds='arrays, tuples and callables of symbolic content, 0-2 alias additions and removals, 0-1 extra references, both force flags, copies of copies released in two orders. Also arrays and tuples of 15 to 5000 bytes. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L03': dict(jobs=[J('qir', 'h_l03a', 3), J('qir', 'h_x03a', 5)],
        bounds='every 64-bit start, step and end over arrays of 0-3 (4 thorough) elements of 1, 2 or 8 symbolic bytes. Also arrays of 8 to 260 elements with ten steps, six starts and seven ends.'),
    'L04': dict(jobs=[J('qir', 'h_l04a', 5), J('qir', 'h_l04b', 3), J('qir', 'h_x04a', 3), J('qir', 'h_g04', 8)],
        bounds='five kinds of values with symbolic content; every balanced sequence of 3 (4 thorough) count updates of -3..3 on references and aliases, released singly or at once; aliases outliving the last reference. Also 7 to 1000 references and aliases at once. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L05': dict(jobs=[J('qir', 'h_l05a', 8), J('qir', 'h_l05b', 1), J('qir', 'h_x05a', 3), J('qir', 'h_g05', 8)],
        bounds='tuples of 0-25 and 0, 8, 16 symbolic bytes; every 64-bit size that does not fit with its header. Also two neighbouring tuples of 15 to 5000 bytes. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L06': dict(jobs=[J('qir', 'h_l06a', 8), J('qir', 'h_l06b', 8), J('qir', 'h_l06c', 1), J('qir', 'h_x06a', 4), J('qir', 'h_x06b', 1), J('qir', 'h_g05', 8)],
        bounds='0-3 adjoints, copies in between; 1-3 levels of controls of 0-2 symbolic control words each, 0-2 adjoints before or after; five shapes of the memory table with symbolic counts. Also 1-6 levels with up to 40 controls each and 9, 17 and 33 levels with up to 3, copied on the way and changed after that; functions that apply functors to, copy or invoke the callable they were called through, two deep. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L07': dict(jobs=[J('qir', 'h_l07a', 10), J('qir', 'h_l07b', 10), J('qir', 'h_l07c', 8), J('qir', 'h_l07d', 10), J('qir', 'h_l07e', 8), J('qir', 'h_l07f', 16), J('qir', 'h_l07g', 17), J('qir', 'h_l07h', 9), J('qir', 'h_x07a', 14), J('qir', 'h_x07b', 1), J('qir', 'h_g07', 8, secs=15, secs_thorough=150)],
        bounds='all pairs of 64-bit integers for +, -, negation, bit operations and comparisons; two-word with one-word operands (two-word thorough) for the same; products of magnitudes of 63 bits with two bits set at one end, and of powers of two; quotients of any 64-bit dividend by ten divisors and of 9-bit by 4-bit numbers; shifts by 0-69 and right shifts by any 64-bit amount of any 64-bit integer; right shifts by ten amounts up to 129 of two-word values; quotients and remainders of 64 neighbours of eight multiples of each of eight one- and two-word divisors; powers 0-9 of bases -15..15. Also operands of 1 to 33 bytes with up to five symbolic bytes (products, quotients, remainders and powers: fixed patterns) and shifts of up to 300 bits; powers of -1, 0 and 1 with seven exponents up to the largest. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live numbers, up to two of them symbolic.'),
    'L08': dict(jobs=[J('qir', 'h_l08a', 11), J('qir', 'h_l08b', 1), J('qir', 'h_x08a', 4)],
        bounds='every byte string of 0-10 bytes (17 thorough); every 64-bit integer. Also 12 to 257 bytes with six symbolic bytes at word boundaries.'),
    'B09': dict(jobs=[J('qir', 'h_b09a', 8, thin=0)],
        bounds='three qubits with a symbolic rotation, 8 gate combinations, 3 relabellings, 0, 1, 2 or 4 results of any value; the text of a symbolic double is an injective stand-in.'),
    'L09': dict(jobs=[J('qir', 'h_l09a', 8), J('qir', 'h_l09b', 5), J('qir', 'h_x09a', 7), J('qir', 'h_g09', 8)],
        bounds='every string of 0-7 bytes with any byte after its end; every pair of strings of 0-4 bytes, also the same string twice. Also strings of 15 to 5000 bytes with symbolic bytes at the ends and in the middle. Also 96 fixed sequences of 120 to 480 operations (960 of 300 to 1200 thorough) over a pool of up to ten live values with up to 24 symbolic bytes.'),
    'L10': dict(jobs=[J('qir', 'h_l10a', 6), J('qir', 'h_l10b', 13), J('qir', 'h_l10c', 8), J('qir', 'h_l10d', 3), J('qir', 'h_l10e', 4), J('qir', 'h_l10f', 2), J('qir', 'h_x10a', 3)],
        bounds='every 64-bit integer and qubit identifier; ranges with one 64-bit and two of five values; doubles of any sign and mantissa with 12 exponents and 10 special ones (text of a symbolic double is an injective stand-in for the digits); big integers below 512 in magnitude and 16 others. Also big integers of 9 to 33 bytes (fixed patterns; one symbolic bit up to 16 bytes).'),
    'L11': dict(jobs=[J('qir', 'h_l11a', 5), J('qir', 'h_l11b', 7), J('qir', 'h_l11c', 4), J('qir', 'h_l11d', 2), J('qir', 'h_l11e', 3), J('qir', 'h_x11a', 2), J('qir', 'h_x11b', 1)],
        bounds='one or two records of 5 kinds, the first of any 64-bit value, tags of 0-2 bytes or none; 9 legacy records; messages of 0-2 (3 thorough) ASCII characters, or of one arbitrary character outside ASCII between two others; results by 4 identifiers or as managed values. Also tags and messages of 15 to 300 bytes and up to 130 records in a row.'),
    'L14': dict(jobs=[J('qir', 'h_l14a', 20), J('qir', 'h_x14a', 2), J('qir', 'h_x14b', 1)],
        bounds='three blocks of 0-19 bytes. Also blocks of 20 to 5000 bytes and every size beyond 256 MB.'),
    'L15': dict(jobs=[J('qir', 'h_l15a', 9), J('qir', 'h_l15b', 1)],
        bounds='every sequence of 4 (5 thorough) steps out of nine: records with symbolic text and value, messages, raw lines, choosing standard output or the buffer, draining, reading up to four bytes; every recording function of the library and of the backend to both places. Standard output is what reaches file descriptor 1.'),
    'L12': dict(jobs=[J('qir', 'h_l12a', 13), J('qir', 'h_l12b', 6), J('qir', 'h_l12c', 1)],
        bounds='every double (bit-precise) for classification and for which elementary function is applied to which argument (libm itself is an uninterpreted function); ieeeremainder over real x = (n+f)y, n in -4..4, six y, every |f| <= 1/2 including both ties.'),
    'L13': dict(jobs=[J('qir', 'h_l13a', 1), J('qir', 'h_l13b', 1), J('qir', 'h_l13c', 4), J('qir', 'h_l13d', 2)],
        bounds='every pair of 64-bit integers; every pair of doubles up to 1e300 in magnitude; every drawn 64-bit word; each value of seven small integer ranges and each quarter of five wide ones and of four ranges of doubles is reachable.'),
    'R01': dict(jobs=[J('run', 'h_r01a', 1), J('run', 'h_r01b', 13), J('run', 'h_r01c', 1)],
        bounds='each of the %d runtime functions, 5 unknown names and one LLVM intrinsic with every 32-bit number of parameters; every ordered pair of 13 functions (those recording output, m, others), every triple of 8 recording functions with 0-3 parameters. LLVM (inkwell) is a stand-in that records what is mapped.' % 152),
    'R02': dict(jobs=[J('run', 'h_r02a', 9), J('run', 'h_r02b', 1)],
        bounds='modules of 0-3 functions with symbolic names of 1-2 bytes, 5 attribute lists and any number of parameters, no name or any name of 0-2 characters asked for; 7 kinds of preparation failures in every combination. LLVM (inkwell) is a stand-in.'),
    'R03': dict(jobs=[J('run', 'h_r03a', 4), J('run', 'h_r03b', 3)],
        bounds='0-3 shots, 1-3 attributes with symbolic keys and values of 0-2 characters, a record with a symbolic tag of 0-2 characters per shot; 1-2 shots with two measurements each, symbolic seed and samples, three states of the library before. LLVM (inkwell) is a stand-in.'),
    'R04': dict(jobs=[J('run', 'h_r04a', 8), J('run', 'h_r04b', 4)],
        bounds='every input of 0-7 bytes through three entry points, readers delivering 1-3 bytes at a time or failing at any point; every file extension of 0-3 ASCII characters. LLVM (inkwell) is a stand-in that records what it is given.'),
    'R05': dict(jobs=[J('run', 'h_r05a', 4), J('run', 'h_r05b', 1), J('run', 'h_r05c', 3)],
        bounds='4 spellings and 3 orders of the options, 4 entry point names, 3 files, shots absent, of 1-2 symbolic digits (up to 19), of one symbolic character or one of 5 other texts, 6 seeds; 12 command lines that are not understood; no file, `-` and four file names with dashes with 0, 4 or 7 symbolic bytes of standard input, 3 entry point names, 4 seeds and 0-2 shots. clap itself is executed. LLVM (inkwell) is a stand-in.'),
}
NOT_APPLICABLE = {
    'P01': 'the Python bindings are generated by the pyo3 macros around CPython, whose interpreter cannot be encoded; the pip crate does not build here (no pyo3 in the cargo cache)',
}
