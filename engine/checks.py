"""Which harness entries decide which property, their shards and bounds."""
TY = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
def E(h, *names, **kw): return [dict(harness=h, entry=n, **kw) for n in names]
CHECKS = {}
CHECKS['V01'] = dict(entries=E('varint', *['h_v01_' + t for t in TY]), bounds='all values of all eight types (no bound); buffers of 12 bytes')
CHECKS['V02'] = dict(entries=E('varint', *['h_v02_' + t for t in TY]) + E('varint', 'h_v02w_u8', 'h_v02w_u32', 'h_v02w_i8', 'h_v02w_i32'), bounds='all values of all eight types')
CHECKS['V03'] = dict(entries=E('varint', *['h_v03_' + t for t in TY]), bounds='byte strings of length 0..12')
CHECKS['V04'] = dict(entries=E('varint', *['h_v04_' + t for t in TY[:2] + TY[4:6]]) + E('varint', 'h_v04_u64', 'h_v04_i64', 'h_v04_u32', 'h_v04_i32', shards={'len': range(13)}), bounds='all values, buffer lengths 0..12')
CHECKS['V05'] = dict(entries=E('varint', 'h_v05_i8', 'h_v05_i16', 'h_v05_i32', 'h_v05_i64'), bounds='all values')
CHECKS['V06'] = dict(entries=E('varint', 'h_v06_a', 'h_v06_b', 'h_v06_c', 'h_v06_d', 'h_v06cb_a', 'h_v06cb_b', 'h_v06cb_c'), bounds='two values')
# ---- circular buffer ----
OPS = range(18)
CIRC = 'capacities 1..4 (element values, start offset and count symbolic)'
BIGC = 'every capacity up to 2^31, start, count and contents (one-byte items)'
CHECKS['C01'] = dict(entries=E('circular', 'h_c01_s1', 'h_c01_u8', 'h_c01_u64', 'h_c01_ctor', cost=2) + E('circular', 'h_c01_s2', shards={'op1': OPS, 'cap': range(4)}, cost=9)
                     + E('circular', 'h_c01_s3', shards={'op1': OPS, 'op2': OPS}, thorough_only=True, cost=5)
                     + E('circular', 'h_c01_big1', shards={'op1': range(14)}) + E('circular', 'h_c01_big2', shards={'op1': range(14), 'op2': [0, 2]}) + E('circular', 'h_c01_big2', shards={'op1': range(14), 'op2': [1] + list(range(3, 14))}, thorough_only=True)
                     + E('circular', 'h_c01_big2', shards={'op1': range(14), 'op2': range(14)}, flags=['-DBIGBITS=40'], thorough_only=True),
                     bounds='(a) ' + CIRC + '; (b) ' + BIGC + ', 1 operation and a push (thorough: any 2; capacity 2^40); (a) sequences of 1-2 operations from any state (thorough: 3, capacities 1..3); element types of 1, 2 and 8 bytes')
CHECKS['C02'] = dict(entries=E('circular', 'h_c02_step', shards={'op1': OPS}) + E('circular', 'h_c02_big', shards={'op1': range(14)}) + E('circular', 'h_c02_big', shards={'op1': range(14)}, flags=['-DBIGBITS=40'], thorough_only=True),
                     bounds=CIRC + ' and ' + BIGC + '; one operation from any state')
CHECKS['C03'] = dict(entries=E('circular', 'h_c03_rebuild', shards={'op1': OPS}) + E('circular', 'h_c03_later', shards={'op1': OPS}) + E('circular', 'h_c03_slots') + E('circular', 'h_c04_slots')
                     + E('circular', 'h_c03_big', shards={'op1': range(14)}) + E('circular', 'h_c03_big2', shards={'op1': [4, 6, 7, 12], 'op2': [0, 2]}) + E('circular', 'h_c03_big2', shards={'op1': range(14), 'op2': range(14)}, thorough_only=True),
                     bounds=CIRC + '; one operation, rebuild, one later operation; also ' + BIGC + '')
LAWS = ['h_c04_%s' % n for n in ('laws_mut', 'laws_mute', 'laws_const', 'laws_rev', 'laws_crev', 'slots', 'mixed')]
MOVES = ['h_c04_moves_%s' % n for n in ('mut', 'const', 'rev', 'crev')]
BIG = ['-DBIGBITS=40']
CHECKS['C04'] = dict(entries=E('circular', *LAWS) + E('circular', *MOVES, shards={'move': range(7)}, cost=5) + E('circular', 'h_c04_walk', 'h_c04_walkc', shards={'kind': range(8)}) + E('circular', 'h_c04_write')
                     + E('circular', *LAWS, flags=BIG, thorough_only=True) + E('circular', *MOVES, flags=BIG, shards={'move': range(7)}, thorough_only=True), api=('circular',),
                     bounds='position arithmetic and comparisons: every capacity up to 2^31 (thorough 2^40), start, count and positions; dereferencing and traversal: capacities 1..4')
CHECKS['C05'] = dict(entries=E('circular', 'h_c05_u8', 'h_c05_u32', shards={'kind': range(6)}) + E('circular', 'h_c05_then', shards={'kind': range(4), 'op2': OPS})
                     + E('circular', 'h_c05_big', shards={'kind': range(6), 'k': [0, 1, 2, 3, 6, 8]}) + E('circular', 'h_c05_big', shards={'kind': range(6), 'k': [4, 5, 7, 9]}, thorough_only=True), bounds=CIRC + ', every count; followed by any one operation (capacities 1..3); ' + BIGC + ' with copies of 0..3, 6 and 8 items (thorough 0..9)')
CHECKS['C06'] = dict(entries=E('circular', 'h_c06_step', shards={'op1': range(14)}) + E('circular', 'h_c06_two', shards={'op1': range(9), 'op2': range(9)}), bounds=CIRC + '; one operation with full accounting, two operations with final live set')
CHECKS['C07'] = dict(entries=E('circular', 'h_c07_at') + E('circular', 'h_c07_throw', shards={'how': range(8)}), bounds=CIRC + '; index any 64-bit value')

# ---- function, move_wrapper, lock_guard ----
CXX14 = ['-std=gnu++14']   # is_invocable_r is the library's own there
CF = '12 capacity/alignment pairs from (1,1) to (64,64) and (40,8)'
SYMF = 'C++17 and (F01, F03, F04, F06) C++14; all argument, state and result values symbolic'
CHECKS['F01'] = dict(entries=E('function', 'h_f01_value', 'h_f01_capture', shards={'cfg': range(12)}) + E('function', 'h_f01_refs', 'h_f01_members', 'h_f01_state', 'h_f01_again') + E('function', 'h_f01_value', 'h_f01_capture', flags=CXX14, shards={'cfg': range(4)}, shards_thorough={'cfg': range(12)}) + E('function', 'h_f01_refs', 'h_f01_members', 'h_f01_state', 'h_f01_again', flags=CXX14), bounds=CF + '; up to 3 moves of the wrapper; 30 target kinds; ' + SYMF)
CHECKS['F02'] = dict(entries=E('function', 'h_f02_3', shards={'op1': range(19)}) + E('function', 'h_f02_cfg', 'h_f02_kinds') + E('function', 'h_f02_4', shards={'op1': range(19), 'op2': range(19)}, thorough_only=True), bounds='all sequences of 3 (thorough 4) of 19 operations (self-move included) on two wrappers with two target types; ' + CF + '; ' + SYMF)
CHECKS['F03'] = dict(entries=E('function', 'h_f03', shards={'cfg': range(12)}) + E('function', 'h_f03_members', 'h_f03_const') + E('function', 'h_f03_members', 'h_f03_const', flags=CXX14), bounds=CF + '; 9 ways of becoming empty; ' + SYMF)
CHECKS['F04'] = dict(entries=E('function', 'h_f04', 'h_f04_types') + E('function', 'h_f04', 'h_f04_types', flags=CXX14), bounds='8 target/signature kinds, up to 3 moves; ' + SYMF)
CHECKS['F05'] = dict(entries=E('function', 'h_f05', shards={'cfg': range(12)}) + E('function', 'h_f05_member'), bounds=CF + '; ' + SYMF)
CHECKS['F06'] = dict(entries=E('function', 'h_f06', 'h_f06_void', 'h_f06_sig') + E('function', 'h_f06', 'h_f06_void', 'h_f06_sig', flags=CXX14), bounds='3 capacity/alignment pairs; 12 signature shapes, 4 exception types; ' + SYMF)
CHECKS['M01'] = dict(entries=E('misc', 'h_m01_2', 'h_m01_3', 'h_m01_lambda', 'h_m01_throw'), bounds='chains of up to 4 wrappers (every order of copying and moving); ' + SYMF)
CHECKS['L01'] = dict(entries=E('misc', 'h_l01_paths', 'h_l01_fail', 'h_l01_nested'), bounds='7 ways of leaving the scope, up to 3 nested guards; values symbolic')

# ---- constexpr math (exact real arithmetic where the elements are floating point) ----
REAL = ['floating-point values are exact reals: rounding, overflow and NaN propagation are outside the claim', 'transcendental functions are characterised by their inverse laws and sign axioms']
CHECKS['X01'] = dict(entries=E('cmath', 'h_x01_sort', 'h_x01_argmin', 'h_x01_count', 'h_x01_eq', 'h_x01_real') + E('cmath', 'h_x01_sort5', shards={'mode': range(4)}) + E('cmath', 'h_x01_sort6', shards={'mode': range(4)}, thorough_only=True) + E('cmath', 'h_x01_counts') + E('cmath', 'h_x01_bits', shards={'n': range(3)}, cost=5) + E('cmath', 'h_x01_large', shards={'n': [1, 2, 3], 'pattern': [0, 1, 2, 5], 'mode': [0, 2]}, shards_thorough={'n': range(7), 'pattern': range(6), 'mode': range(3)}, cost=3),
                     bounds='sort and argmin: all keys for sizes 0..5 (thorough 6) and four weak orders with small, large and lexicographic classes; all one-bit keys for sizes 7, 8, 10; sizes 9, 10, 12 (thorough 7..24) with two symbolic elements in one of four (thorough six) concrete arrangements; count and equality: all contents, sizes up to 33', assumptions=REAL[:1])
CHECKS['X02'] = dict(entries=E('cmath', 'h_x02_append', 'h_x02_sub', 'h_x02_swap', 'h_x02_make', 'h_x02_conv', 'h_x02_big', 'h_x02_swapb'), bounds='sizes 0..8 and some up to 33 (append up to 32), all contents, all run-time positions, 17 size/position/count triples', assumptions=REAL[:1])
CHECKS['X03'] = dict(entries=E('cmath', 'h_x03_int', 'h_x03_idiv', 'h_x03_calls', 'h_x03_real', 'h_x03_cplx', 'h_x03_cdiv', 'h_x03_intb', 'h_x03_realb', 'h_x03_cplxb'), bounds='sizes 0..33 (integers; reals up to 17, complex up to 9 at selected sizes), all contents and scalars (reals in [-1000,1000])', assumptions=REAL, real=True)
CHECKS['X04'] = dict(entries=E('cmath', 'h_x04_conv', 'h_x04_convb', 'h_x04_convr', 'h_x04_convc', 'h_x04_polyi', 'h_x04_polyr', 'h_x04_polyc') + E('cmath', 'h_x04_pairs', shards={'n': range(49)}), bounds='all size pairs up to 7 x 7 and some up to 16 x 16, all coefficients (modulo 2^32; real and complex at selected pairs); poly of up to 8 real or 7 complex roots', assumptions=REAL, real=True)
CHECKS['X05'] = dict(entries=E('cmath', 'h_x05_basic', 'h_x05_pred', 'h_x05_div', 'h_x05_divr', 'h_x05_laws', 'h_x05_exp', 'h_x05_expi'), bounds='all operands with parts in [-100,100], divisors of norm > 1e-6', assumptions=REAL, real=True)

# ---- filter design ----
BES = ['h_s05_bessel', 'h_s05_bessel2', 'h_s05_bessel3', 'h_s05_bessel4', 'h_s05_bessel5']
CHECKS['S05'] = dict(entries=E('signal', 'h_s05_butter') + E('signal', 'h_s05_butter2', shards={'n': range(4)}, shards_thorough={'n': range(20)}) + E('signal', 'h_s05_cheby1c', 'h_s05_cheby2c', shards={'n': range(12), 'ripple': [2]}, shards_thorough={'n': range(12), 'ripple': range(4)}) + E('signal', 'h_s05_cheby1', 'h_s05_cheby2', shards={'n': range(8)}, cost=5) + E('signal', *BES, cost=2),
                     bounds='Butterworth orders 1..24 (thorough 1..40), Chebyshev orders 1..8 with every ripple given by exp(asinh(1/eps)/N) in [1.001,1001] and 9..20 with one fixed ripple (thorough four), Bessel orders 1..100 (the whole table); every frequency in [0,1000]', assumptions=REAL, real=True)
CHECKS['S06'] = dict(entries=E('signal', 'h_s06_low', 'h_s06_high', 'h_s06_bil', 'h_s06_bil2', shards={'shape': range(11)}) + E('signal', 'h_s06_many', shards={'shape': range(7)}),
                     bounds='11 shapes of self-conjugate descriptions with up to 3 zeros and 3 poles, real parts in [-10,10] on either side of the origin and of 2fs (none at 2fs; for the high-pass none within 0.1 of the origin), gain, target frequency and sample rate symbolic; every evaluation point in a box; 7 fixed constellations of up to 12 zeros and 16 poles with symbolic gain, frequency and evaluation point on a ray', assumptions=REAL, real=True)
H2 = [0, 1]; FAM4 = ['butter', 'bessel', 'cheby1', 'cheby2']
def F4(prefix, lo, hi, **kw):
    """all four families; Chebyshev orders lo..hi-1 in the quick tier"""
    sh = kw.pop('sh', {})
    return (E('design', prefix + '_butter', prefix + '_bessel', shards=dict(sh, n=range(8)), **kw) + E('design', prefix + '_cheby1', prefix + '_cheby2', shards=dict(sh, high=H2, n=range(lo, hi)), cost=5, **kw))
DES = 'every cut-off with tan(pi f/fs) in [1e-6,1e6], every sample rate in [1e-3,1e9], every Chebyshev ripple with exp(asinh(1/eps)/N) (II: exp(asinh(eps)/N)) in [1.001,1001]; low-pass and high-pass'
HI = ['-DORD0=8', '-ftemplate-depth=4000']; HI2 = ['-DORD0=16', '-ftemplate-depth=4000']; HI5 = ['-DORD0=40', '-ftemplate-depth=4000']
def BB(prefix, flags, **kw): sh = kw.pop('sh', {}); return E('design', prefix + '_butter', prefix + '_bessel', shards=dict(sh, n=range(8)), flags=flags, **kw)
CHECKS['S01'] = dict(entries=F4('h_s01', 0, 8) + F4('h_s01', 0, 8, flags=HI) + BB('h_s01', HI2) + E('design', 'h_s01_butter', 'h_s01_bessel', flags=HI5, shards={'n': [7]}) + E('design', 'h_s07e_cheby1', 'h_s07e_cheby2', shards={'high': H2, 'n': range(8)}, cost=3) + E('design', 'h_s07e_butter', shards={'n': range(8)}),
                     bounds='pass-band gain and blocking: orders 1..16 (Butterworth, Bessel 1..24 and 48); edge attenuation: orders 1..8; ' + DES, assumptions=REAL, real=True)
CHECKS['S02'] = dict(entries=F4('h_s02', 0, 6) + BB('h_s02', HI) + BB('h_s02', HI2) + E('design', 'h_s02_butter', flags=HI5, shards={'n': [7]}, shards_thorough={'n': range(8)}, cost=5) + E('design', 'h_s02_cheby1c', 'h_s02_cheby2c', flags=HI, shards={'high': H2, 'n': range(5), 'ripple': [2]}, shards_thorough={'high': H2, 'n': range(8), 'ripple': range(4)}, cost=6) + E('design', 'h_s02_cheby1', 'h_s02_cheby2', shards={'high': H2, 'n': [6, 7]}, thorough_only=True),
                     bounds='Butterworth and Bessel orders 1..24, Butterworth 48 (thorough 41..48), Chebyshev 1..6 (thorough 1..8) with every ripple, 9..13 with one fixed ripple (thorough 9..16, four ripples); ' + DES, assumptions=REAL, real=True)
ANYQ = ['1', '2a', '2b', '2c', '2d', '3a', '4a', '4c', '4f', '4g']; ANYT = ['3b', '3c', '3d', '4b', '4d', '4e', '4h', '4i']
CHECKS['S03'] = dict(entries=F4('h_s03', 0, 5, sh={'dist': H2}) + BB('h_s03', HI, sh={'dist': H2}) + E('design', 'h_s03_butter', 'h_s03_bessel', flags=HI2, shards={'dist': [1], 'high': [0], 'n': [0, 3, 6]}, shards_thorough={'dist': H2, 'high': H2, 'n': range(8)}, cost=3) + E('design', 'h_s03_butter', flags=HI5, shards={'dist': [1], 'high': [0], 'n': [7]}, shards_thorough={'dist': H2, 'high': H2, 'n': [6, 7]}, cost=9) + E('design', 'h_s03_cheby1c', 'h_s03_cheby2c', flags=HI, shards={'dist': [1], 'high': H2, 'n': range(4), 'ripple': [2]}, shards_thorough={'dist': H2, 'high': H2, 'n': range(8), 'ripple': [0, 2, 3]}, cost=6) + E('design', 'h_s03_cheby1', shards={'dist': H2, 'high': H2, 'n': [5]}) + E('design', 'h_s03_cheby2', shards={'dist': H2, 'high': H2, 'n': [5]}, thorough_only=True)
                     + E('design', 'h_s03_cheby1', 'h_s03_cheby2', shards={'dist': H2, 'high': H2, 'n': [6, 7]}, thorough_only=True)
                     + E('design', *['h_s03_any' + x for x in ANYQ], flags=['-DVP_DETAIL'], shards={'dist': H2, 'rev': H2}, cost=4) + E('design', *['h_s03_any' + x for x in ['3b', '3c', '4b']], flags=['-DVP_DETAIL'], shards={'dist': [1], 'rev': [0]}, cost=9) + E('design', *['h_s03_any' + x for x in ANYT], flags=['-DVP_DETAIL'], shards={'dist': H2, 'rev': H2}, thorough_only=True),
                     bounds='arbitrary self-conjugate sets of 1..4 poles and zeros with parts in [-2,2] and positive gain (quick: 13 of 18 shapes); designs: Butterworth and Bessel orders 1..16, 17, 20, 23 (thorough 1..24), Butterworth 48, Chebyshev I 1..6, II 1..5 (thorough 1..8) with every ripple, 9..12 with one fixed ripple (thorough 9..16, three ripples); ' + DES, assumptions=REAL, real=True)
CHECKS['S04'] = dict(entries=E('run', 'h_s04_sym1', 'h_s04_sym2', 'h_s04_sym2r', 'h_s04_sym3', 'h_s04_sym4', flags=['-DVP_DETAIL'], shards={'form': range(3)}) + E('run', 'h_s04_des', shards={'n': range(10), 'family': range(4)}) + E('run', 'h_s04_hi', flags=['-DVP_HI'], shards={'n': range(10), 'family': range(4)}, shards_thorough={'n': range(14), 'family': range(4)}, cost=7) + E('run', 'h_s04_float', shards={'n': range(5)}) + E('run', 'h_s04_ring', shards={'n': range(8)}, flags=['-DVP_RING']) + E('run', 'h_s04_ind', shards={'n': range(4), 'form': H2}),
                     bounds='orders 1..4 with every zero, pole and gain, inputs of 5-6 samples; concrete designs of four families, orders 1..10 with inputs of 2N+4 samples and 11..20 (thorough 24) with N+8 samples in [-10,10]; two instances in every interleaving of 4+4 samples; single precision orders 1..5 (narrowing modelled as a relative error of up to 2^-24), integer value type orders 1..8', assumptions=REAL, real=True)
CHECKS['S07'] = dict(entries=E('design', 'h_s07_butter', shards={'n': range(8)}) + E('design', 'h_s07_cheby1', shards={'high': H2, 'n': range(8)}, cost=5) + E('design', 'h_s07_cheby2', shards={'high': H2, 'n': range(6)}, cost=9) + E('design', 'h_s07_cheby2', shards={'high': H2, 'n': [6, 7]}, thorough_only=True) + E('design', 'h_s07_butter', flags=HI, shards={'high': [0], 'n': range(8)}) + E('design', 'h_s07_butter', flags=HI, shards={'high': [1], 'n': range(4)}, shards_thorough={'high': [1], 'n': range(8)}) + E('design', 'h_s07_cheby1c', 'h_s07_cheby2c', flags=HI, shards={'high': [0], 'n': range(8), 'ripple': [0, 2]}, shards_thorough={'high': [0], 'n': range(8), 'ripple': range(4)}) + E('design', 'h_s07_cheby1c', 'h_s07_cheby2c', flags=HI, shards={'high': [1], 'n': range(4), 'ripple': [2]}, shards_thorough={'high': [1], 'n': range(5), 'ripple': range(4)}, cost=4),
                     bounds='Butterworth orders 1..16, Chebyshev I 1..8 and II 1..6 (thorough 1..8) with every ripple, both 9..16 (high-pass quick 9..12) with fixed ripples; frequency and cut-off with tan(pi f/fs) in [1e-6,1e6]; ' + DES.split(', ', 1)[1], assumptions=REAL, real=True)
S8 = ['h_s08_any' + x for x in ('2a', '2b', '2c', '2d', '3a', '4a', '4f', '4g')]; S8B = ['h_s08_any' + x for x in ('3b', '3c', '4b', '4c', '4d')]
CHECKS['S08'] = dict(entries=E('design', 'h_s08_butter', 'h_s08_bessel', 'h_s08_cheby1', 'h_s08_cheby2', shards={'n': range(8)}) + E('design', 'h_s08_butter', 'h_s08_bessel', flags=HI, shards={'n': range(8)}) + E('design', 'h_s08_butter', flags=HI5, shards={'n': [7]}, shards_thorough={'n': range(8)}, cost=5) + E('design', 'h_s08_cheby1', 'h_s08_cheby2', flags=HI, shards={'high': [0], 'n': range(4), 'ripple': [2]}, shards_thorough={'high': H2, 'n': range(8), 'ripple': range(4)}, cost=6) + E('design', *S8, flags=['-DVP_DETAIL'], cost=4) + E('design', *S8B, flags=['-DVP_DETAIL'], cost=9) + E('design', 'h_s08_any3d', 'h_s08_any5a', 'h_s08_any6a', flags=['-DVP_DETAIL'], thorough_only=True),
                     bounds='self-conjugate sets of 2..4 (thorough 6) zeros in [-2,2] and poles in [-0.7,0.7] without ties (13 of 18 shapes); designs of all four families, Butterworth and Bessel orders 1..16, Butterworth 48, Chebyshev 1..8 with four fixed ripples and (low-pass) 9..12 with one, tan(pi f/fs) in [1e-6,1e6], every sample rate in [1e-3,1e9], low-pass and high-pass', assumptions=REAL, real=True)
CHECKS['D01'] = dict(entries=E('run', 'h_d01_double', 'h_d01_float', 'h_d01_long', flags=['-DVP_DETAIL'], shards={'kind': H2}) + E('record', 'h_d01_macro'), bounds='orders 1..5, 9, 12, 16; the two macros for six constant designs; names of 0..299 characters around the limit (8 lengths for double, 4 for float and long double), contents symbolic at the ends, around the limit and at every 16th place; designs with symbolic cut-off', assumptions=REAL)
STREAM = ['-fno-inline', '-fno-sanitize=vptr']
CHECKS['T03'] = dict(entries=E('stream', 'h_t03_complex', 'h_t03_fixed', 'h_t03_vec', 'h_t03_cvec', 'h_t03_arr', 'h_t03_section', flags=STREAM) + E('stream', 'h_t03_zpk', flags=STREAM + ['-DVP_DETAIL']), bounds='all values in [-1e6,1e6]; vectors and arrays of 0..8 elements, descriptions with up to 3 zeros and poles', assumptions=REAL[:1] + ['std::ostream insertion of text and numbers is replaced by recording (number formatting is the standard library\'s)'])
TYPES = ['h_t01_index', 'h_t01_typed', 'h_t01_range', 'h_t01_conj', 'h_t01_list', 'h_t01_invocable']
CHECKS['T01'] = dict(entries=[e for std in ([], ['-std=gnu++14'], ['-std=gnu++11']) for e in E('types', *TYPES, flags=['-ftemplate-depth=3000'] + std)], bounds='sequences of 0..48 (and 64..200) numbers, ranges starting at 0..8 and three others, all lists of up to 7 truth values, typelists of up to 10 types, 1920 result/callee/argument combinations; each in C++11, C++14 and C++17; the position in the list or table is symbolic')
X06E = ['h_x06_minmax', 'h_x06_const', 'h_x06_same']
CHECKS['X06'] = dict(entries=[e for std in ([], ['-std=gnu++14'], ['-std=gnu++11']) for e in E('cmath', *X06E, flags=std)], bounds='min and max of all values of six types; the functions used by the filter design on [-5,5] and [0.01,50]; each in C++11, C++14 and C++17', assumptions=REAL, real=True)
