"""Registry of properties -> verification units."""
PROPS = {}
def prop(pid, units, bounds, tbounds=None, outside='', stubs=''):
    PROPS[pid] = {'units': units, 'bounds': {'quick': bounds, 'thorough': tbounds or bounds}, 'outside': outside, 'stubs': stubs}
def U(name, src, **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, **kw)

prop('C01', [U('bits', 'c01.cpp', jobs=4), U('bits_threading', 'c01.cpp', flags=['-DTHREADING'], jobs=4)],
     'all values and all public/ALICE/BOB kinds of three operands, value backend and plaintext backend, default and THREADING build')
prop('C02', [U('arith', 'c02.cpp', jobs=8), U('wide', 'c02w.cpp', defs=['PART=0'], jobs=8, time=150)], 'widths 1..5,7..9,15..17,31..33,64 and 13 widths from 65 to 513; all operand values', 'widths 1..17,20,24,31..33,40,48,63,64 and 13 widths from 65 to 513; all operand values')
prop('C03', [U('mul', 'c03.cpp', defs=['OP=0', 'WS=1,2,3,4,5,6,7,8,16,24,32,48,64'], tdefs=['WS=1,2,3,4,5,6,7,8,12,16,24,32,48,64'], jobs=4), U('div', 'c03.cpp', defs=['OP=1', 'WS=1,2,3,4,5,6,7,8,16'], tdefs=['WS=1,2,3,4,5,6,7,8,9,10,12,16,20,24'], jobs=4, qtime=30), U('div32', 'c03.cpp', defs=['OP=1', 'WS=32'], tdefs=['WS=32,48,64'], jobs=3, time=250, qtime=120, ttime=2400, tqtime=1200), U('mul_wide', 'c03w.cpp', defs=['OP=0', 'WS=65,128'], tdefs=['WS=65,66,96,127,128,129,192,256'], jobs=8, time=200, qtime=60), U('div_wide', 'c03w.cpp', defs=['OP=1', 'WS=33,64,65'], tdefs=['WS=33,40,48,63,64,65,96,128,129'], jobs=8, time=200, qtime=60), U('modexp_wide', 'c03w.cpp', defs=['OP=2', 'WS=16,33', 'PS=8,33', 'FREE=2'], tdefs=['WS=16,24,33,64', 'PS=8,16,33,65', 'FREE=3'], jobs=8, time=200, qtime=60), U('modexp', 'c03.cpp', defs=['OP=2', 'WS=4,5,6', 'PS=1,2,3'], jobs=4)],
     'multiplication widths 1..8,16,24,32,48,64; division widths 1..8,16,32; modular power widths 4..6 and exponent widths 1..3; all operand values; multiplication at widths 65,128 and division at 33,64,65 with 10 to 12 operand bits free over 9 fixed patterns; modular power at widths 16,33 with exponents of 8 and 33 bits, two of them free', 'multiplication widths 1..8,12,16,24,32,48,64; division widths 1..10,12,16,20,24,32,48,64; modular power widths 4..6 and exponent widths 1..3; all operand values; multiplication at 8 widths to 256, division at 9 widths to 129 with 10 to 12 operand bits free over 16 fixed patterns; modular power at widths to 64 with exponents to 65 bits, three of them free')
prop('C04', [U('shifts', 'c04.cpp', jobs=8), U('wide', 'c02w.cpp', defs=['PART=1'], jobs=8, time=150)], 'widths 1..5,7,8,9,16,17,32,33,64: all values and all shift amounts; 13 widths from 65 to 513: all values, 23 public and all secret shift amounts')
prop('C05', [U('value', 'c05.cpp', defs=['PART=0'], jobs=4), U('memory', 'c05.cpp', defs=['PART=1'], jobs=4), U('bools', 'c05.cpp', defs=['PART=2'], jobs=4), U('ints', 'c05.cpp', defs=['PART=3'], jobs=4)], 'widths 1..70 and 11 widths to 512, buffer lengths 0..40 and 18 lengths to 1025 bits; all values', 'widths 1..130 and 11 widths to 512, buffer lengths 0..72 and 18 lengths to 1025 bits; all values')
prop('C06', [U('sort', 'c06.cpp', defs=['NMAX=6', 'KWIDTH=3', 'QT=60'], jobs=8, time=200, qtime=60), U('tagged', 'c06.cpp', defs=['NMIN=7', 'NMAX=TIER(8,11)', 'KWIDTH=2', 'DWIDTH=1', 'TAG=1', 'QT=60'], jobs=8, time=200, qtime=60), U('bits', 'c06.cpp', defs=['NMIN=7', 'NMAX=TIER(17,28)', 'KWIDTH=1', 'DWIDTH=1', 'TAG=1', 'QT=60'], jobs=8, time=200, qtime=60), U('larger', 'c06.cpp', defs=['NS=24,31,32,33,48,64,65,100', 'KWIDTH=2', 'DWIDTH=1', 'TAG=1', 'FREE=8', 'QT=60'], jobs=8, time=200, qtime=60), U('widekeys', 'c06.cpp', defs=['NMIN=2', 'NMAX=3', 'KWIDTH=64', 'DWIDTH=40', 'QT=60'], jobs=8, time=200, qtime=60)], 'arrays of 0..6 keys of 3 bits with any payloads; 7..8 keys of 2 bits and 7..17 keys of 1 bit with any one distinguished payload; 8 lengths from 24 to 100 with about 8 free keys of 2 bits over a fixed pattern; 2..3 keys of 64 bits with 40-bit payloads; both directions', 'arrays of 0..6 keys of 3 bits with any payloads; 7..11 keys of 2 bits and 7..28 keys of 1 bit with any one distinguished payload; the longer arrays and wide keys of quick; both directions')
prop('C11', [U('plain', 'c11.cpp', defs=['STEPS=2'], jobs=8, time=150), U('long', 'c11.cpp', defs=['STEPS=TIER(60,200)', 'SEEDS=TIER(39,199)'], jobs=8)], 'three inputs of any kind and all sequences of 2 gates; 40 generated sequences of 60 gates over six inputs, all values', 'as quick with 200 generated sequences of 200 gates')
prop('C18', [U('single', 'c18.cpp', defs=['PART=0'], jobs=4), U('long', 'c18.cpp', defs=['PART=0', 'LONG=1'], jobs=7, time=150), U('batched', 'c18.cpp', defs=['PART=1'], jobs=4)], 'all keys and blocks; 0..17 and 14 counts to 257 blocks, fixed counts 0,1,2,3,5,8,16; key batches 1,2,3,4,8,16; multi-key shapes up to 8x8, 1x17 and 2x16', 'all keys and blocks; 0..40 blocks; key batches up to 32; multi-key shapes up to 8x16')
prop('C17', [U('mixed', 'c17.cpp', defs=['PART=0'], jobs=8, time=120), U('runs', 'c17.cpp', defs=['PART=1'], jobs=4), U('batch4', 'c17.cpp', defs=['PART=0', 'BS=4'], jobs=4, thorough_only=True), U('runs4', 'c17.cpp', defs=['PART=1', 'BS=4'], jobs=4)], 'all start points, blocks and restart indices; every sequence of 3 calls of shapes 1x1,2x1,2x2,4x1,8x1 plain or circular with optional restarts; uniform runs of 70 keys, and of 10 calls of shapes 1x9, 2x8, 8x5', 'as quick with 4 calls and shapes up to 8x2; uniform runs of 260 keys')
prop('C20', [U('variable', 'c20.cpp', defs=['PART=0'], jobs=4), U('long', 'c20.cpp', defs=['PART=0', 'BIG=1'], jobs=8), U('fixed', 'c20.cpp', defs=['PART=1'], jobs=4), U('sequence', 'c20.cpp', defs=['PART=2'], jobs=8, time=200)], 'all keys (and the default key), inputs and tweaks; lengths 0..18, in place or not, with and without scratch; 16 lengths to 2050 with the first, middle and last block free and the others fixed; fixed sizes 1,2,3,8,9; one object through every sequence of 3 calls of 5 kinds (re-keying included)', 'all keys, inputs and tweaks; lengths 0..34; fixed sizes 1,2,3,8,9')
prop('C15', [U('gates', 'c15.cpp', defs=['PART=0'], jobs=8, time=120), U('runs', 'c15.cpp', defs=['PART=1'], jobs=8), U('single', 'c15.cpp', defs=['PART=2'], jobs=4), U('later', 'c15.cpp', defs=['PART=3'], jobs=7)], 'all labels, offsets and seeds; every sequence of 2 gates over 2 inputs with all plaintext values; runs of 18 gates in four patterns crossing several key batches; any labels after up to 1000 and-gates on fixed labels', 'all labels, offsets and seeds; every sequence of 3 gates; runs of 40 gates')
prop('C16', [U('gates', 'c15.cpp', defs=['PART=0', 'PF=1'], jobs=8, time=120), U('runs', 'c15.cpp', defs=['PART=1', 'PF=1'], jobs=8), U('tweak', 'c15.cpp', defs=['PART=2', 'PF=1'], jobs=4), U('later', 'c15.cpp', defs=['PART=3', 'PF=1'], jobs=7)], 'all labels with lowest bit zero, all offsets; every sequence of 2 gates over 2 inputs with all plaintext values; runs of 18 gates in four patterns; any labels after up to 1000 and-gates on fixed labels; 40-bit gate counters', 'as quick with every sequence of 3 gates; runs of 40 gates')
prop('C19', [U('mixed', 'c19.cpp', defs=['PART=0'], jobs=8, time=300), U('sizes', 'c19.cpp', defs=['PART=1'], jobs=8, time=300), U('long', 'c19.cpp', defs=['PART=2'], jobs=8, time=200), U('larger', 'c19.cpp', defs=['PART=6'], jobs=8, time=200), U('unseeded', 'c19.cpp', defs=['PART=3'], jobs=2), U('rdseed', 'c19.cpp', defs=['PART=5'], jobs=4), U('late', 'c19.cpp', defs=['PART=4'], jobs=8, time=200)], 'all seeds and identifiers; every sequence of 3 requests over 5 kinds and sizes 1,2,16 with optional reseed; sizes 0..66 at 8 alignments; requests of 14 sizes from 127 to 4097 bytes; up to 33 blocks and 42 words', 'all seeds and identifiers; every sequence of 4 requests with sizes 1,2,16,17; sizes 0..140 at 16 alignments; up to 70 blocks')
prop('C21', [U('mul', 'c21.cpp', defs=['PART=0'], jobs=4), U('inner', 'c21.cpp', defs=['PART=1'], jobs=4), U('innerfull', 'c21.cpp', defs=['PART=2'], jobs=4), U('pack', 'c21.cpp', defs=['PART=3'], jobs=4), U('coeff', 'c21.cpp', defs=['PART=4'], jobs=8, time=150)], 'products and reductions: all operands; inner products: lengths 0..9 and 9 lengths to 33 with one factor restricted to 8 free bits at three placements, all operands for length 1..2; packing and self-xor: all operands, lengths 0..21 and 13 lengths to 1000; coefficients: up to 14, 16, 17, 20 and 31 powers of any seed', 'as quick with longer vectors and up to 26 powers')
prop('C22', [U('transpose', 'c22.cpp', defs=['PART=0'], jobs=4), U('transpose_large', 'c22.cpp', defs=['PART=2'], jobs=4), U('helpers', 'c22.cpp', defs=['PART=1'], jobs=4)], 'all bit matrices with rows and columns multiples of 8 up to 64x64, and 16 larger shapes up to 2048x128 and 8x2056; helpers for all values, lengths 0..9 and 18 lengths to 1025', 'all bit matrices with rows and columns multiples of 8 up to 136x136; helpers for lengths 0..33')
prop('C23', [U('splits', 'c23.cpp', defs=['PART=0'], scale={'HASH_BUFFER_SIZE': 16}, jobs=8, time=120), U('realsize', 'c23.cpp', defs=['PART=1', 'CAP=90000'], jobs=4), U('forms', 'c23.cpp', defs=['PART=2'], jobs=4)], 'all contents; up to 3 pieces of every length 0..20 with the buffer constant scaled to 16, with a reset or digest in between; sequences of 3 pieces of 11 boundary sizes with the real buffer; one-shot forms of 0..40 bytes; key derivation for 8 encoding lengths', 'as quick with 4 pieces of length 0..34 and 4 boundary-sized pieces', outside='SHA-256 itself (OpenSSL) is a recording stand-in', stubs='OpenSSL EVP/EC/BN calls')
prop('C24', [U('values', 'c24.cpp', defs=['PART=0'], jobs=8, time=120), U('wire', 'c24.cpp', defs=['PART=1'], jobs=4)], 'every sequence of 2 operations out of 17 on 3 points and 2 integers, all values; up to 3 points with 7 encoding lengths, and 8, 17 and 40 points of mixed lengths', 'every sequence of 3 operations; up to 5 points with 8 encoding lengths', outside='the curve arithmetic of OpenSSL: stand-ins compute in a cyclic group and in machine integers', stubs='OpenSSL EC/BN calls')
prop('C26', [U('net', 'c26.cpp', defs=['SIZES=0,1,8,9,20', 'QK=3', 'TK=4', 'EXTRA=4'], scale={'NETWORK_BUFFER_SIZE': 8, 'NETWORK_BUFFER_SIZE2': 4}, jobs=8, time=200), U('realsize', 'c26.cpp', defs=['REALSIZE=1', 'SIZES=1,65536,1048576,1050000', 'QK=2', 'TK=3', 'EXTRA=0', 'WIRECAP=TIER(2200000,3300000)', 'NWIRE=2', 'MSGCAP=1050000'], jobs=6, time=200)], 'all contents; every sequence of 3 messages in either direction with sizes 0,1,8,9,20 and the stream buffer scaled to 8, with one flush, sync or exchange at any place, three ways of splitting transfers and three arrival timings; two messages of 1, 65536, 1048576 or 1050000 bytes with the real buffer (of the two largest, four windows of bytes are free and the rest fixed)', 'as quick with 4 messages (3 with the real buffer)', outside='sockets and stdio are a simulator with the semantics of C streams; connection failures and signals', stubs='sockets, stdio')
prop('C27', [U('hs', 'c26.cpp', defs=['HS=1', 'SIZES=0,1,3,5,9', 'QK=4', 'TK=5', 'EXTRA=1', 'WIRECAP=256'], scale={'NETWORK_BUFFER_SIZE': 8, 'NETWORK_BUFFER_SIZE2': 4}, jobs=8, time=200), U('realsize', 'c26.cpp', defs=['HS=1', 'REALSIZE=1', 'SIZES=1,1000,32768,33000,70000', 'QK=2', 'TK=3', 'EXTRA=0', 'WIRECAP=400000', 'NWIRE=4', 'MSGCAP=70000'], jobs=6, time=200)], 'all contents; every sequence of 4 messages in either direction with sizes 0,1,3,5,9 and the buffers scaled to 4 and 8, with a flush by both sides at any place, three ways of splitting transfers and three arrival timings; two messages of 1, 1000, 32768, 33000 or 70000 bytes with the real buffers', 'as quick with 5 messages (3 with the real buffers)', outside='sockets and stdio are a simulator with the semantics of C streams', stubs='sockets, stdio')
prop('C25', [U('memory', 'c25.cpp', defs=['PART=0'], jobs=8, time=120), U('default', 'c25.cpp', defs=['PART=1'], jobs=2), U('file', 'c25.cpp', defs=['PART=2'], scale={'FILE_BUFFER_SIZE': 8}, jobs=8, time=120), U('memory_large', 'c25.cpp', defs=['PART=4', 'RCAP=2200000'], jobs=6, time=150), U('file_large', 'c25.cpp', defs=['PART=5', 'RCAP=100000', 'FCAP=100000'], jobs=6, time=150), U('load', 'c25.cpp', defs=['PART=3'], scale={'FILE_BUFFER_SIZE': 8}, jobs=4)], 'all contents; memory channel: every sequence of 4 operations (send of 0,1,4,5,11 bytes, four receive amounts, clear) with capacities 0,1,5,64; file channel: up to 3 pieces of 0,1,7,8,9,20 bytes with the buffer scaled to 8, four ways of re-reading and splitting, three ways of partial transfers; loads of up to 12 bytes; two messages of 3000 to 1048576 bytes (free at three windows when above 50000) in memory and of 100 to 40000 bytes in a file with the real buffer', 'as quick with 5 operations, 4 pieces and loads of up to 20 bytes', outside='reading past the end of a channel; the operating system file layer is a simulator', stubs='stdio')
prop('C28', [U('bmi2', 'c28.cpp', jobs=4), U('portable', 'c28.cpp', flags=['-mno-bmi2'], jobs=4)], 'all contents, lengths 0..40 and 30 lengths to 8192, all pairs of alignments modulo 8 (nine pairs for lengths above 129), and three lengths to 524293 with six windows of free bits, with and without the BMI2 instructions', 'all contents, lengths 0..80 and 30 lengths to 8192, all pairs of alignments modulo 8 (nine pairs for lengths above 129), and three lengths to 524293 with six windows of free bits, with and without the BMI2 instructions')
prop('C29', [U('plain', 'c29.cpp', defs=['PART=0'], jobs=4, time=240), U('secret', 'c29.cpp', defs=['PART=1'], jobs=4, time=240), U('publiciv', 'c29.cpp', defs=['PART=2'], jobs=4, time=240), U('public', 'c29.cpp', defs=['PART=3'], jobs=4, time=240)] + [U(n + '_long', 'c29.cpp', defs=['PART=%d' % k, 'LONG=1'], jobs=4, time=240) for k, n in enumerate(['plain', 'secret', 'publiciv', 'public'])],
     'all keys, initial vectors, starting chunks below 2^64-70 and messages; 10 byte lengths up to 48 and 11 bit lengths up to 300; longer messages (to 255 bytes, 1025 bits) with 4 fixed initial vectors and 3 starting chunks around the carries; all three call forms', 'as quick, with bit lengths up to 600 (longer: to 1000 bytes, 2050 bits)',
     outside='the block cipher itself is a stand-in (decided separately: C14, and OpenSSL is trusted); messages longer than those listed; chunk indices that wrap 64 bits', stubs='OpenSSL counter mode and the AES circuit text are replaced by the same small block function, with the real wire order')
prop('C30', [U('sponge', 'c30.cpp', defs=['PART=0'], jobs=8, time=150), U('plain', 'c30.cpp', defs=['PART=1'], jobs=4)],
     'all message contents of 14 lengths from 0 to 600 bytes around multiples of the rate, 10 cut positions into three pieces, all six overloads, repeated calls', 'as quick with 22 lengths to 700 bytes',
     outside='the Keccak permutation itself (its circuit file is not shipped in this tree; OpenSSL is trusted); messages longer than those listed; messages that are not whole bytes', stubs='the permutation circuit text and OpenSSL SHA3 share one small 1600-bit function with the documented wire order')
prop('C12', [U('shapes', 'c12.cpp', defs=['PART=0'], jobs=8, time=150), U('programs', 'c12.cpp', defs=['PART=1'], jobs=4), U('larger', 'c12.cpp', defs=['PART=2'], jobs=8), U('wide', 'c12.cpp', defs=['PART=3'], jobs=8)],
     'every program of up to two gates over two inputs in any split and both constants, with one or two outputs of any wire; 8 integer programs on 3-bit operands; 40 generated programs of 10 to 110 gates with up to 30 outputs; operands of 40 to 128 bits fed in several batches; all inputs', 'as quick plus three inputs and 200 generated programs',
     outside='programs larger than those listed; programs that read inputs after computing (wire numbers of inputs must come first)', stubs='files are a virtual file system under the executor, real files in replay')
prop('C13', [U('format', 'c13.cpp', defs=['PART=0', 'NG=TIER(2,3)'], tdefs=[], jobs=8, time=150), U('fashion', 'c13.cpp', defs=['PART=1', 'NG=2'], tdefs=['NG=3'], jobs=8, time=150), U('flat', 'c13.cpp', defs=['PART=2', 'NG=3'], jobs=4), U('format_larger', 'c13l.cpp', defs=['FASHION=0'], jobs=8), U('fashion_larger', 'c13l.cpp', defs=['FASHION=1'], jobs=8), U('format_wide', 'c13l.cpp', defs=['FASHION=0', 'WIDE=1'], jobs=4), U('fashion_wide', 'c13l.cpp', defs=['FASHION=1', 'WIDE=1'], jobs=4)],
     'every circuit of up to 2 gates (3 for flat arrays) over two inputs, two wire numberings, three spacings, one or two outputs, from a file or memory stream; 24 generated circuits of 8 to 400 gates per format with every relative placement of input and output arrays; all inputs', 'as quick with up to 3 gates and 120 generated circuits',
     outside='circuits larger than those listed (the shipped ones are C14); gate kinds the loader does not know', stubs='files are a virtual file system under the executor, real files in replay')
import os as _os
_TI = ['-I' + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'harness', 'threadinc')]
prop('C31', [U('single', 'c31.cpp', defs=['PART=0', 'BUD=1', 'TASKS=TIER(2,3)'], flags=_TI, lib=[], jobs=8, time=120), U('deep', 'c31.cpp', defs=['PART=0', 'BUD=2', 'TASKS=TIER(1,2)'], flags=_TI, lib=[], jobs=8, time=120), U('submitters', 'c31.cpp', defs=['PART=1', 'BUD=1'], flags=_TI, lib=[], jobs=8, time=120), U('queue', 'c31.cpp', defs=['PART=3', 'BUD=0', 'PK=4', 'MANY=4'], flags=_TI, lib=[], jobs=8, time=120), U('queue1', 'c31.cpp', defs=['PART=3', 'BUD=1', 'PK=2', 'MANY=TIER(0,1)'], flags=_TI, lib=[], jobs=8, time=120), U('nested', 'c31.cpp', defs=['PART=2', 'BUD=1'], flags=_TI, lib=[], jobs=8, time=120)],
     'one or two workers, up to two tasks from one submitter (1 preemption; 2 preemptions for one task; one spurious wake-up), two submitters (1 preemption), a task that submits a task (1 preemption); queues of 3 to 48 tasks on up to four workers (no preemption, four free choices of the next thread; 3 tasks with 1 preemption and two); every choice of the next thread whenever one blocks; all argument values', 'up to three workers and three tasks, one more preemption; longer queues',
     outside='more threads, tasks or preemptions; memory-model effects of unsynchronised accesses (threads switch only at synchronisation operations and around task bodies); tasks that throw', stubs='std::thread, mutex, condition_variable, future and packaged_task are replaced by versions whose every operation is a scheduling point (harness/threadinc)')
_FL = ['core', 'float']
prop('C07', [U('addsub', 'c07.cpp', lib=_FL, jobs=8, time=200, qtime=60)], 'all pairs of operands and both operations (NaN operands and results excluded), split by exponent difference')
prop('C08', [U(n, 'c08.cpp', defs=['OP=%d' % k], lib=_FL, jobs=4, time=300, qtime=120) for k, n in enumerate(['mul', 'div', 'sqr', 'sqrt'])], 'all operands (NaN operands and results excluded), split into normal, exponent-zero and infinite operands', outside='NaN operands',
     stubs='the reference product adds its partial products in the order of harness/csa_hint.h (checked to use each exactly once); lemmas about the reference division and square root are obligations of their own')
prop('C09', [U('compare', 'c09.cpp', defs=['PART=0'], lib=_FL, jobs=4), U('bits', 'c09.cpp', defs=['PART=1'], lib=_FL, jobs=4), U('io', 'c09.cpp', defs=['PART=2'], lib=_FL, jobs=4), U('text', 'c09.cpp', defs=['PART=3'], lib=_FL, jobs=4)], 'comparisons: all pairs of operands that are not NaN; bit-level operations: all bit patterns; input and reveal: all patterns that are not NaN, all parties; text form: all patterns that are not NaN', stubs='vsnprintf("%f") is an injective rendering of the number under the executor')
_EF = ['sin', 'cos', 'exp', 'exp2', 'ln', 'log2']
prop('C10', [U(n, 'c10.cpp', defs=['PART=0', 'KF=%d' % k], lib=_FL, jobs=4, time=150, qtime=60, maxviol=6) for k, n in enumerate(_EF)] + [U(n + '_laws', 'c10.cpp', defs=['PART=1', 'KF=%d' % k], lib=_FL, jobs=4, time=150, qtime=60) for k, n in enumerate(_EF)],
     'all operands that are not NaN (infinite operands of sine and cosine, negative operands of the logarithms excluded)',
     outside='the accuracy of the recorded reference gate lists (harness/golden) against the true functions, which was established once by evaluating all 2^32 operands of each (tools/accuracy.cpp); a result that differs from the reference but may still be accurate is judged only at the solver-supplied operand',
     stubs='reference under the executor: recorded gate lists; in replay: the C library in double precision')
_CF = [('adder', 'bristol_format/adder_32bit.txt'), ('aes_format', 'bristol_format/AES-non-expanded.txt'), ('aes128', 'bristol_fashion/aes_128.txt'), ('aes192', 'bristol_fashion/aes_192.txt'), ('aes256', 'bristol_fashion/aes_256.txt'), ('sha1', 'bristol_format/sha-1.txt'), ('sha256_format', 'bristol_format/sha-256.txt'), ('sha256_fashion', 'bristol_fashion/sha256.txt')]
prop('C14', [U(n, 'c14.cpp', defs=['CK=%d' % k], blob='emp-tool/circuits/files/' + f, jobs=1, time=600, qtime=400) for k, (n, f) in enumerate(_CF)],
     'all inputs (keys, messages, blocks, chaining states) of all eight shipped circuit files', outside='bit orders other than the ones the files use (most significant bit first, whole string reversed in the Fashion files)', stubs='the file text is embedded in the harness and read through a memory stream')
prop('C32', [U('integers', 'c32.cpp', defs=['PART=0'], lib=_FL, jobs=8, time=120), U('sort_io', 'c32.cpp', defs=['PART=1'], lib=_FL, jobs=8, time=120), U('floats', 'c32.cpp', defs=['PART=2'], lib=_FL, jobs=8, time=120), U('circuits', 'c32.cpp', defs=['PART=3'], lib=_FL, jobs=8, time=120)],
     'arbitrary contents of every wire; widths 1..5,7,8,16,31..33,64,65 (modular power to 8; 300 and 1030 for the linear operations), all public shift amounts at small widths; sorts of 18 lengths to 64 in five forms; inputs and reveals of 7 widths, all private values; all float operations; loaded circuits, counter mode of 6 lengths, SHA3 of 6 lengths', 'as quick with widths to 128',
     outside='the contents of wires handed out by the backend are 61 free words spread over the wires, so two wires of the same class differ by a fixed value; timing and memory access patterns', stubs='the backend is a recorder that hands out wires with arbitrary contents; the AES and permutation circuit texts are the small stand-ins of C29 and C30')
prop('C33', [U('halfgates', 'c33.cpp', defs=['PF=0'], jobs=8, time=120), U('privacyfree', 'c33.cpp', defs=['PF=1'], jobs=8, time=120)],
     'all offsets, labels, seeds, setup messages and tables; all values and lowest bits of three wires and the constants; 9 and-gates in a row with repeated and equal operands, with and without a second offset', 'as quick with 12 gates',
     outside='the strength of AES itself (a random permutation here); longer sequences (C15 to C17 decide that no key index or tweak is used twice)', stubs='the block cipher is a random permutation sampled as it is asked, the random generator hands out blocks chosen by the harness (harness/oraclecrypt.h)')
