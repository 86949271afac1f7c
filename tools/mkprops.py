#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the property texts live here).
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
C = "emp-tool/circuits/"; U = "emp-tool/utils/"; E = "emp-tool/execution/"; G = "emp-tool/gc/"; I = "emp-tool/io/"

p("C01", "Secret bits: every boolean operator computes its truth table",
  "For every value of the operands and whichever of them are public constants or private inputs of either party, and, or, xor, not, equality, inequality, conditional selection and conditional swap of secret bits reveal exactly the result of the same boolean operation on the plaintexts. A selection returns the first alternative when the condition is true and the second otherwise, and a swap exchanges its two operands exactly when the condition is true. The operands themselves are never altered by computing on them, apart from the in-place forms.",
  ["inputs", "configurations"], "all operand values and all public/private origin combinations",
  "The bit test runs the operators on fixed combinations in the plain backend; it does not establish them for every backend-visible combination of public and private operands.",
  [C+"bit.h", C+"bit.hpp", C+"swappable.h", E+"plain_circ.h"],
  [("Bit operators", C+"bit.hpp"), ("If / swap", C+"swappable.h")], ["Bit::reveal"])
p("C02", "Secret integers: add, subtract, negate, abs and comparisons are exact",
  "For integers of any equal width, addition, subtraction, negation and absolute value reveal the two's complement result modulo 2 to the width, and the six comparisons agree with signed two's complement order and equality. This holds for every operand value, including the most negative value and all carry and borrow chains.",
  ["inputs", "configurations"], "all operand values at every width",
  "test/int.cpp samples random 32-bit pairs; rare carry patterns, extreme values and other widths are not reached.",
  [C+"integer.h", C+"integer.hpp", C+"comparable.h"],
  [("add_full/sub_full", C+"integer.hpp"), ("geq/equal", C+"integer.hpp"), ("Comparable", C+"comparable.h")], ["Integer::reveal"])
p("C03", "Secret integers: multiply, divide, remainder and modular exponent are exact",
  "Multiplication reveals the product modulo 2 to the width; division and remainder by a nonzero divisor truncate toward zero with the remainder taking the dividend's sign, wrapping modulo 2 to the width in the one overflowing case. Modular exponentiation reveals base to the exponent modulo the modulus for unsigned exponent bits and a nonnegative base and a modulus above one whose squares fit in the signed width.",
  ["inputs", "configurations"], "all operand values with nonzero divisor, at every width",
  "Random 32-bit samples cannot cover quotient and sign corner cases, and modular exponentiation is not tested at all.",
  [C+"integer.h", C+"integer.hpp"],
  [("mul_full", C+"integer.hpp"), ("div_full/condNeg", C+"integer.hpp"), ("modExp", C+"integer.hpp")], ["Integer::reveal"])
p("C04", "Secret integers: shifts, resize, bit counts, bitwise logic and selection",
  "Shifting by a public amount is a logical shift that yields zero once the amount reaches the width; shifting by a secret amount less than the width gives the same result as the public shift by that amount. Resizing truncates or sign/zero extends as asked; bitwise operators, conditional selection and conditional swap act on every bit; the population count and the number of leading zeros are exact for every value. Indexing reads the addressed bit, and an index past the width reads the top bit.",
  ["inputs", "configurations"], "all values, widths and shift amounts",
  "The tests use 32-bit values and a few random shift amounts; other widths, boundary amounts and odd sizes are not reached.",
  [C+"integer.h", C+"integer.hpp"],
  [("operator<< / operator>>", C+"integer.hpp"), ("hamming_weight/leading_zeros", C+"integer.hpp"), ("resize/select", C+"integer.hpp")], ["Integer::reveal"])
p("C05", "Conversions between plain values, bit arrays, secret integers and blocks",
  "Feeding a plain value of any width and revealing it returns exactly its low bits, with bits above the width sign-extended from the source value on input and zero on output of narrow integers, and revealing to a string lists bits from least to most significant. Converting integers, memory or 128-bit blocks to arrays of booleans and back is the identity bit for bit in least-significant-first order (most-significant-first in reverse mode). No conversion reads or writes outside the given number of bits of the given buffers or changes bits beyond the requested length.",
  ["inputs", "configurations"], "all values, lengths and both bit orders",
  "The tests convert a few random values at fixed lengths; the reverse mode, lengths not a multiple of 8 and neighbouring memory are never examined.",
  [U+"utils.h", U+"utils.hpp", C+"integer.h", C+"integer.hpp"],
  [("to_bool/from_bool", U+"utils.hpp"), ("int_to_bool/bool_to_int", U+"utils.hpp"), ("Integer::reveal", C+"integer.hpp")])
p("C06", "Oblivious sort orders keys, permutes them and keeps payloads attached",
  "Sorting an array of any length leaves it in nondecreasing signed order, or nonincreasing order when descending is requested, and the output is a permutation of the input. When payloads are given, every payload ends next to the key it started with.",
  ["inputs", "configurations"], "all key and payload values, array lengths and both directions",
  "The tests sort a few random arrays of one size; sorting-network correctness depends on every input pattern and every (non power of two) length.",
  [C+"number.h", C+"swappable.h", C+"comparable.h"],
  [("bitonic_sort/bitonic_merge/cmp_swap", C+"number.h")])
p("C07", "Secret floats: addition and subtraction round as IEEE-754 binary32",
  "For all normal, zero and infinite operands, addition and subtraction of secret floats reveal bit for bit the IEEE-754 round-to-nearest-even single precision result whenever that result is itself normal, zero or infinite (not NaN). Results that would be subnormal are flushed to zero, and subnormal operands behave as zeros.",
  ["inputs"], "all operand pairs in the stated classes",
  "test/float.cpp samples random values of moderate magnitude; rounding ties, cancellation, alignment extremes, overflow and infinities are rare in samples.",
  [C+"float32.h", C+"float32_add.cpp", C+"float32_sub.cpp", C+"circuit_file.h"],
  [("operator+", C+"float32_add.cpp"), ("operator-", C+"float32_sub.cpp"), ("execute_circuit", C+"circuit_file.h")], ["Float::reveal"])
p("C08", "Secret floats: multiply, divide, square and square root round correctly",
  "For all normal, zero and infinite operands, multiplication and division of secret floats reveal bit for bit the IEEE-754 round-to-nearest-even single precision result whenever that result is normal, zero or infinite, and flush subnormal results to zero. Squaring and square root are IEEE-correct for every nonnegative operand, and square root of a negative nonzero operand is a NaN.",
  ["inputs"], "all operands in the stated classes",
  "Only random operands of moderate magnitude are sampled; rounding ties, overflow boundaries, infinities and subnormal operands are not.",
  [C+"float32.h", C+"float32_mul.cpp", C+"float32_div.cpp", C+"float32_sq.cpp", C+"float32_sqrt.cpp"],
  [("operator*", C+"float32_mul.cpp"), ("operator/", C+"float32_div.cpp"), ("sqr", C+"float32_sq.cpp"), ("sqrt", C+"float32_sqrt.cpp")], ["Float::reveal"])
p("C09", "Secret floats: comparison, abs, negate, select, input and reveal",
  "For all normal, zero and infinite operands, equality, less-than and less-or-equal of secret floats agree with IEEE-754 (both zeros equal; subnormal operands count as zeros). Feeding a float and revealing it returns the same bit pattern; absolute value clears and negation flips only the sign; conditional selection returns the argument when the condition is true and the receiver otherwise; bitwise operators act on all 32 bits. Indexing reads the addressed bit, and an index past the width reads the sign bit.",
  ["inputs"], "all operands in the stated classes; all bit patterns for the bit-level operations",
  "Random samples never hit equal operands, signed zeros, neighbouring values or infinities.",
  [C+"float32.h", C+"float32.hpp", C+"float32_eq.cpp", C+"float32_le.cpp", C+"float32_leq.cpp"],
  [("equal", C+"float32_eq.cpp"), ("less_than", C+"float32_le.cpp"), ("less_equal", C+"float32_leq.cpp"), ("abs/If/reveal", C+"float32.hpp")])
p("C10", "Secret floats: sine, cosine, exponentials and logarithms stay accurate",
  "For every operand that is not a NaN (subnormal operands count as zeros): sine and cosine of pi times a finite secret float are within 1e-6 of the true value, exact at multiples of one half, odd and even respectively, and never outside -1..1; base-2 and natural exponential are within 2 units in the last place, never negative, exactly 1 at zero and exact at integers (base 2), infinite above the range and zero below it; base-2 and natural logarithm of a positive operand are within 2 units in the last place or 2e-7, minus infinity at zero, exactly zero at one and exact at powers of two (base 2), of the right sign on both sides of one.",
  ["inputs"], "all inputs of the stated ranges",
  "The tests sample a few hundred random arguments per function; a wrong table entry or gate on a rarely used segment is not seen.",
  [C+"float32_sin.cpp", C+"float32_cos.cpp", C+"float32_exp.cpp", C+"float32_exp2.cpp", C+"float32_ln.cpp", C+"float32_log2.cpp"],
  [("sin/cos", C+"float32_sin.cpp"), ("exp/exp2", C+"float32_exp.cpp"), ("ln/log2", C+"float32_ln.cpp")])
p("C11", "Plain backend: gates on public and private wires, and gate accounting",
  "In the plaintext backend every gate on every combination of public and private wires yields a wire whose value is the gate's truth table; a gate whose result is determined by public operands yields a public wire and costs nothing. The reported gate totals count exactly the gates executed on private wires: and-gates only for conjunctions of two private wires.",
  ["inputs", "histories"], "all wire kinds and values, any sequence of gates",
  "Tests check end results of a few programs, not the value of each wire-kind combination nor the counters.",
  [E+"plain_circ.h", E+"plain_prot.h"],
  [("and_gate/xor_gate/not_gate", E+"plain_circ.h"), ("feed/reveal", E+"plain_prot.h")])
p("C12", "Circuit emission: the written circuit computes what the program computed",
  "When a program is run in the plaintext backend with circuit output enabled, with the first party's inputs fed first, then the second party's, then the computation, loading the written file and evaluating it on any inputs yields, output by output in reveal order, what the program itself reveals on those inputs. This includes outputs that are constants, repeated outputs and outputs that are inputs. The header states the exact gate, wire, input and output counts.",
  ["programs", "inputs"], "all programs of the stated shape and all inputs",
  "The test emits one program (a sort) and evaluates it on one input.",
  [E+"plain_circ.h", E+"plain_prot.h", C+"circuit_file.h"],
  [("setup_plain_prot/finalize_plain_prot", E+"plain_prot.h"), ("gate printing", E+"plain_circ.h"), ("BristolFormat", C+"circuit_file.h")])
p("C13", "Circuit files: loading and evaluating any well-formed Bristol circuit",
  "For every well-formed circuit in the older or the newer text format, loading it and evaluating it on any inputs gives exactly the values defined by its gate list, with inputs and outputs in the documented wire order, regardless of gate order details and wire numbering, and regardless of which backend evaluates it. Re-evaluating the same loaded circuit, or evaluating with output and input in the same array, gives the same answer, and a circuit converted to an include file reproduces the same gates.",
  ["programs", "inputs"], "all circuits up to the stated size, all inputs",
  "Tests evaluate one or two shipped circuits on single inputs.",
  [C+"circuit_file.h"],
  [("BristolFormat/BristolFashion", C+"circuit_file.h"), ("execute_circuit", C+"circuit_file.h")])
p("C14", "Shipped circuit files compute AES, SHA and addition",
  "The shipped circuit files, loaded and evaluated through the library, compute their named functions for every input: AES-128/192/256 encryption, the SHA-1 and SHA-256 compression of one block, and 32-bit addition, in the documented bit order.",
  ["inputs"], "all inputs of every shipped circuit",
  "Only single test vectors of some of the files are ever evaluated.",
  [C+"files/bristol_fashion/aes_128.txt", C+"files/bristol_fashion/sha256.txt", C+"files/bristol_format/AES-non-expanded.txt", C+"files/bristol_format/adder_32bit.txt", C+"files/bristol_format/sha-1.txt", C+"files/bristol_format/sha-256.txt", C+"circuit_file.h"],
  [("gate lists", C+"files/"), ("loader", C+"circuit_file.h")])
p("C15", "Half-gates garbling: the evaluator always gets the label of the true value",
  "For every pair of input labels, every global offset (whose lowest bit is always one), every hash seed and every sequence of gates, evaluating the garbled gates with the active labels yields exactly the label that the garbler associates with the gate's plaintext output, for and, xor, not and public constants. Both sides stay in step: they hash with the same sequence of keys and report the same and-gate counts, and exactly two blocks are sent per and-gate and none for other gates.",
  ["inputs", "histories"], "all labels, offsets, seeds and plaintext values; gate sequences",
  "The garbling tests garble with random labels and check a few outcomes.",
  [G+"halfgate_gen.h", G+"halfgate_eva.h", U+"mitccrh.h"],
  [("halfgates_garble", G+"halfgate_gen.h"), ("halfgates_eval", G+"halfgate_eva.h"), ("MITCCRH", U+"mitccrh.h")])
p("C16", "Privacy-free garbling: the evaluator always gets the label of the true value",
  "For every pair of input labels whose zero-labels have lowest bit zero, every global offset and every gate sequence, evaluating privacy-free garbled gates with the active labels yields the label that the garbler associates with the gate's plaintext output, for and, xor, not and public constants. Labels keep the plaintext value in their lowest bit, exactly one block is sent per and-gate, and no tweak is used for two gates.",
  ["inputs", "histories"], "all labels, offsets and plaintext values; gate sequences",
  "The existing tests only run the half-gates scheme on random labels; the privacy-free scheme is not exercised gate by gate.",
  [G+"privacy_free_gen.h", G+"privacy_free_eva.h", U+"prp.h"],
  [("privacy_free_garble", G+"privacy_free_gen.h"), ("privacy_free_eval", G+"privacy_free_eva.h")])
p("C17", "Multi-instance hash: every key index is used once and matches its definition",
  "Each call hashes every block x as AES under a per-group key of x, xored with x (with the linear orthomorphism applied first in the circular variant), where the keys are the start point offset by consecutive indices. For any interleaving of supported call shapes no key index serves two groups of blocks and no unset key is ever used; restarting at a given index continues from exactly that index.",
  ["inputs", "histories"], "all start points, data and sequences of call shapes",
  "The test runs one call shape and compares against itself.",
  [U+"mitccrh.h", U+"aes_opt.h"],
  [("hash/hash_cir/renew_ks", U+"mitccrh.h")])
p("C18", "AES: encryption, decryption and batched key schedules follow FIPS-197",
  "For every key and block, single and batched encryption computes AES-128 as in FIPS-197, decryption inverts encryption, and the batched multi-key schedule and multi-key encryption give for every key the same results as the single-key routines, for every supported number of keys and blocks. No call touches blocks beyond the requested count.",
  ["inputs", "configurations"], "all keys and blocks; all batch sizes",
  "Tests compare two routines on a few random keys, and never test decryption.",
  [U+"aes.h", U+"aes_opt.h"],
  [("AES_set_encrypt_key", U+"aes.h"), ("AES_ecb_encrypt_blks", U+"aes.h"), ("AES_opt_key_schedule/ParaEnc", U+"aes_opt.h"), ("AES_ecb_decrypt_blks", U+"aes.h")])
p("C19", "Random generator: output is the AES counter stream of the seed, never repeated",
  "From a seed and identifier the generator produces the AES-CTR keystream under the seed xor the identifier: the same requests give the same bytes whatever the alignment of the destination, no keystream block is ever given out twice across any sequence of requests, and reseeding restarts every interface at the beginning of the new stream. Every request fills exactly the requested bytes, boolean requests give only 0 or 1, and without a seed all 128 key bits come from the system's randomness.",
  ["inputs", "histories"], "all seeds, identifiers, request kinds, sizes, alignments and sequences",
  "Tests compare a few fixed sizes for one seed; mixed call sequences, reseeding, alignments and buffer edges are not covered.",
  [U+"prg.h", U+"aes.h"],
  [("random_block/random_data/random_data_unaligned/random_bool", U+"prg.h"), ("reseed", U+"prg.h"), ("operator()", U+"prg.h")])
p("C20", "Fixed-key permutation and correlation-robust hashes match their definitions",
  "For every key, input and batch length, the permutation is AES under the key on each block; the correlation robust hash is pi(x) xor x; its circular variant applies it to sigma(x); the tweakable variant is pi(pi(x) xor i) xor pi(x), with consecutive tweaks in batches. Single, fixed-size and variable-length forms agree, in place or not and with or without scratch space.",
  ["inputs", "configurations"], "all keys, inputs, tweaks, lengths and aliasing of output with input",
  "Tests check consistency on a few random inputs.",
  [U+"prp.h", U+"crh.h", U+"ccrh.h", U+"tccrh.h", U+"block.h"],
  [("permute_block", U+"prp.h"), ("H/Hn", U+"crh.h"), ("H/Hn", U+"ccrh.h"), ("H/Hn", U+"tccrh.h"), ("sigma", U+"block.h")])
p("C21", "GF(2^128) arithmetic is exact, including vectors and packing",
  "For all operands, multiplication gives the product in GF(2)[x] modulo x^128+x^7+x^2+x+1 (and the bit-reflected variant the reflected product), the unreduced product is the 256-bit carry-less product, and reduction agrees with it. Inner products with and without reduction, hash coefficients (consecutive powers of the seed), packing of 128 elements and the xor of a vector equal their defining sums for every length.",
  ["inputs", "configurations"], "all operands and vector lengths",
  "Tests compare a few random products with another implementation.",
  [U+"f2k.h"],
  [("mul128/reduce/gfmul", U+"f2k.h"), ("vector_inn_prdt_sum_red", U+"f2k.h"), ("uni_hash_coeff_gen", U+"f2k.h"), ("GaloisFieldPacking", U+"f2k.h")])
p("C22", "Bit-matrix transpose and block helpers are exact and stay in bounds",
  "For every bit matrix whose dimensions are multiples of 8 (rows at least 16 or any multiple of 8), the transpose routine produces exactly the transposed matrix, reading only the input and writing only the output. Block helpers (construction, lowest bit, setting a bit, xor of arrays, comparison, the linear orthomorphism) compute their definitions for every value and length.",
  ["inputs", "configurations"], "all matrix contents and dimensions, all block values",
  "No test exercises the transpose at all; helpers are used incidentally.",
  [U+"block.h"],
  [("sse_trans", U+"block.h"), ("set_bit/cmpBlock/xorBlocks_arr/sigma", U+"block.h")])
p("C23", "Streaming hash equals the hash of the concatenation of everything put",
  "However the input is split into pieces of whatever sizes, the streaming hash equals SHA-256 of the concatenation in order of all pieces put since creation, reset or the last digest; one-shot and block forms agree with it and truncate as documented. Key derivation from a curve point hashes exactly the point's encoding followed by the 8-byte identifier.",
  ["inputs", "histories"], "all data, piece sizes and call sequences",
  "Tests hash small pieces once; the internal buffer's boundary cases need specific sequences of sizes.",
  [U+"hash.h"],
  [("put/digest/reset", U+"hash.h"), ("hash_for_block/KDF", U+"hash.h")])
p("C24", "Curve points and big integers: value semantics, wrappers and wire encoding",
  "Copies, assignments and temporaries of points and big integers behave as independent values: no operation changes its operands, nothing is freed twice or used after being freed, and each arithmetic method passes its operands to the underlying library in the right roles. Sending any number of points over a channel and receiving them yields the same points, whatever their encoded lengths.",
  ["inputs", "histories"], "all sequences of copies, assignments and operations; all encodings",
  "The ecc test runs a straight-line sequence on random values.",
  [U+"group.h", U+"group_openssl.h", I+"io_channel.h"],
  [("BigInt/Point/Group", U+"group_openssl.h"), ("send_pt/recv_pt", I+"io_channel.h")])
p("C25", "Memory and file channels deliver exactly the bytes sent, in order",
  "For any interleaving of sends and receives of any sizes, a memory channel returns exactly the bytes sent, in order, across buffer growth, and after being cleared it behaves as new; a file channel returns, after rewinding or reopening, exactly the bytes written even if the operating system transfers them piecemeal. A memory channel loaded from a file holds exactly that file's bytes, and no operation reads or writes outside its buffers.",
  ["inputs", "histories", "fault_sequences"], "all contents, sizes and sequences of operations; partial transfers",
  "Tests use these channels incidentally with small fixed messages.",
  [I+"mem_io_channel.h", I+"file_io_channel.h", I+"io_channel.h"],
  [("send_data_internal/recv_data_internal/clear", I+"mem_io_channel.h"), ("FileIO", I+"file_io_channel.h")])
p("C26", "Network channel: lossless ordered bytes, partial I/O, and no lost flush",
  "Over a network channel the peer receives exactly the concatenation of all bytes sent, in order, even when every underlying read and write transfers only part of what was asked. Before an endpoint waits to receive, everything it has sent is handed to the network, so two endpoints that follow matching send/receive patterns never wait for each other forever; closing also delivers everything, and so does a flush; once one endpoint has returned from a sync, the other can return from it without any further action of the first. The byte counter equals the bytes sent.",
  ["inputs", "histories", "fault_sequences"], "all send/receive patterns, sizes and partial transfers",
  "The loopback test sends fixed patterns and the kernel rarely splits transfers.",
  [I+"net_io_channel.h", I+"io_channel.h"],
  [("send_data_internal/recv_data_internal/sync/flush", I+"net_io_channel.h")])
p("C27", "High-speed channel: lossless ordered bytes across padded buffers",
  "Over a high-speed duplex channel, for any alternating pattern of sends and receives of any sizes matched by the peer, each side receives exactly the bytes the other sent, in order, despite fixed-size block padding, internal buffering and partial transfers. Before an endpoint waits to receive, everything it has sent is on the wire, and so it is after a flush. No operation reads or writes outside its buffers.",
  ["inputs", "histories", "fault_sequences"], "all matched send/receive patterns and sizes, partial transfers",
  "The loopback test uses fixed power-of-two sizes; exact-fit and just-over-capacity patterns are not reached.",
  [I+"highspeed_net_io_channel.h", I+"io_channel.h"],
  [("SenderSubChannel/RecverSubChannel/HighSpeedNetIO", I+"highspeed_net_io_channel.h")])
p("C28", "Boolean arrays survive packed transmission for every length and alignment",
  "Sending an array of booleans of any length over any channel and receiving it yields the same array, whatever the memory alignment of the two buffers and whichever instruction set variant was compiled; nothing outside the arrays is read or written. Sender and receiver always agree on the number of bytes exchanged, also when their buffers are aligned differently.",
  ["inputs", "configurations"], "all contents, lengths, and alignments of both buffers",
  "Tests send large aligned arrays over loopback; short, odd-length and differently aligned arrays are not tried.",
  [I+"io_channel.h"],
  [("send_bool/recv_bool", I+"io_channel.h")])
p("C29", "AES counter mode: in-circuit and out-of-circuit results agree",
  "For every key, initial vector, message length and starting chunk, the in-circuit counter mode (with secret or public key and initial vector) and the out-of-circuit one give the same ciphertext: message xor AES of the big-endian 128-bit counter starting at the initial vector plus the starting chunk, with carry over all 128 bits (chunk indices themselves are 64-bit numbers that do not wrap). In-place, separate-output and keystream-only forms agree and touch only the requested bits.",
  ["inputs", "configurations"], "all keys, initial vectors, lengths and starting chunks",
  "The test compares random initial vectors, for which a counter carry beyond 64 bits practically never happens.",
  [C+"aes_128_ctr.h"],
  [("aes_128_ctr", C+"aes_128_ctr.h"), ("AES_128_CTR_Calculator", C+"aes_128_ctr.h")])
p("C30", "In-circuit SHA3-256 absorbs, pads and squeezes per FIPS-202",
  "For every message of a whole number of bytes, the in-circuit hash applies to the permutation exactly the FIPS-202 SHA3-256 sponge: rate 1088, message bits in order whichever way they are split into arrays or integers, domain and final padding bits, 256 output bits. All overloads agree.",
  ["inputs", "configurations"], "all messages of whole bytes, all splits, lengths around the rate",
  "The test hashes a few lengths, and cannot run here (its permutation circuit is not shipped in this tree).",
  [C+"sha3_256.h"],
  [("SHA3_256_Calculator", C+"sha3_256.h")])
p("C31", "Thread pool runs every submitted task exactly once, also at shutdown",
  "Every task accepted by the pool is executed exactly once, its future delivers its result, and destroying the pool waits for all accepted tasks, for any number of workers and any interleaving.",
  ["schedules", "histories"], "all interleavings of workers, submissions and destruction",
  "No test exercises the pool.",
  [U+"ThreadPool.h"],
  [("enqueue/worker loop/destructor", U+"ThreadPool.h")])
p("C32", "Obliviousness: the gates requested never depend on secret data",
  "For every operation on secret bits, integers and floats, for sorting, and for evaluating loaded circuits, in-circuit AES counter mode and in-circuit SHA3, the sequence of gates requested from the backend and the wires each of them joins are determined by widths, lengths and public parameters alone: no operation looks at, branches on or combines the contents of a wire itself, so any backend may put anything there and the two parties of a protocol, who hold different contents, always request the same gates in the same order. No operation other than an explicit reveal discloses anything, and which bits are fed or revealed, by and to whom and in which order, does not depend on the private values.",
  ["inputs", "configurations"], "all contents of all wires, all private input values, at every width and length",
  "Tests run in the plaintext backend, where a wire holds its own value and a shortcut that looks at it goes unnoticed.",
  [C+"bit.hpp", C+"integer.hpp", C+"swappable.h", C+"number.h", C+"float32.hpp", C+"circuit_file.h", C+"aes_128_ctr.h", C+"sha3_256.h"],
  [("Bit / Integer / Float operations", C+"integer.hpp"), ("sort", C+"number.h"), ("compute", C+"circuit_file.h"), ("calculators", C+"aes_128_ctr.h")], ["CircuitExecution", "ProtocolExecution"])
p("C33", "Garbling hides the offset and the values: every message stays masked",
  "Taking the block cipher as a random permutation and the generator's draws as uniform, everything the garbler sends, at setup, when an offset is set and for every and-gate, of the half-gates and of the privacy-free scheme, is distributed independently of the global offset and, for half-gates, of the plaintext values, given what the evaluator can compute itself: for every offset, all values and all labels held by the evaluator, each possible message is produced by some values of the cipher at points the evaluator cannot ask. This holds for any sequence of gates, including gates that reuse a wire, have the same wire as both operands, or have constant operands.",
  ["inputs", "histories"], "all offsets, values, labels, seeds and messages, sequences of gates",
  "Tests compare outputs, and leaking the offset or masking two messages with the same hash leaves every output right.",
  [G+"halfgate_gen.h", G+"halfgate_eva.h", G+"privacy_free_gen.h", G+"privacy_free_eva.h", U+"mitccrh.h"],
  [("set_delta / constructor", G+"halfgate_gen.h"), ("halfgates_garble", G+"halfgate_gen.h"), ("privacy_free_garble", G+"privacy_free_gen.h"), ("MITCCRH key indices", U+"mitccrh.h")], ["send_block"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
