"""The properties, and which analysis decides which (source of properties.jsonl and MANIFEST.json)."""
AI = 'Abstract interpretation of the type-checked MIR of /repo (value-numbered linear/relational domain over memory objects; nothing is executed, no solver). '
PROPS = {}
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, modules, floor, rule, explanation, technique, note, state=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     modules=modules, floor=floor, rule=rule, explanation=explanation, technique=technique, note=note)
def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason)

BI = ['src/bigint/bigint.rs', 'src/bigint/bigint_macro.rs']
prop('C05', 'Signed integer arithmetic is exact and never yields a negative zero',
  'For all signed big integers, addition, subtraction, multiplication, truncated division and remainder, Euclidean division and remainder, negation and absolute value return exactly the mathematical result, in both the value-returning and the assigning form. A NaN operand gives NaN, a zero divisor panics, and a result equal to zero is the ordinary zero (never a negative zero).',
  ['inputs'], 'all pairs of signed integers of any size, NaN included', 'tests evaluate a few dozen fixed literals; the sign case split has 16 operand classes per operator and the zero-result corner of each is not sampled',
  BI, 'the sign/magnitude case split behind each operator impl',
  [('c_big', 'arith'), ('c_nat', 'arith'), ('c_div', 'x')], 400,
  'every outcome of every signed operator, per sign/zero/NaN class of the operands: result == mathematical result as a term over the operand values, and a negative sign only on a provably non-zero magnitude',
  AI + 'Natural-number operators are replaced by their mathematical contracts; each signed operation is analysed on every combination of operand classes.',
  'abstract interpretation of MIR with contracts; term equality against the mathematical oracle',
  'Holds for all magnitudes; trusts the natural-number contracts (decided at limb level by C12/C22) and the models of the standard library.')
prop('C06', "Signed bitwise operations and shifts follow infinite two's complement",
  "For all signed big integers, and, or, xor, and-not, not, left shift and right shift return the value the operation has on infinite two's complement representations (right shift rounds towards negative infinity), in both the value-returning and the assigning form. A NaN operand gives NaN.",
  ['inputs'], 'all pairs of signed integers and all shift amounts', 'tests use a few literals, none with mixed signs for most operators; the sign split has 16 classes per operator',
  BI, 'the -x == ^(x-1) rewriting in each bitwise operator',
  [('c_big', 'bits'), ('c_nat', 'bits'), ('c_nat', 'shift')], 200,
  "bitwise/shift result == the two's-complement truth-table (resp. floor quotient) term",
  AI + 'Bitwise terms are canonical truth tables over the operand magnitudes (magnitude-1 for negatives).',
  'abstract interpretation of MIR with contracts; canonical truth-table terms',
  'Holds for all magnitudes and shift amounts below 2^40; trusts the natural-number contracts and the models of the standard library.')

ALLN = ['src/bigint/nat.rs', 'src/bigint/nat_amd64.rs', 'src/bigint/nat_avx2.rs', 'src/bigint/bigint.rs', 'src/bigint/rat.rs', 'src/bigint/float.rs']
prop('C01', 'Operations never modify an operand they only read',
  'Cloning a number shares its digit storage. No public operation or trait method of Nat, BigInt, Rat or Float changes the value of an operand it takes by shared reference or by value: all shallow clones of that operand keep their value after the call. Only the receiver of an assigning operator or of another &mut self method is changed.',
  ['inputs', 'histories'], 'all operations, all operand values, any sharing between clones', 'tests compare results of single operations; corrupting a clone that is looked at later needs a sharing pattern no test creates',
  ALLN, 'Rc-shared digit vectors that are mutated through as_mut_vec()/as_mut_slice()',
  [('c_eff', 'pure')], 4000,
  'at every return of every public operation and trait method: the digit buffer of every read-only operand is the one passed in, never written, and its recorded length is unchanged',
  AI + 'Every public operation is analysed on every tuple of operand classes; upper layers use the operations below them through contracts that are themselves analysed by this check.',
  'abstract interpretation of MIR (store versioning on input buffers: an effect analysis)',
  'Decided per operation and operand class; a handful of number-theory loops (exp with three operands, probably_prime_test) stay undecided within the limits and are listed in the evidence.')
prop('C02', 'Results own their digit storage',
  'Every number returned by an operation of Nat, BigInt, Rat or Float, other than clone(), owns digit storage of its own: a later assigning operation on the result never changes an operand, and vice versa. Assigning operators never make the receiver share storage with the right operand.',
  ['inputs', 'histories'], 'all operations, all operand values', 'tests look at the value returned, not at who else sees it change later',
  ALLN, 'deep_clone() in the value-returning operators; Rc-shared vectors',
  [('c_eff', 'own')], 1500,
  'no Rc box reachable from the result (or from the receiver after an assigning operation) is the box of an operand',
  AI + 'The points-to set of the result storage is computed for every public operation and every tuple of operand classes.',
  'abstract interpretation of MIR (points-to / ownership of Rc storage)',
  'Decided per operation and operand class; undecided ones are listed in the evidence.')

NATF = ['src/bigint/nat.rs', 'src/bigint/nat_macro.rs', 'src/bigint/nat_amd64.rs', 'src/bigint/nat_avx2.rs', 'src/bigint/arith_amd64.rs']
EX = AI + 'Every limb of the operands is a symbol that ranges over all 2^32 values; loops over limbs are unrolled for the fixed limb counts of each class, digit arithmetic (carries, masks, widening products, vector lanes) is split exactly into linear parts, and the digits of the result are summed up to a term that must equal the oracle term.'
prop('C22', 'Natural-number arithmetic is exact for every digit pattern',
  'For all natural numbers, +, - (absolute difference), *, &, |, ^, and-not, and the forms of +, -, *, /, % with a machine-word right operand return exactly the mathematical value, whatever carries, borrows or operand lengths are involved, in both the value-returning and the assigning form. A NaN operand gives NaN and a zero machine-word divisor panics.',
  ['inputs'], 'all digit values for operand lengths up to nine digits (twenty in the thorough tier)', 'a carry or borrow that ripples through a particular digit pattern has probability about 2^-32 per digit in random tests; the tests use fixed literals',
  NATF, 'carry and borrow propagation, vector-lane products, truncation and trimming of digit vectors',
  [('c_nat', 'arith'), ('c_nat', 'bits')], 400,
  'sum of result digits * 2^(32 i) == oracle term over the operand digits, on every path',
  EX, 'abstract interpretation of MIR at digit level; linear-term equality modulo the relations of the path',
  'All digit values, bounded number of digits (longer operands repeat the same loop bodies).')
prop('C23', 'Natural-number shifts are exact for every shift amount class',
  'Shifting a natural number left by n multiplies it by 2^n, shifting right by n is the floor of the division by 2^n, for all values and for shift amounts that are and are not multiples of the digit width, smaller or larger than the number, in both the value-returning and the assigning form. NaN stays NaN and zero stays zero.',
  ['inputs'], 'all digit values, operand lengths up to four digits, representative shift amounts 0..130', 'tests shift a handful of literals; digit-multiple and past-the-end amounts are separate code paths',
  NATF[:2], 'digit rotation plus bit rotation with masks',
  [('c_nat', 'shift')], 200,
  'left shift: result term == 2^n * value; right shift: 0 <= value - 2^n * result < 2^n',
  EX, 'abstract interpretation of MIR at digit level; linear-term equality modulo the relations of the path',
  'All digit values; operand length and shift amount bounded as listed in the evidence.')
prop('C12', 'Natural numbers are always kept in canonical form',
  'Every natural number produced by an operation has no leading zero digit (zero is the single digit 0, NaN has no digits): the outcome of arithmetic, bitwise operations, shifts and conversions is independent of how a value was computed, so equal values compare equal and have the same digit count and bit length.',
  ['inputs', 'histories'], 'all digit values for operand lengths up to four digits (eight in the thorough tier)', 'a leading zero digit only appears when high digits cancel; results still print correctly, so tests do not notice, but comparison and bit length go wrong afterwards',
  NATF, 'trim_head_zero after every operation that can cancel high digits',
  [('c_nat', 'arith'), ('c_nat', 'bits'), ('c_nat', 'shift')], 400,
  'at every return: more than one digit implies a non-zero top digit; never zero digits unless an operand is NaN',
  EX, 'abstract interpretation of MIR at digit level',
  'All digit values, bounded number of digits.')
prop('C04', 'Comparisons order the mathematical values',
  'For all natural and signed integers, == and the ordering operators decide exactly the mathematical relation between the two values, also against machine words of every unsigned width; a NaN equals nothing (not even NaN) and is unordered with everything.',
  ['inputs'], 'all digit values for operands of up to four digits (eight in the thorough tier), all machine words', 'tests compare a few literals; a comparison that ignores one digit position or mixes up digit order needs operands that differ in that digit alone',
  NATF[:2] + BI, 'length comparison, digit comparison from the top, word comparisons digit by digit',
  [('c_natq', 'cmp'), ('c_bigq', 'cmp')], 120,
  'for each path of eq/partial_cmp: the answer on that path is implied by (and never contradicts) the order of the two values as terms over the digits',
  EX, 'abstract interpretation of MIR at digit level; decision of linear inequalities under the path condition',
  'All digit values, bounded number of digits.')
prop('C26', 'Conversions preserve the value',
  'Building a natural or signed integer from any machine integer (every width, signed minimum included), from little or big endian bytes or from digits, converting Nat to BigInt, deep_clone, and writing the bytes back (to_le_bytes, to_be_bytes, copy_to_le, copy_to_be) preserve the value exactly; byte output has no leading zero byte beyond the one of zero; empty input and NaN correspond to each other.',
  ['inputs'], 'all machine integers; all byte and digit sequences up to 13 bytes / 4 digits (21 / 9 in the thorough tier)', 'tests convert a handful of literals; partial last digits, leading zero digits and the signed minimum are separate code paths',
  NATF[:2] + BI, 'byte order and chunking into digits, sign extraction, trimming',
  [('c_natq', 'conv'), ('c_bigq', 'conv')], 150,
  'sum of result digits * 2^(32 i) == the source value as a term (resp. sum of result bytes * 2^(8 i) == value)',
  EX, 'abstract interpretation of MIR at digit level; linear-term equality modulo the relations of the path',
  'All values, bounded number of digits / bytes.')
prop('C27', 'Queries report facts about the value',
  'bits_len, is_set_bit, trailling_zeros, is_nan, the sign predicates and signnum, set_negative / set_natural, abs, negation, bitwise complement of a natural number within its bit length, and the absolute difference with its sign report or produce exactly what the value determines (bits_len of zero is 1, trailing zeros are specified for non-zero numbers, and the complement is taken within bits_len); bit tests of signed integers read the infinite two\'s complement representation and answer None exactly from bits_len() on.',
  ['inputs'], 'all digit values for operands of up to three or four digits, bit positions 0..130', 'tests query a few literals; digit boundaries and powers of two are the corner cases',
  NATF[:2] + BI, 'digit index and bit mask arithmetic, sign handling of zero and NaN',
  [('c_natq', 'query'), ('c_bigq', 'query'), ('c_bigq', 'bits')], 250,
  'each answer on each path is implied by the path condition over the operand digits',
  EX, 'abstract interpretation of MIR at digit level',
  'All digit values, bounded number of digits and bit positions.')
PROPS['C12']['modules'] += [('c_natq', 'conv')]
prop('C24', 'Operators are exact when both operands share storage',
  'Cloning shares storage, so x op= x.clone() reads and writes one digit vector (also when the clone has had its sign flipped). For natural and signed integers, every assigning and value-returning arithmetic and bitwise operator gives exactly the mathematical result in that case: x += x is 2x, x -= x is 0, x *= x is x squared, x / x is 1, x % x is 0, x & x and x | x are x, x ^ x is 0, and the same for div_euclid, rem_euclid and and_not.',
  ['inputs', 'histories'], 'all values and all operators', 'no test applies an operator to two clones of one value',
  NATF[:2] + BI, 'in-place updates of Rc-shared digit vectors while the right operand is still being read',
  [('c_nat', 'alias'), ('c_div', 'alias'), ('c_big', 'alias')], 150,
  'both operands are bound to one storage object; result term == oracle term with both operands equal (resp. opposite)',
  AI + 'The operands of each operator are bound to the same abstract storage object, so every write through one is seen through the other.',
  'abstract interpretation of MIR with must-alias inputs; term equality against the mathematical oracle',
  'Natural numbers: all digit values for up to eight digits, division for every size; signed integers: all magnitudes through the natural-number contracts.')
prop('C28', 'Natural-number division and remainder are exact for every size',
  'For all natural numbers a and b > 0 of any size, a / b is the floor of the quotient and a % b the remainder: 0 <= a - b * (a / b) < b and a % b = a - b * (a / b), in both the value-returning and the assigning form. A zero divisor panics, NaN gives NaN.',
  ['inputs'], 'all pairs of natural numbers, any number of digits', 'the shift-and-subtract loop runs once per quotient bit that is set; an error in one alignment case needs particular bit lengths and leading bits',
  NATF, 'the alignment of the divisor by the difference of the bit lengths and the correction by one bit in each loop iteration',
  [('c_div', 'x'), ('c_nat', 'arith'), ('c_nat', 'shift'), ('c_natq', 'cmp')], 60,
  'the loop invariants dividend = remainder + divisor * quotient and divisor_shifted = divisor * 2^shift are established and preserved; at exit 0 <= remainder < divisor',
  AI + 'The division loops are analysed with loop-invariant templates over number values; addition, subtraction, comparison and shifts are replaced by their contracts, which are decided at digit level by the other modules of this check. Where the invariants cannot be established the first iterations are followed exactly to look for a counterexample.',
  'abstract interpretation of MIR with loop-invariant templates (a = q*b + r) and contracts',
  'No bound on the operands. Partial correctness: termination of the loop is not decided.')
RAF = ['src/bigint/rat.rs'] + BI
EXR = AI + 'The operands range over every canonical rational (symbolic numerator, coprime symbolic denominator) of every sign class, integers, zero and NaN, and over two clones of one value; big-integer operations are replaced by their mathematical contracts, which the other modules of this check decide for the layers below.'
prop('C10', 'Rational arithmetic is exact and always in lowest terms',
  'For all rationals, +, -, *, /, negation, absolute value, inverse and clones give exactly the mathematical rational, in both the value-returning and the assigning form, also when both operands share storage; the result is in lowest terms with a positive denominator (zero is 0/1, never a negative zero). A NaN operand gives NaN, a zero divisor panics (inv: is an error).',
  ['inputs'], 'all pairs of rationals of any size and sign', 'tests evaluate a few fixed fractions; results that are equal in value but not reduced, or reduced with a negative denominator, print correctly in most tests and only break later comparisons',
  RAF, 'cross multiplication followed by the reduction by the gcd in norm(), which also moves the sign',
  [('c_rat', 'arith'), ('c_big', 'arith'), ('c_nat', 'arith'), ('c_div', 'x')], 2000,
  'result numerator * expected denominator == expected numerator * result denominator as polynomials over the operands; gcd(numerator, denominator) == 1; denominator >= 1; no negative zero',
  EXR, 'abstract interpretation of MIR with contracts; polynomial identity and gcd normal forms',
  'Holds for all magnitudes at the rational layer; BigInt::gcd itself is used through its contract (d = gcd), lower layers as in C05/C22/C28.')
prop('C29', 'Conversions into rationals are exact and in lowest terms',
  'Building a rational from any machine integer (signed minimum included), from a Nat or BigInt, from a numerator and a denominator (machine or big), or from any f32 or f64 gives exactly the value of the source, in lowest terms with a positive denominator; zero is 0/1, a non-finite float or NaN gives NaN, a zero denominator is an error.',
  ['inputs'], 'all machine integers, all big integers, all floats of the exponents listed in the evidence (every exponent in the thorough tier) with every mantissa', 'tests convert fewer than a dozen literals; subnormals, values of 2^53 and above, and mantissas with trailing zeros are separate code paths',
  RAF, 'mantissa and exponent extraction, trailing zero removal, reduction in norm()',
  [('c_rat', 'make'), ('c_rat', 'float'), ('c_natq', 'conv'), ('c_bigq', 'conv'), ('c_nat', 'shift'), ('c_div', 'x')], 2000,
  'result numerator * source denominator == source numerator * result denominator as polynomials over the source (bit fields of a float are split exactly); gcd == 1; denominator >= 1',
  EXR + ' Floats are bit patterns: sign and exponent per class, the mantissa symbolic; the loop over trailing zeros is unrolled completely.', 'abstract interpretation of MIR with contracts; polynomial identity and gcd normal forms',
  'Machine and big integers: all values. Floats: all mantissas for the exponents listed.')
prop('C30', 'Rational comparisons and predicates decide the mathematical value',
  'For all rationals, == and the ordering operators decide exactly the order of the two values whatever their signs and denominators; NaN equals nothing and is unordered. signnum, is_integer and is_nan answer exactly for every value.',
  ['inputs'], 'all pairs of rationals of any size and sign', 'tests compare a handful of fractions; mixed signs and equal numerators or denominators are separate paths',
  RAF, 'sign tests and cross multiplication',
  [('c_rat', 'cmp'), ('c_bigq', 'cmp'), ('c_natq', 'cmp'), ('c_big', 'arith')], 300,
  'the answer on each path is implied by the order of the cross products under the path condition',
  EXR, 'abstract interpretation of MIR with contracts; decision of polynomial inequalities under the path condition',
  'Holds for all magnitudes at the rational layer.')

prop('C41', 'Range products and binomial coefficients are exact',
  'For all i64 a and b, BigInt::mul_range(a, b) is the product of all integers from a to b inclusive: 1 for an empty range (a > b), 0 when the range contains zero, negative exactly when the number of (negative) factors is odd, and no overflow at either end of i64. BigInt::binomial(n, k) for n, k >= 0 is the binomial coefficient C(n, k) (0 for k > n), also when k is in the upper half. The results are in canonical form.',
  ['inputs'], 'mul_range: all positions of ranges of up to five factors below 2^32 in magnitude and of up to two factors over all of i64, all empty ranges and all ranges around zero; binomial: all n below 2^32 with k or n-k up to 4', 'tests compute a few literals; factors above 2^32, carries between their halves, and the ends of i64 are separate cases',
  BI + ['src/bigint/nat.rs'], 'Nat::mul_range multiplies by the two halves of each factor and adds them with add_vv; the sign comes from the number of factors',
  [('c_range', 'range'), ('c_range', 'binom'), ('c_nat', 'arith'), ('c_div', 'x')], 1500, 'result digits == product of the factors as a polynomial term over the digits of a; sign; no leading zero digit; binomial: dividend == product of the k upper factors, divisor == k!, quotient digits returned',
  AI + 'The bounds of the range are symbols whose difference is fixed, so every loop has a known number of rounds while the factors range over all values.',
  'abstract interpretation of MIR at digit level; equality of polynomial terms', 'All positions of the range; numbers of factors as listed. Longer ranges repeat the same loop body on more digits and are not covered.')


prop('C42', 'Numbers with shared digit storage cannot reach another thread',
  'Clones of a number share their digit storage through an unsynchronised reference count, and assigning operators write through it. Therefore Nat, BigInt, Rat and Float are neither Send nor Sync: no program that moves one into another thread or shares a reference with one compiles, whatever the other threads do.',
  ['programs', 'schedules'], 'every program that uses the public types', 'a race needs a particular interleaving and a test cannot contain a program that must not compile',
  NATF[:2] + ['src/bigint/bigint.rs', 'src/bigint/rat.rs', 'src/bigint/float.rs'], 'Rc<Cell<..>> inside Nat makes all number types !Send and !Sync; an unsafe impl anywhere below would undo it',
  [('c_send', 'send')], 8, 'for each type and trait a witness that needs the trait is rejected by the compiler with E0277; if it is accepted, an unsafe impl in the sources is the violation (a trait derived from synchronised parts is none)',
  'Compile-fail witnesses: one program per type and trait is type-checked against the metadata of the current crate; control witnesses must be accepted. ',
  'type-level encoding: compile-fail witnesses decided by the type checker', 'All programs: the trait is decided for the type.')

prop('C31', 'gcd and modular inverse satisfy their defining equations',
  'For all signed integers a and b, a.gcd(b) returns (d, x, y) where d is the non-negative greatest common divisor of a and b (gcd(a, 0) = |a|, gcd(0, 0) = 0) and a*x + b*y = d. When gcd(a, n) = 1 (n not 0), x = a.mod_inverse(n) satisfies a*x = 1 modulo |n|, for every sign of a and n. A NaN operand gives NaN.',
  ['inputs'], 'all pairs of signed integers of any size and sign', 'tests use a handful of literals; the sign corrections and the zero cases are separate paths, and every recursion depth needs its own operands',
  BI, 'the recursion of the extended Euclidean algorithm and the sign corrections around it',
  [('c_num', 'gcd'), ('c_big', 'arith'), ('c_div', 'x')], 200,
  'induction: with the recursive call replaced by the claim, d is the gcd atom of the operands (gcd(u, v) = gcd(v, u mod v)) and a*x + b*y - d vanishes as a polynomial modulo the equalities of the path; a*x - 1 is a multiple of n',
  AI + 'The recursive call is replaced by the induction hypothesis (below the first two levels); arithmetic is replaced by its contracts, which the other modules of this check decide.',
  'abstract interpretation of MIR with an inductive contract for the recursion; polynomial identities',
  'Holds for all magnitudes. Partial correctness: termination is not decided. The range of the inverse is not claimed.')
prop('C32', 'Powers of natural numbers are exact for every base',
  'For all natural numbers x and exponents b, x.pow(b) is x^b (0^0 = 1), and x.pow_mod(b, n) is x^b modulo n for n > 1, 0 for n = 1 and x^b for n = 0, also when the operands share storage; a NaN operand gives NaN; the operands keep their values.',
  ['inputs'], 'all bases and moduli of any size; exponents 0..8, 11, 12, 15..17, 31..33 (every exponent to 129 in the thorough tier)', 'tests use a handful of literals; each exponent bit pattern is a separate sequence of squarings and multiplications, and zero bases, zero exponents and moduli 0 and 1 are separate paths',
  NATF[:2], 'square-and-multiply loops over the exponent bits',
  [('c_num', 'pow'), ('c_nat', 'arith'), ('c_div', 'x')], 300,
  'the result is the monomial x^b; modulo n: 0 <= result < n and result - x^b is a multiple of n once every remainder u mod n on the path is replaced by u',
  AI + 'The exponent is concrete per class, base and modulus are symbolic of any size; multiplication and remainder are replaced by their contracts, which the other modules of this check decide.',
  'abstract interpretation of MIR with contracts; polynomial identities and congruences',
  'Holds for all bases and moduli; exponents bounded as listed.')

RN = ['src/rand/mod.rs', 'src/rand/linear_congruential_rand.rs', 'src/rand/mersenne_twister_rand.rs', 'src/rand/lagged_fibonacci_rand.rs']
RX = AI + 'new, gen and reset are interpreted in sequence through the public interface; the seed is one symbolic word delivered by the hardware seed source. Words are compared in a canonical form (every bit a polynomial over GF(2) in the seed bits; sums that are not bitwise are value-numbered modulo the word size). '
prop('C33', 'LinearCongruentialRand follows x = (a*x + c) mod m exactly',
  'For u32, u64 and usize, for every seed x0, every multiplier a, increment c and modulus m > 0, the outputs are x1 = (a*x0 + c) mod m, x2 = (a*x1 + c) mod m, ... computed without loss: the product and the sum are never reduced modulo the word size first. Each call of gen returns the next x and never fails or reads any other source. minstd_rand0! and minstd_rand! pass the published parameters (16807 resp. 48271, 0, 2147483647).',
  ['inputs', 'histories'], 'all seeds and parameters, the first three outputs (each computed from the one before)', 'the tests only print values; intermediate overflow needs a large product and changes values silently',
  [RN[1]], 'one multiply-add-modulo step',
  [('c_rand', 'lcg')], 30, 'output i, as a term over seed and parameters, equals (a*x + c) rem m with x the previous output', RX,
  'abstract interpretation of MIR; term equality with the recurrence over symbolic seed and parameters', 'All seeds and parameters.')
prop('C34', 'MersenneTwisterRand is the Mersenne Twister for every seed',
  'For u32, u64 and usize, for every seed and the parameters (w, n, m, r, a, (u, d), (s, b), (t, c), l, f), the outputs are those of the Mersenne Twister as published: state x0 = seed mod 2^w, xi = f*(x(i-1) ^ (x(i-1) >> (w-2))) + i mod 2^w; regeneration x(k+n) = x(k+m) ^ (y >> 1) ^ (y odd ? a : 0) with y the upper w-r bits of x(k) and the lower r bits of x(k+1); tempering z ^= (z >> u) & d, z ^= (z << s) & b, z ^= (z << t) & c, z ^= z >> l. gen never fails, never panics and reads no other source. mt19937! and mt19937_64! pass the published parameters (so the default sequences are those of std::mt19937 and std::mt19937_64).',
  ['inputs', 'histories'], 'all seeds; mt19937 and mt19937_64 in full (over two regenerations, 1250 and 626 outputs) and small states n = 1..7, w = 24, 32, 64', 'the tests only print values; an error in the twist, the wrap-around of the state or the tempering only changes values',
  [RN[2]], 'lazy initialisation, the split regeneration loop, tempering',
  [('c_rand', 'mt')], 1200, 'output k, bit by bit as a GF(2) polynomial over the seed-derived words, equals the reference; no panic is reachable', RX,
  'abstract interpretation of MIR; canonical GF(2) normal forms of machine words', 'All seeds; engine parameters as listed (mt19937 and mt19937_64 among them).')
prop('C35', 'LaggedFibonacciRand is the subtract-with-carry generator for every seed',
  'For u32, u64 and usize, for every seed and word size w, short lag s and long lag r, the outputs are those of the published subtract-with-carry engine: the state is filled from the generator x = 40014*x mod 2147483563 started at the seed (ceil(w/32) draws per word, low word first, modulo 2^w), the carry starts as 1 exactly if the last word is 0, and each output is x(i-s) - x(i-r) - carry modulo 2^w, the carry becoming 1 exactly if the difference was negative. gen never fails, never panics or overflows and reads no other source. ranlux24_base! and ranlux48_base! pass the published parameters (24, 10, 24) and (48, 5, 12).',
  ['inputs', 'histories'], 'all seeds; (w, s, r) in the list of the evidence, ranlux24_base and ranlux48_base among them (first outputs), small lags over two full turns of the state', 'the tests only print values; the borrow with equal words and the carry at the extreme word are corner cases of single words',
  [RN[3], RN[1]], 'the borrow decision and the ring index',
  [('c_rand', 'lfr')], 3000, 'on every path output k equals the reference difference under the path condition; no panic or overflow is reachable', RX,
  'abstract interpretation of MIR with path splitting on the borrow; linear arithmetic over seed-derived words', 'All seeds; parameters and number of outputs as listed.')
prop('C15', 'Pseudo-random generators are deterministic and reset starts them afresh',
  'For LinearCongruentialRand, MersenneTwisterRand and LaggedFibonacciRand of u32, u64 and usize: the sequence depends on the parameters and the seed only. After reset with a seed source that delivers s, whatever was drawn before, the following outputs are exactly those of a new generator with the same parameters and seed s. When the seed source fails, reset returns that error and the generator continues its sequence as if reset had not been called.',
  ['inputs', 'histories'], 'all pairs of old and new seed, several numbers of draws before the reset (before, at and after a regeneration)', 'no test calls reset; state that survives a reset (index, carry, old words) shows only after some draws',
  RN[1:], 'lazily initialised state behind a Result<seed, seed> field',
  [('c_rand', 'reset')], 500, 'after reset each output equals the recurrence started at the new seed (after a failed reset: the continuation at the old one), as terms over both seeds; no hardware read in gen', RX,
  'abstract interpretation of MIR over call sequences (new, gen^k, reset, gen*); term equality with the recurrence', 'All seeds; MersenneTwister with n = 3, subtract-with-carry with r = 2, any linear congruential parameters.')
prop('C16', 'Generator constructors accept exactly the documented parameters',
  'new() of the pseudo-random generators returns Ok exactly for the documented parameters (given a working seed source): LinearCongruentialRand m > 0 (error kind DivisorIsZero otherwise); LaggedFibonacciRand 0 < w <= bits of the type, 0 < s < r; MersenneTwisterRand 0 < w <= bits of the type, 1 <= m <= n, 0 < r, u, s, t < w, 0 <= l < w, 0 < a, d, b, c, f <= 2^w - 1 (error kind InvalidRngPara otherwise). If only the seed source fails the error is the one of the seed source. No parameters make new() panic.',
  ['inputs'], 'all parameter values; for MersenneTwister every w of the list in the evidence with all values of the other twelve parameters', 'tests construct the generators with the standard parameters only',
  RN, 'the chain of range tests in front of the constructors',
  [('c_rand', 'valid')], 700, 'on every path to Ok each documented condition is implied by the path condition; on every path to a parameter error their conjunction is contradicted; no panic is reachable', RX,
  'abstract interpretation of MIR; path conditions against the documented ranges', 'All parameter values (w from a list for MersenneTwister).')
HW = ['src/rand/default_rand_amd64.rs', 'src/rand/default_seed_amd64.rs', 'src/rand/crypto_rand_amd64.rs']
prop('C17', 'A hardware random failure is reported, never replaced by a stale value',
  'On x86-64, DefaultSeed::seed and gen of DefaultRand and CryptoRand (u32, u64, usize) return Ok only with a full-width value that the RDSEED/RDRAND instruction delivered in that call together with the success flag; when the instruction reports failure they return Err (kind NoNewRandSeedGen for seeds, NoNewRandNumberGen for numbers), and never an error when it succeeded.',
  ['inputs', 'faults'], 'both outcomes of the instruction and every delivered value', 'the failure outcome practically never happens on test machines',
  HW, 'the carry flag of rdrand/rdseed behind the step intrinsics',
  [('c_rand', 'hw')], 20, 'the returned term is the atom delivered by the instruction on a path where its flag is set; errors only on paths where the flag is clear',
  AI + 'The instruction is modelled as an arbitrary value and an arbitrary success flag per execution.',
  'abstract interpretation of MIR with the hardware as symbolic input', 'The non-x86 implementations are not compiled here and not covered.')
prop('C18', 'A random iterator stops at the first error and remembers it',
  'The iterator over a generator (iter_mut, Iter::new) yields exactly the values gen returns, one call of gen per item. When gen fails, next returns None and last_error returns that error; from then on next returns None without calling gen, until clear_error, after which last_error is None and iteration continues with the generator. last_error is None before any error.',
  ['inputs', 'histories', 'faults'], 'all outcomes of the hardware generator along several sequences of next, last_error and clear_error', 'an error of the hardware generator practically never happens in tests',
  ['src/rand/iter.rs', 'src/rand/mod.rs'], 'the last_err field consulted by next',
  [('c_rand', 'iter')], 200, 'per path: item == value delivered by the generator in that call, None exactly after a failed or latched call, number of hardware reads per call',
  AI + 'Sequences of calls are interpreted over a hardware generator whose outcome is arbitrary at each read.',
  'abstract interpretation of MIR over call sequences (typestate of the error latch)', 'Sequences of up to six calls.')

RND = ['src/bigint/nat.rs', 'src/bigint/bigint.rs', 'src/rand/iter.rs']
prop('C21', 'Random integers lie below the bound and every value is equally likely',
  'For every source of random words, also one that fails now and then, x.random(rng) of a Nat x > 0 is a canonical number r with 0 <= r < x; of a BigInt x it has the sign of x and a magnitude below |x| (zero is the ordinary zero). NaN and zero give NaN. Candidates consist of as many source bits as x has, each bit used once, and the first candidate below x is returned, so with a uniform source every value below x is equally likely. x keeps its value.',
  ['inputs', 'histories'], 'all digit patterns of bounds of one and two digits (three for one generator) with several bit lengths of the top digit, all words of the source, up to two candidates and one failure of the source', 'tests print a few random numbers; a candidate with a zero top digit, a rejected candidate or a failing source is never arranged',
  RND, 'random_inner: mask, rejection loop, clear_error', [('c_rnd', 'random')], 4000, 'result < bound, result == the bits of the last block of source words, every earlier block >= bound, top digit not zero, sign', AI + 'The generator is replaced by one that delivers an arbitrary word or an error at each call.',
  'abstract interpretation of MIR at digit level over an arbitrary source', 'Up to two candidates per call (a further one starts from the same state) and one failure of the source.')
prop('C40', 'The primality test is exact for small numbers and uses valid bases',
  'For every number of rounds and every source, probably_prime_test answers false for NaN and 0, exactly whether x is prime for every x < 128, and false for every even x >= 128 and every x >= 128 divisible by one of the odd primes up to 53; no other number is rejected before the probabilistic rounds. In the probabilistic rounds the bases are drawn from 1 .. x-1 (never 0, which would call every prime composite).',
  ['inputs', 'histories'], 'every x < 128; all multiples of each prime up to 53 and all rejections among numbers of one and two digits (three in the thorough tier); all bases for all numbers of one and two digits', 'tests sample a few dozen primes and composites; a zero base occurs with probability 1/x',
  RND[:2], 'small prime mask, trial division by products of primes, random_inner and the base loop', [('c_rnd', 'prime')], 250, 'the answer on every path == the required one; a multiple of a small prime never reaches the probabilistic rounds; on every rejecting path the number is 0 modulo one of the primes (its equalities read over GF(p)); 1 <= base < x', AI + 'Multiples are products p * k of a prime and a symbolic cofactor; the trial division is followed through its remainders.',
  'abstract interpretation of MIR at digit level; congruences of remainder terms', 'The probabilistic rounds themselves (that a prime passes and a composite fails them) are number theory and not decided.')

prop('C43', 'Generated primes have the requested length and passed the primality test',
  'For every source of random words that does not fail, generate_prime(k, rounds, rng) with k >= 2 returns Ok only with an odd number of exactly k bits whose two highest bits are set, and exactly that number was accepted by probably_prime_test with the requested rounds in the same call. For k < 2 it returns an error. It never panics on such a source.',
  ['inputs', 'histories'], 'all random words; k = 0..8, 16, 31..34, 48, 63..66 (more in the thorough tier); searches that stop at the first or second candidate of the sieve, up to two draws', 'tests generate a few primes from one source; overflow of the length, the case of a single bit in the top word, and a candidate changed after the test need particular words',
  RND[:2], 'masking and setting of the top bits, the delta sieve over small primes, the test of length and primality before the return',
  [('c_gen', 'gen')], 800, 'on every path that returns Ok: the returned digits == the digits the primality test was called with last (it answered true), rounds == the argument, 3*2^(k-2) <= value < 2^k, lowest bit 1', AI + 'The primality test is replaced by an arbitrary answer whose operand is recorded; each random word is a fresh symbol.',
  'abstract interpretation of MIR at digit level with event recording; linear entailment', 'Sizes as listed; longer searches repeat the same body with a larger increment.')

FLF = ['src/bigint/float.rs']
FX = AI + 'Mantissa digits are symbols over all 2^32 values, exponents symbols over their whole range; digit counts, precisions and the rounding mode are fixed per case. The result on each path is compared with the exact value as linear terms; inequalities follow by polyhedral entailment (exact rational linear arithmetic over the relations of the path, with integer rounding of digit quotients). '
prop('C07', 'Float special values follow the IEEE 754 table',
  'For Float +, -, *, / (value-returning and assigning): a NaN operand, Inf - Inf (same-signed infinities subtracted), 0 * Inf, 0 / 0 and Inf / Inf give NaN; every other combination with zeros and infinities gives the infinity or zero of IEEE 754 with the IEEE sign (products and quotients: exclusive or of the signs; x/0 is an infinity; (-0) + (+0) is +0 unless the mode is ToNegativeInf, where its sign is not specified here), accuracy Exact; x + 0, 0 + x, x - 0 and 0 - x give x resp. -x rounded to the precision of the result. The result has the rounding mode of the left operand and its precision, or the precision of the right operand if that of the left is 0.',
  ['inputs'], 'all pairs of classes NaN, +-0, +-Inf, finite (all exponents, all mantissas), both operator forms, several modes and precisions', 'tests apply the operators to finite literals only',
  FLF, 'the branches for non-finite operands in add_inner, sub_inner, mul_inner, div_inner',
  [('c_float', 'special')], 500, 'class, sign, accuracy, precision and mode of the result on every path equal the table entry', FX,
  'abstract interpretation of MIR over operand classes against the IEEE 754 table', 'All exponents and mantissas of two digits.')
prop('C08', 'Float arithmetic is correctly rounded in every rounding mode',
  'For finite Floats x, y, the result of +, -, *, / (value-returning and assigning) and of set_precision is the exact mathematical result rounded to the precision of the result in its rounding mode (ToNearestEven, ToNearestAway, ToZero, AwayFromZero, ToNegativeInf, ToPositiveInf), normalised, and its accuracy tells whether the result is below, equal to or above the exact value. An exact zero sum is +0, or -0 in mode ToNegativeInf. A result whose exponent is above i32::MAX is an infinity, below i32::MIN a zero, with the matching accuracy. Precision and mode of the result are those of the left operand. set_precision(p) rounds to p bits, keeps the value when p is not smaller than the current precision, and with p = 0 turns a finite number into a zero of the same sign with the matching accuracy. Operators are also exact for x and x.clone().',
  ['inputs'], 'all mantissa digits for operands of one and two digits (three in the thorough tier) and several precisions, all six modes, all exponents of the operands (for + and -: a list of exponent differences), set_precision from and to a list of precisions', 'tests compare a few literals in the default mode; ties, carries out of the mantissa, cancellation and the sticky bit need particular low-order bits',
  FLF + NATF[:2], 'alignment, fnorm, the sticky bit, round and its mantissa overflow, exponent overflow',
  [('c_float', 'add'), ('c_float', 'mul'), ('c_float', 'div'), ('c_float', 'prec'), ('c_float', 'alias')], 8000, 'on every path: result is a multiple of the last place, |result - exact| within the bound of the mode (ties to even), accuracy == sign of result - exact; an overflow or underflow only with an exponent out of range', FX + 'The digit-level quotient and remainder of Nat division are taken from their contract (C28).',
  'abstract interpretation of MIR at digit level; polyhedral entailment against the rounding specification', 'All digit values and exponents; digit counts, precisions and exponent differences as listed in the evidence.')
prop('C25', 'Rationals convert to the nearest float',
  'Rat::to_f32 and Rat::to_f64 return the f32 (f64) nearest to the rational, halfway cases to the even one, also where the result is subnormal (half the smallest subnormal and less gives a zero of the sign of the rational) and where it is beyond the largest finite value (the infinity of that sign), together with a flag that is true exactly when the float equals the rational. Zero gives (0, true), NaN gives (NaN, false).',
  ['inputs'], 'all numerators and denominators of the listed bit lengths (quotients of every size class of the format: normal, either side of the normal/subnormal boundary, throughout the subnormals, underflow, overflow; operands of one to about 1,140 bits), both signs', 'tests convert a few literals; ties, quotients that round to the next power of two, subnormal double rounding and the exactness flag need particular remainders',
  ['src/bigint/rat.rs', 'src/bigint/util.rs'], 'quo_to_f32/quo_to_f64: quotient with two extra bits, sticky remainder, lost bits of the denormal case, carry out of rounding, ldexp',
  [('c_float', 'rattof'), ('c_div', 'x'), ('c_nat', 'shift')], 15000, 'bit pattern of the result read as a multiple of the last place == 2 * floor(quotient) + sticky within half a unit, ties even; flag == (result equals the quotient)', FX + 'The integer division is represented by fresh quotient and remainder digits bound to the dividend and divisor (the division itself is decided by C04\'s analyses, included here). ',
  'abstract interpretation of MIR at digit level; polyhedral entailment against the rounding specification', 'All digit values; bit lengths of numerator and denominator as listed.')
prop('C36', 'Conversions to Float are exact',
  'Float::from of every u8..u64, i8..i64 gives exactly that value with precision 64; of every f32 and f64 exactly that value (subnormals, signed zeros and infinities included, NaN gives NaN) with precision 53; of a Nat or BigInt exactly that value with precision max(64, bit length); NaN gives NaN, zero gives +0; accuracy Exact, mode ToNearestEven. Float::from of a Rat a/b is a/b correctly rounded (ToNearestEven) to precision max(64, bits of a, bits of b), with the matching accuracy, and exact for an integer.',
  ['inputs'], 'all machine integers; all f32/f64 of the listed exponents (every subnormal class) ; all Nat/BigInt of up to four digits (eight in the thorough tier); rationals for a list of numerator and denominator bit lengths', 'tests convert a few literals; subnormals, signed minima and digit-aligned bit lengths are separate cases',
  FLF + ['src/bigint/util.rs', 'src/bigint/float_macro.rs'], 'frexp, fnorm, leading zeros, set_bits, set_nat, set_rat',
  [('c_float', 'conv')], 700, 'mantissa * 2^exponent of the result == source value as terms (rationals: correctly rounded quotient); precision, mode and accuracy as stated', FX,
  'abstract interpretation of MIR at digit level; term equality with the source value', 'All values within the listed exponents and digit counts.')
prop('C37', 'Conversions from Float are correctly rounded or truncated',
  'to_f32 and to_f64 return the nearest f32/f64 (ties to even; subnormals rounded at their last place, magnitudes beyond the largest finite value after rounding give the infinity, below half the smallest subnormal a zero), with the sign kept also for zeros and infinities, and an accuracy that tells whether it is below, equal to or above the Float; NaN gives NaN. truncate_to_u64 and truncate_to_i64 return the value truncated towards zero, saturated at the bounds of the type (0 for negative values in the unsigned case, infinities included), with the matching accuracy, and None exactly for NaN.',
  ['inputs'], 'all mantissas of one to three digits; for to_f32/to_f64 all exponents in the normal range interior, beyond the range, and a list of exponents around the subnormal and overflow boundaries; for truncation all exponents <= 0, >= 65 and a list in between', 'tests convert a few literals; the subnormal and overflow boundaries and ties need particular exponents and low-order bits',
  FLF, 'precision of the subnormal range, overflow by rounding, msb32/msb64, required_min_precision',
  [('c_float', 'to')], 5000, 'bit pattern of the result, read as a multiple of the last place, is within half a unit of the value (ties even); truncation: floor of the magnitude, saturated; accuracy == sign of the difference', FX,
  'abstract interpretation of MIR at digit level; polyhedral entailment against the rounding specification', 'All digit values; exponents as listed.')
prop('C38', 'Float comparisons order the mathematical values',
  'For all Floats, == and partial_cmp (hence <, <=, >, >=) decide the mathematical relation of the two values, whatever their precisions, modes and digit counts; +0 equals -0, equal infinities are equal, and a NaN is unequal to and unordered with everything.',
  ['inputs'], 'all pairs of classes; finite numbers with all exponents and all mantissas of up to two digits (four in the thorough tier), different digit counts', 'tests compare a few literals; mantissas that differ in one digit or have different lengths are not among them',
  FLF, 'ord, the exponent comparison and the digit loop of ucmp',
  [('c_float', 'cmp')], 300, 'the answer on each path is implied by exponents and digits under the path condition', FX,
  'abstract interpretation of MIR at digit level; decision of linear inequalities under the path condition', 'All exponents and digit values; digit counts as listed.')
prop('C39', 'Float queries, sign operations and mantissa access report facts about the value',
  'is_nan, is_infinite, is_negative (the sign, also of zeros and infinities), signnum, is_integer (infinities are not integers, zeros are), required_min_precision (least number of mantissa bits that represents the value, 0 if not finite), get_precision, get_mode, get_accuracy report exactly the fact (None for NaN where an Option is returned). neg and abs change the sign only; deep_clone copies everything; set_mode changes the mode only and resets the accuracy to Exact. mant_exp splits x into a mantissa 0.5 <= |m| < 1 and an exponent with x = m * 2^exp (exponent 0 and x itself for zeros, infinities and NaN); z.set_mant_exp(m, e) makes z = m * 2^e with the precision and mode of m, an infinity resp. zero with the matching accuracy if the exponent leaves the range of i32. get_inf and default give the signed infinity and +0.',
  ['inputs'], 'all classes; all mantissas of up to two digits (three in the thorough tier), all exponents (is_integer: a list of exponents and all <= 0, >= 65)', 'tests query a few literals',
  FLF, 'trailing zeros of the mantissa against exponent and precision; saturation of the exponent sum',
  [('c_float', 'query')], 800, 'each answer is implied by the path condition over digits and exponent; fields not named are unchanged', FX,
  'abstract interpretation of MIR at digit level', 'All digit values and exponents; digit counts as listed.')

na('C03', 'Modular square roots and the Jacobi symbol',
  'BigInt::jacobi(b) is the Jacobi symbol for odd b; mod_sqrt(p) returns a root whose square is congruent to self modulo the odd prime p, or None exactly when there is none.',
  ['inputs'], 'all integers and odd (prime) moduli', 'tests use a few small primes', BI, 'quadratic reciprocity loop, Tonelli-Shanks',
  'correctness rests on number-theoretic facts (reciprocity, existence of a non-residue, primality of p) about unbounded runtime values; no dataflow or abstract domain in reach expresses them')
na('C09', 'Square roots are exact floors',
  'Nat::sqrt and BigInt::sqrt return the largest integer whose square does not exceed the argument.',
  ['inputs'], 'all naturals', 'tests use a few literals', ['src/bigint/nat.rs', 'src/bigint/bigint.rs'], 'Newton iteration with data-dependent length',
  'the loop invariant (monotone convergence from above) is a non-linear inequality over quotients of unbounded values, outside linear and polynomial-equality domains; bounded unrolling does not bound the number of rounds')
na('C11', 'Modular exponentiation for arbitrary exponents',
  'Nat::exp(b, n) and BigInt::exp(b, n) equal self^b mod n for odd moduli (Montgomery form) and even moduli (windowed form).',
  ['inputs'], 'all bases, exponents, moduli', 'tests use a few literals', ['src/bigint/nat.rs'], 'exp_montogomery, exp_windowed, Montgomery reduction with k0 = -1/m mod 2^32',
  'Montgomery reduction is an invariant modulo an unknown modulus with inverses modulo 2^32 over a data-dependent number of digits; the congruence domain here handles only exponents fixed in the source (pow and pow_mod for listed exponents are decided by C32)')
na('C13', 'Every operation terminates',
  'Every public operation on finite numbers terminates.',
  ['inputs', 'histories'], 'all inputs', 'a test that does not terminate for some input is not a test that fails', ['src/bigint', 'src/rand'], 'division, gcd, sqrt, rejection sampling',
  'ranking functions depend on runtime magnitudes (shift-subtract division, Newton, gcd) and on the random source (rejection sampling terminates only with probability one)')
na('C14', 'Primality verdicts for large numbers',
  'probably_prime_test never rejects a prime, and accepts a composite of two or more digits with probability at most 4^-n.',
  ['inputs', 'histories'], 'all naturals above 127 and all sources', 'sampled primes only', ['src/bigint/nat.rs'], 'Miller-Rabin rounds, Lucas test',
  'the theorem behind the test (strong pseudoprimes, Lucas sequences) is about the multiplicative group modulo an unbounded runtime value; C40 decides the parts that are syntactically bounded (small numbers, trial division, valid bases)')
na('C19', 'Parsing and printing are inverse',
  'from_str of the Display, binary, octal and hexadecimal output of a Nat, BigInt, Rat gives the number back; malformed text is rejected.',
  ['inputs'], 'all values and all strings', 'a few literals', ['src/bigint/nat.rs', 'src/bigint/bigint.rs', 'src/bigint/rat.rs'], 'base conversion through strings and core::fmt',
  'the text is built through core::fmt with data-dependent lengths and radix conversion of unbounded values; a string domain strong enough to relate digit strings to values is out of reach')
na('C20', 'Float and decimal text conversion',
  'Display of a Float prints digits that read back to the same Float; Decimal conversion is exact.',
  ['inputs'], 'all Floats', 'a few literals', ['src/bigint/float.rs', 'src/bigint/decimal.rs'], 'Decimal::new, shortest-digit search',
  'as for parsing and printing; in addition the code is unfinished at this commit (Float::from_str and parts of Decimal are incomplete)')
