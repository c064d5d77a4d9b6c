#!/usr/bin/env python3
"""regenerates properties.jsonl, MANIFEST.json from the tables below (run by hand after editing)"""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))

def P(id, title, statement, over, text, why, files, mech, observe, state='none beyond the objects passed in'):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name='state', meaning=state, where=files[0])], mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=[observe], hook_needed=None))

PROPS = [
 P('C01', 'vector is a faithful growable sequence',
   'A vector behaves as a mathematical sequence: every operation (append, remove last, resize, clear, erase, assign, copy, assignment, swap, element access) has exactly its defined effect on length and on every element, for every prior content and capacity. Capacity never shrinks except by exchange, is never below the size, and at least doubles on reallocation; appended or assigned elements may alias the vector itself.',
   ['inputs', 'histories'], 'all vectors (any length, capacity, contents), all indices, values and operand aliasings; any sequence of calls, because each call is proved from an arbitrary well-formed state',
   'The tests push a few literals into fresh vectors; growth at each capacity, self-aliasing, erase positions and copies of arbitrary contents are unbounded families.',
   ['include/nanovector.h', 'include/nanoallocator.h'],
   [('resize/growth', 'nanovector.h vector::resize, recommended_size'), ('append', 'vector::push_back'), ('erase', 'vector::erase'), ('assign/copy', 'vector::assign, operator=, copy constructor')],
   'return values and contents through the public API', 'buffer, capacity and size of each vector'),
 P('C02', 'containers own their storage exactly once, no invalid access',
   'No operation on vector, valarray, string, stringstream or map reads or writes outside live storage, uses storage after releasing it, releases it twice or with the wrong form, or leaks it; two container objects never share storage. This holds for every element width and for any sequence of operations ending in destruction.',
   ['inputs', 'histories'], 'all well-formed containers, all arguments within the documented preconditions, every element width 1/2/4/8 bytes',
   'Memory errors in tests surface only if the one sampled layout crashes; the tests run without sanitizers.',
   ['include/nanovector.h', 'include/nanovalarray.h', 'include/nanostring.h', 'include/nanoallocator.h', 'include/nanomap.h'],
   [('allocate/deallocate', 'nanoallocator.h'), ('destructors', 'vector/valarray/string/map destructors'), ('reallocation', 'resize')],
   'absence of invalid accesses, double release and leaks', 'heap storage owned by containers'),
 P('C03', 'valarray is a faithful sequence',
   'A valarray behaves as a mathematical sequence: sized construction, resize, clear, erase, assign, copy, assignment, swap and element access have exactly their defined effect on length and on every element, for every prior content. New elements are value-initialised and copies never share storage. sin of a valarray is the valarray of the sines.',
   ['inputs', 'histories'], 'all valarrays (any length, capacity, contents), all indices and values',
   'The tests build one or two fixed valarrays.',
   ['include/nanovalarray.h'], [('growth', 'valarray::resize'), ('assign/copy', 'valarray::assign, operator=, copy constructor'), ('erase', 'valarray::erase')],
   'contents through the public API', 'buffer, capacity and size'),
 P('C04', 'string holds exactly its characters, always NUL-terminated',
   'Every way of making a string (C string, null pointer, pointer+count, range, copy, concatenation, append, erase, clear, assignment) yields exactly the characters asked for, size() counts them, and c_str() is always terminated at size(). Operands are not modified, also when an operand is the target itself, and embedded NUL characters are ordinary characters.',
   ['inputs', 'histories'], 'all strings of any length and content (embedded NULs included), all aliasings of operands',
   'Tests check a few short literals; off-by-one and self-append behaviour depend on lengths and capacities never sampled.',
   ['include/nanostring.h', 'include/nanovector.h'], [('construction', 'basic_string constructors'), ('append', 'basic_string::operator+=, operator+'), ('terminator', 'basic_string::clear, size, c_str')],
   'size(), c_str(), operator[]', 'the characters and terminator'),
 P('C05', 'string comparison is the lexicographic total order on bytes',
   'compare and the operators ==, !=, <, > agree with the lexicographic order of the characters taken as unsigned bytes, for string/string and string/C-string operands, with a proper prefix ordered first. The order is reflexive, antisymmetric and transitive, and comparing changes nothing.',
   ['inputs'], 'all pairs (triples) of strings of any length and content, and all C strings',
   'The tests compare a handful of ASCII literals; signed bytes, embedded NULs and shared prefixes are never tried.',
   ['include/nanostring.h'], [('comparison', 'basic_string::compare, compare_, relational operators')], 'results of comparisons'),
 P('C06', 'to_string prints every integer exactly',
   'For every int, unsigned, 64-bit and unsigned 64-bit value, to_string yields its shortest decimal numeral: a minus sign exactly for negative values, the digits of the magnitude, no leading zeros, nothing else. This includes the extreme values of each type.',
   ['inputs'], 'all 2^32 / 2^64 values of each argument type',
   'Tests print a few small values; extremes and every digit count need all values.',
   ['include/nanostring.h'], [('digit extraction', 'to_string(int), to_string(unsigned), to_string(int64_t), to_string(uint64_t)')], 'the returned text'),
 P('C07', 'map is a finite map from keys to values',
   'After any history of insertions and writes a map holds exactly the keys inserted, each with its first inserted or last written value: insert (pair and its success flag), find, operator[] and empty agree with that abstract map. Inserting a key already there changes nothing and reports the existing element; reading a missing key through operator[] adds it with a value-initialised value. Copies and assignments are independent of their source.',
   ['inputs', 'histories'], 'all maps of any size and shape, all keys and values, any history of operations',
   'The tests insert three to five keys; lookup and balancing depend on tree shapes never built.',
   ['include/nanomap.h'], [('search tree', 'nanomap.h __insert, __find, __rotate'), ('copies', 'copy constructor, operator=')], 'insert/find/operator[]/empty', 'the tree of each map'),
 P('C08', 'map iterates in ascending key order, each key once',
   'Iterating a map from begin() to end() visits every stored key exactly once in strictly ascending order, whatever the insertion order: begin() is the smallest key, incrementing goes to the next larger stored key and finally to end(). upper_bound(k) designates the smallest stored key greater than k, or end(); iterators compare equal exactly when they designate the same element.',
   ['inputs', 'histories'], 'all maps of any size and shape, all arguments',
   'Order bugs need particular tree shapes; tests iterate one small map.',
   ['include/nanomap.h'], [('iteration', 'map::iterator, begin, end'), ('bounds', 'upper_bound, __upper_bound')], 'the visited sequence', 'the tree of each map'),
 P('C09', 'algorithms return what their definition says on every range',
   'min, max, max_element, fill, distance, swap, move and pair comparison satisfy their definitions on every input: max_element designates the first of the largest elements, fill writes every element of the range and nothing else, min/max return the first argument on ties, swap exchanges. Ranges of every length including empty are covered.',
   ['inputs'], 'all ranges of any length and content, all values',
   'Tests run each algorithm on one literal array.',
   ['include/nanoalgorithm.h', 'include/nanoutility.h', 'include/nanoiterator.h'], [('algorithms', 'nanoalgorithm.h'), ('pair, swap', 'nanoutility.h')], 'returned values and written ranges'),
 P('C10', 'numeric_limits are the true limits of each type',
   'For every arithmetic type supported, min() and max() bound every value of the type and are attained, epsilon is the distance from 1 to the next value, digits10 is the number of decimal digits that always survive, infinity and NaN behave as such. No value of the type lies outside [lowest, max].',
   ['inputs'], 'all values of every supported type', 'Tests compare some constants with literals; the universally quantified bound over all values is not settled by that.',
   ['include/nanolimits.h'], [('limits', 'nanolimits.h numeric_limits specialisations')], 'returned constants against every value of the type'),
 P('C11', 'floating-point classification, fmin/fmax, fabs, copysign, clamp',
   'isnan, isinf, isfinite, fabs, fmin, fmax, copysign and clamp give the IEEE-754 result for every bit pattern of float and double, including both zeros, infinities, NaNs and subnormals. fmin/fmax ignore a single NaN; fabs clears the sign of every value.',
   ['inputs'], 'all 2^32 float and 2^64 double bit patterns (pairs for two-argument functions)',
   'Tests try a few values; special values are a vanishing fraction of the input space.',
   ['include/nanomath.h'], [('classification', 'nanomath.h isnan/isinf/isfinite'), ('selection', 'fmin, fmax, fabs, copysign, clamp')], 'returned value'),
 P('C12', 'floor and ceil are the exact integral bounds',
   'floor(x) is the greatest integral value not above x and ceil(x) the least not below x for every finite float and double, without undefined behaviour; infinities and NaN are returned as they are.',
   ['inputs'], 'all float and double bit patterns', 'Tests try a few small values; tiny fractions, negatives and magnitudes beyond the int range are never tried.',
   ['include/nanomath.h'], [('rounding', 'nanomath.h floor, ceil')], 'returned value'),
 P('C13', 'elementary functions: special cases, ranges and accuracy',
   'For every float argument the functions of nanomath.h stay within an error bound of the mathematical function and keep its exact special cases and range, without undefined behaviour. '
   'sqrt: relative error at most 0.2 %, sqrt(+-0)=+-0, +inf to +inf, negatives to NaN. exp: positive and finite everywhere, relative error at most 3e-5 for |x| <= 87.33, exp(0)=1. '
   'log, log10: error at most 2e-6 and 1e-6 (relative where the value exceeds 1), log(0)=-inf, negatives and NaN to NaN, +inf to +inf, log(1)=0. '
   'sin, cos: within [-1,1] for every number, error at most 1e-6 for |x| <= 8192 and 1e-5 for |x| <= 262000; tan: 1e-6 for |x| <= 8192. sinh, cosh: finite, 2e-5 for |x| <= 87.33; tanh within [-1,1], 4e-6. '
   'erf within [-1,1] and erfc within [0,2], error at most 2.5e-6; erf(ierf(x)) = x up to 3e-5 on (-1,1); cbrt: relative error at most 2e-6, zeros kept. sinh, tanh, erf, ierf and cbrt have the sign of their argument. '
   'pow: x^0=1, x^1=x, x^2 exact up to the greatest float, 0^y=0 otherwise; powers of a finite number are finite, positive for a positive base; a negative base gives a negative result exactly for odd integral exponents, and 0 for exponents that are not integral; relative error at most 3e-5 where the result is within exp(+-87).',
   ['inputs'], 'all 2^32 float arguments; pairs (base, exponent) for pow',
   'Tests sample a few dozen points; an approximation that is wrong in one binade, at one exponent boundary or for huge arguments passes them.',
   ['include/nanomath.h'], [('range reduction', 'nanomath.h fast_rint, sin, cos, tan'), ('exponent/mantissa split', 'fast_exp2, fast_log2, sqrt, cbrt, pow'), ('special cases', 'sqrt, log, log10, pow')], 'returned value'),
 P('C14', 'memory primitives copy exactly the requested bytes',
   'memcpy copies exactly n bytes, changes nothing else and returns the destination, for every n, alignment and content.',
   ['inputs'], 'all buffers, offsets and lengths', 'No test exercises the boundaries.',
   ['include/nanocstring.h'], [('copy', 'nanocstring.h')], 'destination contents'),
 P('C15', 'hashing is a pure function of the bytes',
   'siphash of a byte string is SipHash-2-4 of exactly its bytes and key, for every length and both output widths: no byte outside the input is read, nothing but the output is written, and location does not matter. The hash functors are pure: integers hash to their value, equal floating-point numbers (both zeros included) have equal hashes and different ones differ.',
   ['inputs'], 'all byte strings of any length and location, all keys, all values of the scalar types', 'No test covers the residues of the length or compares with the published algorithm.',
   ['src/hash.cc', 'include/__hashfunc.h', 'include/nanofunctional.h'], [('siphash', 'src/hash.cc')], 'returned value'),
 P('C16', 'unique_ptr owns exactly one object and releases it exactly once',
   'A unique_ptr releases its object exactly once: on destruction, reset, or assignment over it; moving transfers ownership and leaves the source empty; release gives it up without destroying. get, *, ->, bool and comparison designate the owned object.',
   ['inputs', 'histories'], 'all pointers, null included, all operation sequences including self-moves', 'Tests build one pointer.',
   ['include/nanomemory.h'], [('ownership', 'unique_ptr')], 'destructor invocations'),
 P('C17', 'optional and variant hold what was last put in',
   'An optional or variant holds exactly the alternative and value last assigned, through copies, moves, swaps and resets; accessors and comparisons reflect it. Held objects are constructed and destroyed exactly once.',
   ['inputs', 'histories'], 'all values, alternatives and operation sequences', 'Tests check one value each.',
   ['include/nonstd/optional.hpp', 'include/nonstd/variant.hpp', 'include/nanooptional.h', 'include/nanovariant.h'],
   [('storage', 'nonstd/optional.hpp, nonstd/variant.hpp')], 'accessors'),
 P('C18', 'stringstream accumulates exactly what was streamed',
   'str() is the concatenation, in order, of the strings streamed since construction or the last clear; moving transfers the text and empties the source.',
   ['inputs', 'histories'], 'all strings, any sequence of insertions', 'Tests stream one or two literals.',
   ['include/nanosstream.h'], [('accumulation', 'stringstream::operator<<, clear, operator=')], 'str()'),
 P('C19', 'floating-point text conversion round-trips',
   'to_string(float/double) yields a numeral that reads back to the same value, stod/stof read every numeral correctly rounded.',
   ['inputs'], 'all float and double values and all numerals', 'Tests try a few values.',
   ['include/nanostring.h', 'include/__nanostrutil.h', 'include/fast_float/fast_float.h'], [('shortest printing', '__nanostrutil.h ryu'), ('parsing', '__nanostrutil.h s2d, fast_float')], 'text and parsed values'),
 P('C20', 'atomics, mutexes and threads synchronise',
   'Concurrent use of mutex, thread and atomic types gives mutual exclusion and sequentially consistent atomics.',
   ['schedules'], 'all interleavings', 'Tests are single-threaded.',
   ['include/nanomutex.h', 'include/nanothread.h', 'include/nanoatomic.h'], [('synchronisation', 'nanomutex.h, nanothread.h, nanoatomic.h')], 'observable ordering'),
 P('C21', 'tuple holds exactly its elements',
   'A tuple holds, in order, exactly the values it was made from (constructor, make_tuple, tuple_cat, allocator-extended construction, copy, move, assignment also from a tuple of other types, swap); get by index or type designates that element and no other. tie and forward_as_tuple refer to their arguments; == and < are elementwise equality and the lexicographic order; elements that own storage are copied, never shared, and released once.',
   ['inputs'], 'all element values; representative element types (scalars, empty classes, classes that own storage, references)',
   'No test uses tuples, although nanothread.h builds on them; wrong element or aliasing shows only for particular values and types.',
   ['include/nanotuple.h', 'include/tao/tuple/tuple.hpp'], [('storage', 'tuple.hpp tuple_value, tuple_base'), ('comparison', 'tuple_equal, tuple_less'), ('factories', 'make_tuple, tie, forward_as_tuple, tuple_cat')], 'get, comparisons'),
]
NOTE_PROOF = ('every obligation (contract clauses, memory safety, initialisation, arithmetic, termination) generated from the '
              'current headers is discharged by z3/cvc5 (C13: by the exhaustive interval branch-and-bound of dv/fbox.py) for all inputs; trusts the verifier in dv/, clang -O0 IR generation, '
              'allocation success and containers of at most 2^40 elements; contracts the verifier cannot close are labelled '
              'bounded in the evidence and not counted as proved')
NA = {
 'C19': 'correct rounding of ryu/fast_float rests on 128-bit multiplication by table entries and number-theoretic bounds on the tables; no contract within reach of the SMT back ends decides it, and a bounded check would settle nothing',
 'C20': 'nanomutex.h, nanothread.h and nanoatomic.h are stubs without an implementation of any synchronisation (see DESIGN.md); sequential contracts cannot express interleavings',
}
CLAIMED = open(os.path.join(HERE, 'claimed.txt')).read().split()
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3-vt setup.py', checks=[
    dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
         evidence_file='evidence/%s.json' % p['id'], technique='contract-based deductive verification of the compiled code (LLVM IR), SMT-discharged',
         level='proof', level_note=NOTE_PROOF) for p in PROPS if p['id'] in CLAIMED],
    not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'not claimed yet: contracts for these functions are not finished')) for p in PROPS if p['id'] not in CLAIMED],
    notes='see DESIGN.md; no hooks are needed in /repo')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
