#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
B = "bandersnatch/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

# ------------------------------------------------------------------ exponents
X = B + "exponents/"
prop("E01", "Exponents form the ring of integers modulo twice the subgroup order",
 "Setting an exponent from any integer, adding, subtracting, multiplying, negating and reducing exponents gives, for all operands (zero, one, values next to the subgroup order and next to its double, negative or huge inputs), exactly the value integer arithmetic modulo 2*p253 gives; reading it back modulo 2*p253 or modulo p253, testing for zero/one and printing agree with that value. Any combination of receiver and operands may be the same object and no operand other than the receiver ever changes. ",
 ["inputs", "histories"], "all operand values in [0, 2*p253), all integers for the setters, all sequences of operations with all alias patterns",
 "The tests use a few hand-picked or random values; boundary operands, aliasing and zero results are almost never hit by random 254-bit values, and Neg/ModuloP253 are effectively untested.",
 [X+"exponents.go", X+"exponent_constants.go"],
 [("reduction after every operation", X+"exponents.go Add/Sub/Mul/Neg/ModuloP253"), ("two views of one value", "ToBigInt_Full, ToBigInt_SubGroup")],
 ["return values of the exported methods of Exponent"])
prop("E02", "GLV decomposition is correct, bounded and shortest",
 "For every exponent t the decomposition returns a pair (u,v) with u + v*lambda = t modulo p253, where lambda is the eigenvalue of the curve endomorphism. Both |u| and |v| are at most the documented bound, and no other pair representing t has a smaller maximum of |u| and |v|; t itself is not modified.",
 ["inputs"], "all exponents modulo 2*p253, in particular those whose nearest lattice vector changes (Voronoi cell borders), 0, +-1, lattice points and their neighbours",
 "The tests check random exponents, none of which lie at a rounding border of the lattice reduction; shortestness is checked for random ones only.",
 [X+"glv_transform.go"], [("lattice reduction with hex-norm cell search", X+"glv_transform.go GLV_representation")],
 ["Exponent.GLV_representation().U/.V"])
prop("E03", "Signed digit recoding for multi-exponentiation represents its input",
 "For every integer of at most 128 bits in absolute value, the recoding into signed odd digits at positions yields exactly that integer as the sum of digit * 2^position, with positions strictly ordered and separated by at least the window size, and every digit odd and smaller in absolute value than 2^(window size). The input is not modified.",
 ["inputs"], "all 128 bit signed integers and all supported maximal digit widths",
 "Tests only use random integers; long carry chains and boundary magnitudes are not sampled.",
 [X+"glv_transform.go"], [("decomposition loop", X+"glv_transform.go decomposeUnalignedSignedAdic_*")],
 ["decomposition coefficients and positions (in-package accessor compiled in through a go overlay)"],
 hook="overlay file exporting the unexported recoding function (no change to /repo)")

# ------------------------------------------------------------------ errorsWithData
W = B + "errorsWithData/"
prop("W01", "Error messages are interpolated exactly according to the template language",
 "For every syntactically valid template, every set of own parameters and every base error, the error message is exactly the one the documented template language defines: literal text, escapes, parameters printed with the given verb, parameters of the whole chain, conditionals on the presence of parameters, and the base error's text with the parameters passed on through arbitrarily deep chains. Missing parameters are shown as missing and never lead to a panic, and producing a message has no side effect (repeating it gives the same text).",
 ["inputs", "histories"], "all templates over the token alphabet, all parameter maps, all wrap chains",
 "The tests cover a list of hand-written templates; nesting of conditionals, combination of own and passed parameters and chains are not enumerated.",
 [W+"formatting_parse.go", W+"formatting_tokenize.go", W+"formatting_interpolate.go", W+"plainErrorWithParams.go"],
 [("tokenizer", W+"formatting_tokenize.go"), ("parser to ast", W+"formatting_parse.go"), ("interpolate methods on ast nodes", W+"formatting_interpolate.go")],
 ["Error() of errors made by the exported constructors", "Error_interpolate"])
prop("W02", "Malformed templates never panic and are always reported",
 "For an arbitrary string (any bytes, including unbalanced braces, stray special characters, unknown conditions, invalid verbs and invalid UTF-8) used as an error template, creating the error, printing it and validating it never panic or hang. The syntax validator reports an error exactly when the template does not conform to the template language - at every nesting depth - and then the printed message contains a visible error indication together with the parameters and the base error's message, so no information is lost.",
 ["inputs"], "all strings, all base errors, all parameter maps",
 "Only a dozen malformed strings are tested, all malformed at the top level.",
 [W+"formatting_parse.go", W+"formatting_tokenize.go", W+"formatting_interpolate.go", W+"validate.go"],
 [("parser error recovery", W+"formatting_parse.go make_ast"), ("HandleSyntaxConditions recursion", W+"formatting_interpolate.go")],
 ["Error(), ValidateSyntax(), ValidateError_*() of errors built from the string"])
prop("W03", "Validators of errors agree with what formatting would show",
 "The base validator of an error reports a problem exactly when the template is malformed or refers to something that is absent from the error itself (an own parameter, the base error, or support for passing parameters on to it); the parameter-aware and final validators additionally take the passed parameters and the whole chain into account. A validator reports no problem only if formatting with the same parameters shows neither a missing value nor any other error indication of the template language (whether a verb suits the type of a value is left to package fmt), and validation never panics, whatever the parameters (including nil) and base errors are.",
 ["inputs", "histories"], "all templates, parameter maps, passed parameter maps and wrap chains",
 "Tests check a small table; consistency between validation and formatting is never tested as a relation.",
 [W+"validate.go", W+"formatting_interpolate.go"], [("VerifyParameters_direct / _passed", W+"formatting_interpolate.go"), ("ValidateError_* wrappers", W+"validate.go")],
 ["ValidateSyntax, ValidateError_Base, ValidateError_Params, ValidateError_Final versus Error()"])
prop("W04", "Error data is inherited, merged and deleted along wrap chains as documented",
 "The data of an error equals the data of the wrapped error overlaid with the newly given parameters according to the chosen mode (prefer the new value, keep the old value, or insist that no differing value exists), for every chain of wrapping, adding, deleting and converting operations. All accessors (single parameter, presence test, whole map, struct of a given type, any-data presence) agree with that one map on every error in the chain, and also when the chain contains ordinary wrapping errors in between.",
 ["histories", "inputs", "configurations"], "all chains of constructor/modify operations over all parameter sets and merge modes",
 "Tests look at chains of length one or two with fixed parameter names; combinations of modes, types and intermediate plain wrappers grow exponentially.",
 [W+"errorsWithData.go", W+"modify_errors.go", W+"dataOverride.go", W+"plainErrorWithParams.go", W+"params_to_data.go"],
 [("parameter collection through the chain", W+"errorsWithData.go GetData_map / GetParameter"), ("merge modes", W+"dataOverride.go mergeMaps"), ("deletion", W+"modify_errors.go DeleteParameterFromError")],
 ["GetParameter, HasParameter, GetData_map, GetData_struct, HasData"],
 state=[("error data map", "finite map parameter name -> value attached to an error", W+"plainErrorWithParams.go")])
prop("W05", "Conversion between data structs and parameter maps is lossless and checked",
 "For every suitable struct type, storing a struct value in an error and reading it back as the same type gives an equal value (up to fields that are hidden by a shallower field of the same name, which are not stored), including embedded structs and interface or pointer fields that are nil, and each exported field is visible as a parameter of the same name with the field's value. Reading data as a struct whose fields are absent from the error, or have other types, is reported as an error (or the fields are zeroed if that was requested) and never yields a partially wrong value; unsuitable struct types are rejected.",
 ["inputs", "programs"], "all struct shapes (flat, embedded, nested embedding, interface and pointer fields, unexported or duplicate fields), all field values, all missing-data modes",
 "Tests have a few struct types and values; mixtures of missing, nil and wrongly-typed fields are sampled once each.",
 [W+"params_to_data.go", W+"dataOverride.go", "internal/utils/getAllFields.go"],
 [("field map of struct types", W+"params_to_data.go getStructMapConversionLookup"), ("fillMapFromStruct / makeStructFromMap", W+"params_to_data.go")],
 ["NewErrorWithData_struct, GetData_struct, StructSuitableForErrorsWithData and relatives"])
prop("W06", "Errors with data are immutable and never share data with their callers",
 "Nothing that is done after an error has been created - wrapping it, adding, replacing or deleting parameters on top of it, changing the map that was passed in or any map that was handed out, reading or printing it, also from several goroutines - changes the error's message, its data or the errors below it. Looking up struct layouts from several goroutines at once is free of data races and gives the same results as in any sequential order.",
 ["histories", "schedules"], "all sequences of operations on a set of errors and maps; all interleavings of concurrent readers",
 "Aliasing bugs need a mutation after hand-out; tests never mutate returned maps and run no concurrent readers.",
 [W+"plainErrorWithParams.go", W+"errorsWithData.go", W+"modify_errors.go", W+"params_to_data.go"],
 [("copy of parameter maps on input and output", W+"errorsWithData.go"), ("RW mutex around lookup cache", W+"params_to_data.go")],
 ["message and data of every live error after each operation", "go race detector"])
prop("W07", "Wrapping keeps error identity: Is, As, Unwrap, nil and existing data",
 "An error obtained by wrapping, adding data to or removing data from another error unwraps to that other error (directly or through the chain), so that identity and type tests find every wrapped error and nothing else. Operations whose base error is nil return nil where documented, an error that already carries suitable data is recognised by the typed conversion exactly when all required data is present with the right types, and comparing distinct sentinel errors never identifies them.",
 ["histories", "inputs"], "all chains of wrap/modify operations over all kinds of base errors, including nil",
 "Tests check single wrapping steps.",
 [W+"plainErrorWithParams.go", W+"modify_errors.go", W+"errorsWithData.go", W+"incomparableWrapper.go", W+"dummyErrorWithParams.go"],
 [("Unwrap", W+"plainErrorWithParams.go"), ("AsErrorWithData", W+"errorsWithData.go"), ("nil handling", W+"modify_errors.go")],
 ["errors.Is, errors.As, errors.Unwrap, AsErrorWithData"])

prop("W08", "Translating an end of file keeps the data and every other error",
 "Translating a premature end of input turns an error that is or wraps (at any depth, also through joins) io.EOF into one that is identified as io.ErrUnexpectedEOF and no longer as io.EOF; all data attached to the error is retained under the same names with the same values, and the variant for typed errors retains the guaranteed struct type. Without any data the untyped variant gives exactly io.ErrUnexpectedEOF. Errors that do not wrap io.EOF, and nil, come back unchanged, and no existing error is modified.",
 ["histories", "inputs"], "all chains of errors with data around io.EOF, io.ErrUnexpectedEOF and other errors",
 "Tests do not call the translation functions; deserialization tests meet one or two shapes of chains.",
 ["internal/"+"errorTransform/error_transform.go", W+"modify_errors.go"],
 [("translation", "internal/"+"errorTransform/error_transform.go UnexpectEOF, UnexpectEOF2")],
 ["errors.Is against both sentinels, GetData_map and typed data before and after"])

# ------------------------------------------------------------------ common
C = B + "common/"
prop("C01", "Byte order conversion is lossless and independent of the host",
 "For each supported byte order and every 256-bit value, writing the value as 32 bytes and reading it back gives the same value and the bytes are the positional representation in exactly that order, for byte strings as well as for arrays of words, and exactly 32 bytes are written. Unsupported byte orders are refused when the endianness object is built.",
 ["inputs", "configurations"], "all 256 bit values and both byte orders (and custom byte order objects)",
 "Tests use few random values; word/byte swaps with palindromic or repeated bytes are not distinguishable on samples.",
 [C+"fe_endianness.go", C+"common_constants.go"], [("PutUint256 / Uint256 / indexed access", C+"fe_endianness.go FieldElementEndianness")],
 ["PutUint256, Uint256, PutUint256_array, Uint256_array, byte and bit index helpers"])
prop("C02", "Bit headers are always consistent and validated",
 "A bit header (prefix bits plus length) can only be built if the length is at most 8 and the bits fit into the length; every accepted header reports back exactly the bits and length it was built from, and every rejected combination is refused with an error (or the documented panic) leaving an existing header unchanged. A freshly declared header is the valid empty one.",
 ["inputs", "histories"], "all (bits,length) pairs and all sequences of set operations",
 "Tests check some pairs only and do not check that a failed set leaves the header unchanged.",
 [C+"embedded_params.go", C+"common_constants.go"], [("validation in constructor and setter", C+"embedded_params.go")],
 ["MakeBitHeader, SetBitHeader*, GetBitHeader, PrefixBits, PrefixLen"],
 state=[("header", "(bits, length) pair", C+"embedded_params.go")])

prop("C03", "The published field and curve constants satisfy their defining relations",
 "The base field size and the group order are primes of the stated sizes; curve order, exponent and cofactor are the stated multiples of the group order, consistent with the Hasse bound; the endomorphism eigenvalue is a square root of -2 modulo the group order; the root of unity has order exactly 2^32 and the odd part completes the order of the field; neutral elements, points of order two, points at infinity and the generator are the points they are named after, in every type; and the number, string, untyped, word and big integer forms of each constant, in every package that publishes it, agree. No operation changes a constant, whatever it is used for.",
 ["configurations", "histories"], "all exported constants of the packages common, exponents, fieldElements and curvePoints in all published forms, before and after their use",
 "No test relates the constants to each other or looks at them again after use; every other computation depends on them.",
 [C+"common_constants.go", "bandersnatch/fieldElements/field_element_constants.go", "bandersnatch/curvePoints/bandersnatch_constants.go", "bandersnatch/exponents/exponent_constants.go"], [("constant definitions", C+"common_constants.go")], ["exported constants of packages common, exponents, fieldElements and curvePoints"])

# ------------------------------------------------------------------ internal
I = "internal/"
prop("I01", "Call counters report the tree-weighted totals of all recorded calls",
 "After any sequence of creating counters, attaching subcounters with multipliers, hiding, incrementing and resetting, every counter's reported value is the one defined by its own increments and its subcounters' values with their multipliers, and resets affect exactly the addressed counters. As long as no counter is attached to itself directly or indirectly, invalid requests (empty ids, incrementing unknown ids, duplicate creation) are refused without changing any counter, and the reports list exactly the counters that should be shown, in tree order.",
 ["histories"], "all sequences of create/attach/increment/reset/report operations",
 "Tests run three fixed scenarios.",
 [I+"callcounters/callcounters.go"], [("parent/child bookkeeping", I+"callcounters/callcounters.go")],
 ["Get, Increment, reports, existence queries"],
 state=[("counter tree", "ids with parents, multipliers, counts and display flags", I+"callcounters/callcounters.go")])
prop("I02", "The stack is last-in first-out and never leaks or corrupts entries",
 "For every sequence of push, pop, peek and length operations the stack behaves like a mathematical sequence with pushes and pops at its end; popping or peeking an empty stack is refused with a panic and leaves the stack usable. Values handed out earlier stay unchanged by later operations except through the documented pointer to the top entry.",
 ["histories"], "all operation sequences", "Tests use one fixed sequence.",
 [I+"stack/stack.go"], [("slice based storage", I+"stack/stack.go")], ["Push, PushPtr, Pop, Top, Peek, Len, IsEmpty"],
 state=[("content", "sequence of entries", I+"stack/stack.go")])
prop("I03", "Precomputed test-data caches are consistent prefixes, also concurrently",
 "For each key the cache's elements form one fixed sequence: every request, from any goroutine and in any order, returns exactly the requested number of elements of that sequence, requests that repeat or overlap agree, and changing a returned slice or element copy does not change what others get. Inserting prepared elements adds them only for a key that holds none yet, creation functions are applied the way documented, and concurrent use has no data race and never loses or duplicates elements.",
 ["schedules", "histories"], "all interleavings of concurrent requests and all sequences of requests, inserts and keys",
 "Tests do sequential requests; the read-check-then-lock upgrade path is only exercised by racing requests.",
 [I+"testutils/precomputation_meta.go"], [("per key locking and page extension", I+"testutils/precomputation_meta.go")],
 ["GetElements, PrepopulateCache, Validate results"],
 state=[("per key sequence", "elements created so far, in order", I+"testutils/precomputation_meta.go")])
prop("I04", "The faulty buffer fails exactly at its designated byte",
 "Reading from and writing to the fault-injecting buffer behaves like an ordinary FIFO byte buffer until the designated byte count is reached; the operation that would pass the limit transfers exactly the remaining bytes and returns the designated error, and so do all later ones. Counts returned always equal the number of bytes transferred and the bytes transferred are exactly the ones written, in order.",
 ["fault_sequences", "histories"], "all limits and all sequences of reads, writes and resets of all sizes",
 "Tests try one limit with few sequences.",
 [I+"testutils/failingIO.go"], [("position tracking and limit", I+"testutils/failingIO.go")],
 ["Read, Write, Reset, Bytes, SetData results"],
 state=[("buffer", "pending bytes, read and write position, fault position", I+"testutils/failingIO.go")])
prop("I05", "Slice, list, map and reflection helpers compute their defined results",
 "Helpers that compare slices, lists and maps, remove duplicates, convert big integers to word arrays, enumerate the fields and methods of types, detect slice aliasing, detect panics, call functions with missing arguments and build the data attached to I/O errors (partial exactly if some but not all bytes were transferred) compute exactly what their definition says for all inputs, including empty, nil, overlapping and too-large ones. They do not modify their inputs.",
 ["inputs", "programs"], "all slices/lists/maps over small alphabets, all integers, a family of types",
 "Helpers underpin all other tests, which would silently become vacuous when they accept too much; they are tested on single examples.",
 [I+"utils/compareSlice.go", I+"utils/listcontainment.go", I+"utils/bigIntConversion.go", I+"utils/getAllFields.go", I+"utils/reflect_type.go", I+"testutils/slicealias.go", I+"testutils/checkpanic.go", I+"errorconsts/errorconsts.go"],
 [("individual helper functions", I+"utils, "+I+"testutils")], ["return values / panics of the helpers"])

# ------------------------------------------------------------------ field elements
F = B + "fieldElements/"
prop("F01", "Field element operations are exact arithmetic modulo the base field prime",
 "Addition, subtraction, multiplication, squaring, doubling, multiplication by small constants and machine integers, negation, inversion and division of field elements give exactly the value modulo the field's prime for all operands, whatever internal representation the operands have. Receiver and operands may coincide in any pattern, operands other than the receiver keep their value, and division by zero is refused by a panic (or error) as documented.",
 ["inputs", "histories"], "all field elements in all internal representations, all alias patterns, all sequences of operations",
 "Carry and conditional-reduction bugs show only for operands with probability about 2^-64 or less under uniform sampling.",
 [F+"field_element_montgomery.go", F+"uint256_montgomery.go", F+"uint256_modular.go"],
 [("Montgomery arithmetic with lazy reduction", F+"uint256_montgomery.go"), ("operation wrappers", F+"field_element_montgomery.go")],
 ["integer value of receiver and all operands after every operation"],
 state=[("element", "residue modulo p, with several internal representations", F+"field_element.go")])
prop("F02", "Square roots and Legendre symbols are correct for every field element",
 "The quadratic character of every field element is 0 exactly for zero, 1 exactly for nonzero squares and -1 otherwise. Taking a square root succeeds exactly for squares (zero included) and then gives a value whose square is the input; for a non-square the receiver is left unchanged, and an input that is not the receiver is never modified.",
 ["inputs"], "all field elements, in particular those whose 2-adic part is any of the 2^32 roots of unity, and all representations",
 "The dyadic discrete logarithm has 2^32 cases in table-driven blocks; random tests see few of the special ones (roots of unity of small order, zero, one).",
 [F+"field_element_square_root.go", F+"field_element_montgomery.go", F+"uint256_modular.go"],
 [("dyadic discrete log in 4 table lookups", F+"field_element_square_root.go"), ("Jacobi symbol", F+"uint256_modular.go jacobiV1_a")],
 ["SquareRoot, Jacobi results"])
prop("F03", "Comparison, sign and conversion depend only on the element's value",
 "Equality, absolute-value comparison, zero/one tests, sign, normalization, re-randomization and conversion to and from big integers, 256-bit integers, machine integers and bytes depend only on the residue class of the element, never on its internal representation, and agree with each other. Normalizing or re-randomizing never changes the value, converting out and back in is the identity, values that do not fit into a machine integer are refused with an error carrying the element, and printing agrees with the integer value.",
 ["inputs", "histories"], "all field elements in all internal representations (including both representations of small values), all integers for the setters",
 "Non-unique representations occur for random elements only with the re-randomizer; boundary representations are not tested.",
 [F+"field_element_montgomery.go", F+"field_element_bigInt.go", F+"field_element.go"],
 [("unique normal form on demand", F+"field_element_montgomery.go Normalize/IsEqual"), ("conversions", F+"field_element_bigInt.go")],
 ["results of comparison and conversion methods on equal values in different representations"])
prop("F04", "Batch field operations equal their element-wise definitions",
 "Products and sums of many elements, and simultaneous inversion of many elements, give exactly what element-by-element computation gives for every list length including 0 and 1, with repeated or aliased elements as documented. If some elements are zero, inversion reports exactly the zero positions and their number without changing anything, and the zero-skipping variant inverts exactly the others and reports the zero positions.",
 ["inputs"], "all lists of field elements of all lengths with zeros in all positions, and aliasing of result and arguments",
 "Tests use fixed lengths, random nonzero elements and single zeros.",
 [F+"field_element_batch.go"], [("Montgomery inversion trick", F+"field_element_batch.go MultiInvertEq*"), ("accumulation", F+"field_element_batch.go MultiplySlice/SummationSlice")],
 ["result, error data and all list entries after each call"])
prop("F05", "Field element (de)serialization is canonical, prefix-safe and accounts for bytes",
 "Serializing a field element writes exactly the 32 bytes of its value in [0,p) in the given byte order, with prefix bits placed in the most significant bits exactly if the value leaves room for them; deserializing the output returns the element and the prefix. Any input that is truncated, hits an IO error, carries an unexpected prefix, or encodes an integer not below p is reported by the matching error, the receiver keeps its value except in the documented non-normalized case, and the byte count and error data always describe exactly what was consumed or written.",
 ["inputs", "fault_sequences"], "all field elements, byte orders, prefix lengths/values, all 32-byte inputs, truncation and IO fault at each byte position",
 "Tests check roundtrips of random elements and very few faulty streams.",
 [F+"field_element_serialize.go", F+"uint256_serialize.go", F+"errors.go"],
 [("prefix bit handling", F+"field_element_serialize.go"), ("partial read/write bookkeeping", F+"uint256_serialize.go")],
 ["bytes in stream, returned counts, errors and their data, receiver value"])
prop("F06", "Wide unsigned integer arithmetic is exact with correct carries",
 "256-bit and 512-bit unsigned additions, subtractions, increments, multiplications, squarings, shifts, comparisons, bit operations and conversions to and from big integers, words and bytes equal exact integer arithmetic, with overflow returned as carry/borrow or wrapped as documented. Operands other than the receiver do not change and receivers may coincide with operands.",
 ["inputs", "histories"], "all pairs of 256-bit operands (edge limbs), all shift amounts, all alias patterns",
 "Carry propagation over all-ones limbs has probability 2^-64 in random tests.",
 [F+"uint256.go", F+"utility.go", F+"uint256_utility.go"], [("limb arithmetic with carries", F+"uint256.go")],
 ["values of all operands and returned carries"])
prop("F07", "Modular reductions keep their range contracts for all admissible operands",
 "Each modular operation on 256-bit integers returns, for every operand in its stated input range, a value congruent to the exact result modulo the prime and within its stated output range; a full reduction yields the unique representative, and the tests for being reduced are exact. The same holds for conversion into and out of Montgomery form, Montgomery multiplication and squaring, doubling, negation and modular inversion.",
 ["inputs"], "all operands within the input range of each variant, especially range ends and multiples of the prime",
 "The ranges' ends ([0,2^256), [0,2p), [0,2^256-p), [0,p)) are not sampled by random operands.",
 [F+"uint256_modular.go", F+"uint256_montgomery.go", F+"modulus.go"], [("conditional subtraction with lazy bounds", F+"uint256_modular.go, uint256_montgomery.go")],
 ["value and range of results of the suffixed operations"])
prop("F08", "Exponentiation and its sliding-window recoding are exact",
 "Raising a field element to any 256-bit exponent gives the exact power modulo the prime (with x^0 = 1 for all x including zero), independent of representation and aliasing. The sliding window recoding of every 256-bit exponent consists of odd digits below 2^w at strictly ordered positions that add up to the exponent.",
 ["inputs"], "all bases, all 256-bit exponents, all supported window sizes",
 "Tests try random exponents only; sparse, dense and boundary exponents and zero are not covered systematically.",
 [F+"uint256_modular.go", F+"utility.go", F+"field_element_montgomery.go"], [("sliding window", F+"uint256_modular.go ModularExponentiation_fa, SlidingWindowDecomposition"), ("Exp", F+"field_element_montgomery.go")],
 ["Exp results; recoding output"])

prop("F09", "The reference field implementation computes the same field exactly",
 "The second, big-integer based implementation of field elements computes for every operation of the common field interface (arithmetic, powers, square roots, comparison, sign, conversion, and the same refusals) exactly what arithmetic modulo the prime defines, for all operands, alias patterns and representations, so that it is a valid reference for the optimized implementation. Operands other than the receiver never change, and the internal integer always stays reduced.",
 ["inputs", "histories"], "all field elements, all alias patterns, all sequences of operations on the reference implementation",
 "Differential tests against a reference are void where both deviate or where the reference shares memory with its operands; the existing tests compare the two on random values only.",
 [F+"field_element_bigInt.go", F+"field_element.go"], [("big integer arithmetic with reduction after each operation", F+"field_element_bigInt.go")],
 ["value of receiver and operands after each operation of the reference implementation"],
 state=[("element", "big integer in [0,p), or an uninitialised value", F+"field_element_bigInt.go")])

prop("F10", "Alternative field algorithms, derived constants and sampling keep contracts",
 "Every algorithm the package contains for modular reduction, Montgomery multiplication, addition, inversion and exponentiation (including the ones kept only for comparison) keeps the contract of the operation for all admissible operands. The constants derived from a 256-bit modulus (reciprocal, Montgomery constants, small multiples) satisfy their defining equations for every admissible modulus. Sampling yields elements of the field, determined by the source of randomness alone and the same (with the same amount of randomness used) for both implementations, never zero where a non-zero element is requested; the root of unity has exactly the announced order.",
 ["inputs", "histories"], "all operands of every variant, all 256-bit moduli, all sources of randomness",
 "Differential tests between variants on random operands miss borders; derived constants are tested for a handful of moduli; sampling is tested with well-behaved generators only.",
 [F+"uint256_modular.go", F+"modulus.go", F+"field_element_montgomery.go"], [("constants derived from a modulus", F+"modulus.go"), ("variants of reduction and multiplication", F+"uint256_modular.go, uint256_montgomery.go"), ("SetRandom, SetRandomUnsafe", F+"field_element_montgomery.go, field_element_bigInt.go")],
 ["values and ranges of all variants' results; constants of a modulus; sampled values with the words drawn"])

# ------------------------------------------------------------------ curve points
G = B + "curvePoints/"
reps = "all curve points including neutral element, order-2 and order-4 torsion and the points at infinity, each in every projective representation and every point type"
prop("G01", "Point addition, subtraction, doubling and negation are the curve's group law",
 "For all points on the curve - neutral element, points of order two, points at infinity and equal or opposite operands included - in every mixture of coordinate types and projective representations, addition, subtraction, doubling and negation return the point the twisted Edwards group law defines, also when receiver and operands are the same object. No operand other than the receiver changes its value, subgroup-only types stay in the subgroup, and assignments that a type cannot represent are refused by a panic.",
 ["inputs", "histories", "configurations"], reps + "; all alias patterns; all operation sequences",
 "Exceptional cases are selected by algebraic coincidences (both operands special, denominators vanishing) that random points never meet, for each of dozens of type combinations.",
 [G+"curve_point_impl_add.go", G+"curve_point_impl_double.go", G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go"],
 [("addition formulas with special case handling", G+"curve_point_impl_add.go"), ("type dispatch", G+"curve_point_xtw.go, curve_point_axtw.go, curve_point_doubleproj.go")],
 ["affine value of receiver and operands after each operation"],
 state=[("point", "projective coordinates standing for an affine point, point at infinity, or not-a-point", G+"curve_point.go")])
prop("G02", "Point comparison and classification depend only on the point represented",
 "Equality of points, being the neutral element, being at infinity, being in the prime order subgroup and being an exceptional not-a-point value depend only on the mathematical point represented, never on the coordinate type or projective representation, and equal the definition for all curve points. Such queries never change the point's value, and equality is compatible with converting one operand to another type.",
 ["inputs", "configurations"], reps,
 "Comparison is implemented per pair of types with representation-dependent shortcuts; tests use random points for most pairs.",
 [G+"curve_point_impl_equality.go", G+"curve_point_impl_subgroupcheck.go", G+"curve_point_impl_torsion.go", G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go"],
 [("cross-multiplied comparison, modulo two-torsion in the subgroup", G+"curve_point_impl_equality.go"), ("Legendre and order check", G+"curve_point_impl_subgroupcheck.go")],
 ["IsEqual, IsNeutralElement, IsAtInfinity, IsInSubgroup, IsNaP, IsE1, IsE2"])
prop("G03", "Not-a-point values propagate and never compare or convert as points",
 "Any operation on an invalid (not-a-point) operand yields an invalid result, never a valid-looking point, for all types and operand positions; comparisons and classification queries involving one invoke the installed handler with the right operation kind and return the handler's answer. The default handler answers false, installing a handler replaces the previous one and reading it back returns the one installed.",
 ["inputs", "histories", "configurations"], "all operations with invalid values in any operand position, all point types, all handler configurations",
 "Tests check a subset of operations with the default handler.",
 [G+"error_handler.go", G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go"],
 [("handler indirection", G+"error_handler.go"), ("NaP checks in operations", G+"curve_point_*.go")],
 ["IsNaP after operations, arguments the handler receives, results of queries"],
 state=[("handler", "currently installed function", G+"error_handler.go")])
prop("G04", "Reconstructing points from coordinates accepts exactly valid encodings",
 "Constructing a point from full or partial coordinates (both coordinates, one coordinate plus the sign of the other, or sign-multiplied coordinates) returns the unique matching point exactly when one exists with the required properties, and otherwise returns the error naming the first violated requirement together with the offending coordinates. With trusted valid input the result is identical to that for untrusted input, and untrusted input can never lead to a point off the curve, or outside the subgroup for subgroup types.",
 ["inputs"], "all pairs of field elements and all signs, for valid points, points outside the subgroup, twist points, order-two points, zero coordinates",
 "Invalid inputs come in many algebraic classes (off curve, wrong coset, sign inconsistent, zeros), tests take few of each.",
 [G+"curve_point_impl_serialize.go", G+"serializer_curve_field.go", G+"curve_point_impl_subgroupcheck.go"],
 [("curve equation recovery", G+"serializer_curve_field.go"), ("subgroup and sign checks", G+"curve_point_impl_serialize.go")],
 ["returned point, error identity, error data"])
prop("G05", "Coordinate access and normalization agree with the point in all variants",
 "Affine, projective and extended coordinates read from a point satisfy their defining relations and determine exactly that point (up to the documented identification for subgroup-only representations), repeated reads agree, and reading never changes the point. Normalizing a point or a slice of points changes no point's value, brings each normalizable one into the requested normal form and reports exactly the positions that cannot be normalized.",
 ["inputs", "histories", "configurations"], reps + "; all slices with unnormalizable entries at all positions",
 "Batch normalization with mixed finite, infinite and invalid entries is tested with single failing positions.",
 [G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go", G+"batch_operations.go", G+"curve_point_slice.go"],
 [("lazy normalization", G+"curve_point_*.go"), ("batch inversion", G+"batch_operations.go")],
 ["coordinate accessors before and after normalization, returned index lists, slice views"])
prop("G06", "Conversion between point types preserves the point and enforces the subgroup",
 "Setting a point from a point of any other type yields the same mathematical point, or is refused by a panic when the target type cannot hold it (infinity in an affine type, unchecked general point in a subgroup type). The checked conversion into a subgroup type succeeds exactly for points in the prime-order subgroup and otherwise reports failure and leaves the receiver unchanged; cloning yields an independent equal point.",
 ["inputs", "configurations", "histories"], reps + "; all ordered pairs of types, trusted or untrusted",
 "Tests convert random points of a few pairs of types.",
 [G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go", G+"curve_point.go"],
 [("SetFrom / SetFromSubgroupPoint / Clone", G+"curve_point_*.go")],
 ["point values after conversion, returned flags, panics"])
prop("G07", "The endomorphism is the efficient homomorphism of degree two",
 "Applying the endomorphism to any curve point, in any type and representation, gives the image under one fixed rational group homomorphism whose square is multiplication by -2; on the prime-order subgroup it is multiplication by the documented eigenvalue. Points of order two and points at infinity map to the neutral element or to points at infinity as that homomorphism demands.",
 ["inputs", "configurations"], reps,
 "Random points do not reach the kernel and the exceptional points of the formula.",
 [G+"curve_point_impl_endo.go", G+"curve_point_xtw.go", G+"curve_point_axtw.go", G+"curve_point_doubleproj.go"],
 [("endomorphism formulas", G+"curve_point_impl_endo.go")], ["Endo / EndoEq results"])

prop("G08", "Slice wrappers are faithful views of the caller's points",
 "Wrapping a slice of points (values of any point type, pointers, or interface values) as a generic point slice gives a view: its length is the slice's, entry i is a pointer to the very i-th point of the caller's memory (not a copy), typed and untyped access agree, and indices outside are refused even if memory lies beyond. Changes through a view, through another overlapping view or by the owner are seen by all of them and touch no other point; redirected pointers are seen at once; operations on a whole view (batch normalization) act on exactly its points and preserve their values.",
 ["histories", "inputs", "configurations"], "all element types (including types of a user), all overlapping views, all sequences of writes, redirections and accesses through them",
 "Tests check single accesses; wrong element strides, stale copies or writes beyond a part show up only in histories on overlapping parts.",
 [G+"curve_point_slice.go", G+"batch_operations.go"],
 [("wrappers", G+"curve_point_slice.go AsCurvePointSlice, AsCurvePointPtrSlice, GenericPointSlice"), ("batch operations", G+"batch_operations.go")],
 ["pointer identity of entries, coordinates of all points after each call, panics on indices outside"],
 state=[("memory", "cells with points, arrays of slots naming cells, views of ranges of slots", G+"curve_point_slice.go")])

prop("G09", "Internal curve formulas, torsion, representation and sampling are exact",
 "Every internal addition, subtraction, doubling and multiplication formula, for each combination of coordinates, yields the point the group law defines for all operands for which it is specified (the safe ones for all, the unsafe ones whenever both operands are in the same coset of the prime-order subgroup), and an exceptional case never yields a wrong point but a NaP or the correct one. Adding torsion points in place, changing the projective representation and flipping to the equivalent subgroup representative never change the point beyond what they name; sampling yields valid points of the sampled type's group, and NaPs where NaPs are requested.",
 ["inputs", "histories", "configurations"], reps + "; every combination of formula, operand kinds, aliasing and kind of receiver",
 "Which formula the exported methods choose depends on types; each formula's exceptional cases are algebraic coincidences that random points never meet.",
 [G+"curve_point_impl_add.go", G+"curve_point_impl_double.go", G+"curve_point_impl_endo.go", G+"curve_point_naive.go", G+"curve_point_impl_torsion.go", G+"curve_point_impl_sampling.go"], [("addition formulas", G+"curve_point_impl_add.go, curve_point_naive.go"), ("torsion, change of representation", G+"curve_point_impl_torsion.go"), ("sampling", G+"curve_point_impl_sampling.go, curve_point_xtw.go")],
 ["raw coordinates of receiver and operands after each formula, torsion translation, change of representation and sampling"])

# ------------------------------------------------------------------ serialization
S = B + "pointserializer/"
prop("S01", "Point serialization round-trips and is canonical",
 "For every serializable point and every serializer configuration, deserializing the bytes produced by the serializer gives back an equal point and consumes exactly those bytes; the announced output length equals the number of bytes written. Equal points (in whatever representation) produce identical bytes, unequal ones different bytes, and the bytes are exactly the documented encoding (coordinate, sign and header bits, byte order).",
 ["inputs", "configurations"], "all serializable points in all types and representations, all formats, byte orders, bit headers and headers/footers",
 "Tests round-trip random points; canonicity over representations and the exact wire format are not pinned down.",
 [S+"basic_serializers.go", S+"values_serializers.go", S+"serialize_curve_point.go"],
 [("format specific coordinate encodings", S+"basic_serializers.go"), ("value serializers with bit headers", S+"values_serializers.go")],
 ["bytes written, points read, counts"])
prop("S02", "Untrusted deserialization accepts exactly valid canonical encodings",
 "For every byte string, deserializing as untrusted input succeeds exactly if the bytes are the encoding some valid point of the format would produce; anything else - values not reduced modulo the prime, wrong header bits, coordinates of no curve point, points outside the subgroup, inconsistent signs, the all-zero encoding - is reported as the corresponding error and the receiver is left unchanged. Trusted input that is valid gives the same point as untrusted input.",
 ["inputs", "configurations"], "all byte strings of the format's length, all formats and configurations, both trust levels",
 "Tests contain a handful of malformed inputs.",
 [S+"basic_serializers.go", S+"serialize_curve_point.go", G+"serializer_curve_field.go", G+"curve_point_impl_serialize.go"],
 [("header and range check in value deserializers", S+"values_serializers.go"), ("curve and subgroup check", G+"serializer_curve_field.go")],
 ["success/error kind, receiver before and after"])
prop("S03", "Slices and headers are framed exactly and reject deviations",
 "A serialized sequence of points is exactly: global header, four-byte little-endian count for self-describing slices, each point enclosed in its per-point header and footer, global footer; single points are enclosed in their own header and footer. Deserialization accepts exactly this framing, returns the points in order, reports a deviation in any header or footer, a count that exceeds the receiving buffer or a caller-given limit, and never writes beyond the announced number of points; on failure the reported number of points is the number actually stored.",
 ["inputs", "configurations", "histories"], "all slice lengths (0,1,...), all header/footer contents including empty, all deviations, all bounded/variadic/slice variants",
 "Tests use a few lengths and headers and do not alter framing bytes systematically.",
 [S+"headerSerializer.go", S+"serialize_curve_points.go", S+"serialize_curve_point.go"],
 [("header (de)serializers", S+"headerSerializer.go"), ("slice loop", S+"serialize_curve_points.go")],
 ["bytes, points, counts, errors and error data of the multi-point calls"])
prop("S04", "Byte counts and error data are exact under IO faults and truncation",
 "Whatever the reader or writer does - end of input, short transfer or error at any byte position - every (de)serialization call returns the exact number of bytes consumed or written, wraps the cause so that it can be identified, turns end-of-input inside an object into unexpected end-of-input while a clean end before the first byte stays end-of-input, and attaches data describing partial transfer. The points stored before the fault are the right ones, and no call blocks or panics.",
 ["fault_sequences", "inputs", "configurations"], "a fault at each byte position of each kind of call, for all reader/writer behaviours allowed by the io interfaces",
 "Tests inject faults at few positions in few formats.",
 [S+"serialize_curve_point.go", S+"serialize_curve_points.go", S+"headerSerializer.go", S+"values_serializers.go", S+"utils.go", I+"errorTransform/error_transform.go", B+"bandersnatchErrors/serializer_errors.go"],
 [("byte accounting", S+"*.go bytesRead/bytesWritten"), ("EOF translation", I+"errorTransform/error_transform.go")],
 ["returned counts, errors.Is against the injected cause, error data"])
prop("S05", "Serializer parameters can be changed only on copies and only validly",
 "Deriving a serializer with a changed parameter yields a new serializer that differs from the original in exactly that parameter, while the original and all other derived serializers behave as before; parameters can be read back with the value that was set, names are matched without regard to case. Unknown parameters, wrong types and inadmissible values are refused by a panic and leave everything unchanged; derived deserializers use the same parameters as the serializer they come from.",
 ["histories", "configurations"], "all sequences of parameter changes on a family of serializers derived from each other",
 "Tests change one parameter at a time on fresh serializers; sharing of buffers or headers between copies needs sequences.",
 [S+"parameterModification.go", S+"oop.go", S+"headerSerializer.go", S+"basic_serializers.go", S+"values_serializers.go"],
 [("clone then modify", S+"parameterModification.go makeCopyWithParameters"), ("parameter tables", S+"*.go RecognizedParameters")],
 ["GetParameter, RecognizedParameters, bytes produced by original and derived serializers"],
 state=[("serializer family", "set of (format, parameter assignment) objects", S+"serialize_curve_point.go")])

prop("P01", "Values used by different goroutines at the same time do not interfere",
 "Computations on field elements, wide integers, exponents, curve points and their (de)serialization that run in different goroutines on different objects give exactly what each gives alone, with no data race: no operation keeps state outside the objects it is given. Objects that are only read may be shared: field elements that have been normalized (reading them no longer changes their representation), exponents, and the published constants and points as operands.",
 ["schedules", "inputs"], "all interleavings of computations in several goroutines, on own objects and shared read-only operands",
 "Tests of the arithmetic run in one goroutine; hidden shared state (scratch space, memoized results, lazily changed constants) shows only under concurrent use.",
 [B+"fieldElements/field_element_montgomery.go", B+"fieldElements/field_element_square_root.go", B+"exponents/glv_transform.go", B+"curvePoints/curve_point_impl_add.go", B+"fieldElements/field_element_serialize.go"],
 [("representation of shared elements", B+"fieldElements/field_element_montgomery.go Normalize"), ("package-level constants", B+"curvePoints/bandersnatch_constants.go"), ("precomputed tables", B+"fieldElements/field_element_square_root.go")],
 ["results of each goroutine's calls, values of shared operands, race detector"],
 state=[("own and shared elements", "values and whether normalized; one process per goroutine", B+"fieldElements/field_element_montgomery.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P))
