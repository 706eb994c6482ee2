"""The checks: which specifications are model checked, what is generated, executed and validated."""

CHECKS = {}


def check(pid, level, technique, note, rule):
    def deco(f):
        CHECKS[pid] = dict(run=f, level=level, technique=technique, note=note, rule=rule)
        return f
    return deco


MC = "model_checking"


@check("E01", MC, "TLA+ spec of the exponent register machine; TLC; trace validation and replay of TLC behaviours",
       "Small instances of the machine are explored exhaustively (all values, operations, alias patterns); recorded histories of the "
       "real type on all pairs of edge values, on all operation sequences enumerated by TLC and on edge-biased random histories are "
       "validated step by step. Assumes math/big (via the JVM's BigInteger) as arithmetic oracle.",
       "an episode is a history of calls on 3 registers; all pairs of ~45 boundary values, every 2-step operation sequence with every "
       "alias pattern, random histories; non-trivial: every one executes the real code and is compared after each call")
def e01(c):
    c.model("ExponentModel")
    g = c.gen("ExponentGen")
    c.trace("exponents", "E01", "ExponentTrace", gen=g)


@check("E02", MC, "TLA+ spec of lattice decomposition; TLC; trace validation",
       "The criterion for shortest decompositions is checked exhaustively on small lattices; real outputs are validated for edge "
       "exponents, a grid over the lattice cell, all borders of the norm cell, and random exponents.",
       "an episode is a list of decompositions of related exponents; inputs lie on a grid of the lattice cell and on its borders")
def e02(c):
    c.model("GlvModel", "GlvModel83.cfg")
    c.model("GlvModel", "GlvModel43.cfg")
    c.trace("exponents", "E02", "GlvTrace")


@check("E03", MC, "TLA+ spec of signed digit recoding; TLC; trace validation",
       "An abstract recoder is checked exhaustively for small integers (termination, partial sums); real recodings of small, top and "
       "random 128 bit integers for all window sizes 1..8 are validated.",
       "an episode is a list of recodings; integers near 0, near 2^128, with long runs of ones, random; windows 1..8")
def e03(c):
    c.model("DigitsModel")
    c.trace("expdigits", "E03", "DigitsTrace")


@check("F01", MC, "TLA+ spec of the field element register machine (residues, non-unique representations); TLC; trace validation and replay of TLC behaviours",
       "Small instances (p=7 and 13 with redundant representations) are explored exhaustively: every operation refines exact arithmetic whatever "
       "representative is chosen. Recorded histories of the real type, whose operands sit at the borders of the internal ranges and have special "
       "limbs, are validated call by call.",
       "an episode is a history of calls on 2-3 registers: pairs of ~110 boundary word patterns, operands whose sum/difference hits a range border, "
       "random histories and the 2-step alias patterns enumerated by TLC")
def f01(c):
    c.model("FieldModel")
    c.model("FieldModel", "FieldModel13.cfg")
    g = c.gen("FieldGen", limit=None if c.thorough else 2500)
    c.trace("field", "F01", "FieldTrace", gen=g)


@check("F02", MC, "TLA+ spec (relation) of square root and quadratic character; TLC; trace validation",
       "Existence of roots exactly for elements of character 0/1 is checked exhaustively on small fields; the real functions are validated on every "
       "byte value in every block of the dyadic logarithm, all roots of unity orders, boundary representations and random elements.",
       "an episode is a list of elements with their roots and characters; dyadic parts cover every table entry")
def f02(c):
    c.model("FieldModel", "FieldModel13.cfg")
    c.trace("field", "F02", "FieldTrace")


@check("F03", MC, "TLA+ spec of observers as functions of the residue; TLC; trace validation",
       "Observers are shown to be functions of the residue in the small models; the real ones are validated on equal, opposite and neighbouring "
       "values in all combinations of representations.",
       "an episode compares registers holding v, -v, v+1 in both representations, or values whose words share limbs, in all orders")
def f03(c):
    c.model("FieldModel")
    c.trace("field", "F03", "FieldTrace")


@check("F04", MC, "TLA+ spec of batch operations on register lists; TLC; trace validation",
       "Batch inversion is checked against element-wise inversion on small fields; the real functions are validated for every set of zero positions in "
       "lists up to 4, for longer random lists, sublists, permutations and aliasing receivers.",
       "an episode applies all batch operations to one list")
def f04(c):
    c.model("FieldModel", "FieldModel13.cfg")
    c.trace("field", "F04", "FieldTrace")


@check("F05", MC, "TLA+ spec of number (de)serialization over capacity-limited writers and faulty readers; TLC; trace validation",
       "Round trip, canonicity and byte accounting are checked exhaustively for small numbers, all short streams and capacities; the real functions are "
       "validated on every prefix length, truncation/fault at every byte, all range borders, and random pipes and streams with arbitrary chunking.",
       "an episode writes numbers with prefixes to a limited writer and reads streams back in all modes")
def f05(c):
    c.model("FeSerModel")
    c.trace("field", "F05", "FeSerTrace")


@check("F06", MC, "TLA+ spec of wide integer registers with carries; TLC; trace validation",
       "All operations are specified by exact integer arithmetic; the real functions are validated on all pairs of ~110 special limb patterns, all "
       "shift amounts, alias patterns and random histories with special limbs.",
       "an episode is a history on three 256-bit and one 512-bit register")
def f06(c):
    c.model("WideModel")
    c.trace("field", "F06", "WideTrace")


@check("F07", MC, "TLA+ spec of range contracts (congruence and range relation); TLC; trace validation",
       "On a small modulus in the same proportion to the word size, lazy reductions are shown to satisfy the contracts for all operands and chains "
       "to stay in range; each real operation is validated at all range borders, on operands whose sum/difference hits a border, and on random chains.",
       "an episode applies the modular operations to registers at or near the borders of the ranges [0,2^256), [0,2p), [0,2^256-p), [0,p)")
def f07(c):
    c.model("WideModel")
    c.trace("field", "F07", "WideTrace")


@check("F08", MC, "TLA+ spec of exponentiation and sliding-window recoding; TLC; trace validation",
       "The recoding criterion is checked against a greedy recoder for all small integers; real recodings for all powers of two and neighbours and all "
       "window sizes, and real exponentiations with boundary bases and exponents are validated.",
       "an episode is a list of exponentiations and recodings; exponents 0..39, 2^k, 2^k-1, 2^256-2^k, sparse, dense, random")
def f08(c):
    c.model("WideModel")
    c.trace("field", "F08", "WideTrace")
    c.trace("field", "F08fe", "FieldTrace")


@check("F09", MC, "TLA+ spec of the field element register machine, applied to the reference implementation; TLC; trace validation and replay of TLC behaviours",
       "The reference implementation (arbitrary precision integers), to which the optimized one is compared, is bound to the same specification: operations, "
       "roots and characters, observers and conversions, with the operands used for the optimized one.",
       "the episodes of F01, F02 and F03 on the reference implementation")
def f09(c):
    c.model("FieldModel", "FieldModel13.cfg" if c.thorough else None)
    g = c.gen("FieldGen", limit=None if c.thorough else 800)
    for s in ("F01", "F02", "F03"):
        c.trace("fieldx", s, "FieldTrace", gen=g if s == "F01" else None)


@check("F10", MC, "TLA+ spec of range contracts and exponentiation, applied to every alternative algorithm; TLC; trace validation",
       "The contracts of reduction, addition, multiplication, conversion and exponentiation of F07 and F08 are demanded of every algorithm the package contains "
       "for them; constants derived from a modulus, orders of roots of unity and sampled elements are judged by their defining relations.",
       "an episode applies all algorithms to registers at or near the borders of the ranges, exponents of all lengths, moduli next to powers of two, sources of randomness starting with zeros or ones")
def f10(c):
    c.model("WideModel")
    c.trace("fieldalt", "F10", "WideTrace")


@check("I01", MC, "TLA+ spec of the call counter registry; TLC; trace validation and replay of TLC behaviours",
       "Counter values, attachments and reports are explored for all short programs; recorded programs on the real registry (every observable after every "
       "call) must be behaviours of the specification.",
       "an episode is a program over a private set of counter names: creations, modifications, attachments, callbacks, resets, reports")
def i01(c):
    c.model("CountersModel")
    g = c.gen("CountersGen", simulate=(300 if c.thorough else 60, 15), limit=4000 if c.thorough else 700)
    c.trace("internals", "I01", "CountersTrace", gen=g)


@check("I02", MC, "TLA+ spec of a stack; TLC; trace validation and replay of all TLC behaviours",
       "All short operation sequences are explored and replayed on several element types; longer random ones are validated.",
       "an episode is a sequence of stack operations; after each the whole content, length and all values handed out are compared")
def i02(c):
    g = c.gen("StackModel", limit=None if c.thorough else 4000)
    c.trace("internals", "I02", "StackTrace", gen=g)


@check("I03", MC, "TLA+ spec of the concurrent cache algorithm; TLC (all interleavings); steered replay of TLC schedules; trace validation; race detector",
       "All interleavings of 2-3 requests over 2 keys are model checked (prefix consistency, exact number of creations, lock discipline, termination). TLC "
       "schedules are steered through the real code at its callbacks; sequential and free concurrent histories are validated, the latter race-instrumented.",
       "an episode is a set of requests: all sequences of 3 requests, schedules chosen by TLC, random concurrent programs of 2-8 goroutines")
def i03(c):
    c.model("CacheImpl", "CacheModel.cfg")
    if c.thorough:
        c.model("CacheImpl", "CacheModel3.cfg")
    g = c.gen("CacheGen", simulate=(6000 if c.thorough else 800, 60), limit=6000 if c.thorough else 800)
    c.trace("internals", "I03sched", "CacheTrace", gen=g)
    c.trace("internals", "I03", "CacheTrace", race=True)


@check("I04", MC, "TLA+ spec of the faulty buffer; TLC; trace validation and replay of TLC behaviours",
       "All short histories for all small thresholds are explored (bytes neither lost nor duplicated, faults exact and permanent) and replayed.",
       "an episode is a history of reads, writes, resets on a buffer with a threshold")
def i04(c):
    g = c.gen("FaultyBufferModel", limit=None if c.thorough else 6000)
    c.trace("internals", "I04", "FaultyBufferTrace", gen=g)


@check("I05", MC, "TLA+ definitions of the helper functions; TLC; trace validation",
       "Laws of the definitions are checked for all small inputs; every recorded call of the real helpers must give what the definition says.",
       "an episode is a list of helper calls: all pairs of lists over 4 letters up to length 2, random maps, views, integers, literals, struct types, signatures")
def i05(c):
    c.model("HelpersModel")
    c.trace("internals", "I05", "HelpersTrace")


@check("C01", MC, "TLA+ spec of positional byte strings in a memory; TLC; trace validation",
       "Writing and reading numbers of every width in both orders is explored for all small memories; real histories (every byte position, short slices, "
       "all ways to set the order, random mixes) are validated byte by byte.",
       "an episode is a history of writes, reads and order changes over a 44 byte memory and two order objects")
def c01(c):
    c.model("EndianModel")
    c.trace("common", "C01", "EndianTrace")


@check("C02", MC, "TLA+ spec of bit headers; TLC; trace validation",
       "Header histories are explored for all small values; all 256 x 256 (bits, length) pairs that matter and random histories with refused calls are validated.",
       "an episode is a history of header operations on two headers; all bits for lengths 0..20, border bits for all longer lengths")
def c02(c):
    c.model("EndianModel")
    c.trace("common", "C02", "EndianTrace")


@check("C03", MC, "TLA+ statement of the defining relations, evaluated by TLC on the constants compiled into the packages, before and after their use",
       "The relations (primality by 20 strong tests, orders, Hasse bound, eigenvalue, non-squares, root of unity, published points, agreement of all published "
       "forms) are evaluated on the constants of the packages common, exponents, fieldElements and curvePoints, also after histories that use every "
       "constant as operand, source of copies and output.",
       "an episode reads all published constants, or uses them in many operations and reads them again")
def c03(c):
    c.trace("constants", "C03", "ConstantsTrace")


TMPL = ("Templates up to 4 blocks (5 thorough) are explored exhaustively: the parser accepts exactly the grammar, escaping works, malformed templates are "
        "indicated and clean verdicts imply clean messages. ")


@check("W01", MC, "TLA+ spec of the template language (tokens, grammar, interpolation along chains); TLC; trace validation and replay of TLC-enumerated templates",
       TMPL + "Messages of real chains of errors are compared with the specified ones; only the printing of single values is taken from package fmt.",
       "an episode is a chain of 1-4 errors (12 for deep ones) with templates from the grammar, all messages asked for with no, empty and other passed parameters")
def w01(c):
    c.model("ErrTmplModel", "ErrTmplModel5.cfg" if c.thorough else None)
    g = c.gen("ErrTmplGen", "ErrTmplGenGood.cfg", limit=None if c.thorough else 1500)
    c.trace("errors", "W01", "ErrTmplTrace", gen=g)


@check("W02", MC, "TLA+ spec of the template language including malformed templates; TLC; trace validation and replay of TLC-enumerated templates",
       TMPL + "For malformed templates the wording of the indication is left open; its presence, the surrounding text, base error and parameters are specified.",
       "an episode is a chain of errors with arbitrary, near-valid, nested or non-UTF-8 templates; every block sequence up to length 3 (quick) is replayed")
def w02(c):
    c.model("ErrTmplModel")
    g = c.gen("ErrTmplGen", "ErrTmplGen4.cfg" if c.thorough else None, limit=None if c.thorough else 3000)
    c.trace("errors", "W02", "ErrTmplTrace", gen=g)


@check("W03", MC, "TLA+ spec of the validators next to the message semantics; TLC; trace validation and replay of TLC-enumerated templates",
       TMPL + "All verdicts of the real validators are compared with the specified ones, and messages of errors found valid with the specified message.",
       "an episode is a chain of errors (including foreign interpolating errors with each combination of verdicts) with valid and near-valid templates")
def w03(c):
    c.model("ErrTmplModel")
    g = c.gen("ErrTmplGen", "ErrTmplGenGood.cfg", limit=None if c.thorough else 1500)
    c.trace("errors", "W03", "ErrTmplTrace", gen=g)


DATA = ("An explicit TLA+ specification of errors with data (parameter maps, struct shapes with shadowing and suitability, wrap chains, joins and incomparable boxes, "
        "all constructors and conversions with their modes) is checked with TLC on all short histories (guarantees of typed errors, merge modes, identity, immutability). "
        "Histories generated by TLC are replayed on the code, and random histories over 30 values and 70 struct types are recorded from the real code; "
        "after every operation the data and message of every live error must be the specified ones. ")


def _data(c, pid, race=False):
    c.model("ErrDataModel", "ErrDataModelFull.cfg" if c.thorough else None)
    g = c.gen("ErrDataGen", simulate=(4000 if c.thorough else 500, 12), limit=4000 if c.thorough else 500)
    c.trace("errors", pid, "ErrDataTrace", gen=g, race=race)


@check("W04", MC, "TLA+ spec of errors with data as parameter maps over wrap chains; TLC; trace validation and replay of TLC histories",
       DATA + "For this property: chains mixing every constructor, mode, deletion, typed conversion and foreign wrapping; all accessors asked on every error.",
       "an episode is a history of up to 10 creating operations, with all accessors asked on many of the errors")
def w04(c):
    _data(c, "W04")


@check("W05", MC, "TLA+ spec of struct shapes and struct/parameter conversion; TLC; trace validation and replay of TLC histories",
       DATA + "For this property: struct values of every shape are stored and read back as the same and other types; suitability and the field list checks are compared for every type.",
       "an episode is a history of storing and reading struct values of suitable and unsuitable types, plus the shape checks of those types")
def w05(c):
    _data(c, "W05")


@check("W06", MC, "TLA+ spec in which errors are immutable values; TLC; trace validation incl. concurrent readers under the race detector",
       DATA + "For this property: everything passed in or handed out is modified afterwards; several goroutines read and extend the same errors (race detector on), and their results must be those of the sequential specification.",
       "an episode is a history with later modification of all inputs and outputs, or 6 goroutines working on one chain")
def w06(c):
    _data(c, "W06", race=True)


@check("W07", MC, "TLA+ spec of error identity (Is, As, Unwrap, boxes, joins); TLC; trace validation and replay of TLC histories",
       DATA + "For this property: chains with sentinel, value, joined, boxed and foreign wrapping errors; Is against every live error, As for three kinds of targets, Unwrap and Unbox.",
       "an episode is a history of wrapping operations with identity questions about all pairs of errors")
def w07(c):
    _data(c, "W07")


@check("W08", MC, "TLA+ spec of the translation of an end of file over error chains with data; TLC; trace validation of random chains",
       DATA + "For this property: histories around io.EOF and io.ErrUnexpectedEOF, translated by both functions with and without data, typed and untyped, nil included.",
       "an episode is a history that wraps, joins and translates the two sentinels and other errors, with all accessors asked on many of the errors")
def w08(c):
    c.model("ErrDataModel", "ErrDataModelEof.cfg" if c.thorough else "ErrDataModelEof1.cfg", workers=8)
    c.trace("errors", "W08", "ErrDataTrace")


def curve_models(c):
    c.model("CurveModel", "CurveModel17.cfg")
    c.model("CurveModel", "CurveModel17c.cfg")
    c.model("CurveModel", "CurveModel.cfg", workers=8)
    if c.thorough:
        c.model("CurveModel", "CurveModel17b.cfg")
        c.model("CurveModel", "CurveModelb.cfg", workers=8)


def curve_gen(c, which, n=60):
    n = n * 12 if c.thorough else n
    return c.gen("CurveGen", "CurveGen%s.cfg" % which, limit=n, simulate=(n, 60))


CURVE_MODEL = ("The point machine is explored on curves over F_17 and F_113 that share the characters of Bandersnatch's constants: group axioms, "
               "subgroup criterion, endomorphism and reconstruction are checked for all points, all operations with all alias patterns for all "
               "register contents. ")


@check("G01", MC, "TLA+ spec of the curve's point machine; TLC on small curves; trace validation and replay of TLC histories",
       CURVE_MODEL + "Recorded calls of the real types, for all pairs of types and all pairs of points of interest (neutral element, order two, infinity, equal, "
       "opposite, shifted by torsion) in several representations, are validated with the coordinates of every object after each call.",
       "an episode is a history on 2-4 point objects; exhaustive over type pairs x point-kind pairs, receivers and representations drawn; plus TLC histories")
def g01(c):
    curve_models(c)
    c.trace("curve", "G01", "CurveTrace", gen=curve_gen(c, "Add"))


@check("G02", MC, "TLA+ spec of queries as functions of the abstract point; TLC on small curves; trace validation",
       CURVE_MODEL + "Real classifications and comparisons are validated for all kinds of points in all types and representations and all type pairs; "
       "subgroup membership also against the definition by the order of the point.",
       "an episode asks all queries of one type, or compares two types, on all kinds of points in drawn representations")
def g02(c):
    curve_models(c)
    c.trace("curve", "G02", "CurveTrace", gen=curve_gen(c, "Look"))


@check("G03", MC, "TLA+ spec of NaP propagation and of the handler protocol; TLC on small curves; trace validation incl. concurrent handler exchange",
       CURVE_MODEL + "Every operation and query of the real types is validated with NaPs (several internal forms) in every operand position under "
       "handlers answering false, answering true and panicking; concurrent exchanges must form one chain.",
       "an episode runs operations or queries with NaPs in one pair of types under all handlers; swap episodes run 2-7 goroutines (race detector on)")
def g03(c):
    curve_models(c)
    c.trace("curve", "G03", "CurveTrace", gen=curve_gen(c, "Nap"))
    c.trace("curve", "G03S", "CurveTrace", race=True, shards=2)


@check("G04", MC, "TLA+ spec of point reconstruction (existence, uniqueness, first violated requirement); TLC on small curves; trace validation",
       CURVE_MODEL + "Real constructors are validated on all classes of coordinates: subgroup points, their shifts by each point of order two, general points, "
       "twist points, special field elements, all signs, both trust levels; errors with their data.",
       "an episode calls one constructor on all classes around random points, or on all pairs of 15 special field elements")
def g04(c):
    curve_models(c)
    c.trace("curve", "G04", "CurveTrace")


@check("G05", MC, "TLA+ spec of coordinates and normal forms; TLC on small curves; trace validation",
       CURVE_MODEL + "Every getter, normalizer and batch normalizer of the real types is validated for all kinds of points and representations; batches "
       "with every pattern of unnormalizable entries up to length 4 and longer random ones.",
       "an episode reads all coordinates of all kinds of points of one type, or normalizes one slice")
def g05(c):
    curve_models(c)
    c.trace("curve", "G05", "CurveTrace", gen=curve_gen(c, "Coo"))


@check("G06", MC, "TLA+ spec of conversions between point types; TLC on small curves; trace validation",
       CURVE_MODEL + "All ordered pairs of real types (and types unknown to the package) are validated: plain and checked conversions, clones and their independence.",
       "an episode converts all kinds of points between one pair of types")
def g06(c):
    curve_models(c)
    c.trace("curve", "G06", "CurveTrace", gen=curve_gen(c, "Conv"))


@check("G07", MC, "TLA+ spec of the endomorphism; TLC on small curves (homomorphism, kernel, square = -2 for all points); trace validation",
       CURVE_MODEL + "The real endomorphism is validated for all kinds of points, representations and pairs of types; the eigenvalue on random subgroup points.",
       "an episode applies the endomorphism for one pair of types to all kinds of points")
def g07(c):
    curve_models(c)
    c.trace("curve", "G07", "CurveTrace", gen=curve_gen(c, "Endo"))


@check("G08", MC, "TLA+ spec of cells, arrays and views of curve points; TLC over all histories of two views; trace validation and replay of TLC histories",
       "The view machine is explored exhaustively (two views of an array of values and an array of pointers, with a second description of what every "
       "reference reads). Real views of every kind (values of the six types and of types of a user, typed pointers, interface values, generic slices) are "
       "validated: the cell behind every entry, refused indices, calls through overlapping views, redirected pointers and batch normalization of parts.",
       "an episode is a history on one array of values, one array of pointers and their views, for one element type and kind of pointer array; plus TLC histories")
def g08(c):
    c.model("ViewsModel", "ViewsModel.cfg", workers=8)
    n = 600 if c.thorough else 72
    c.trace("curve", "G08", "ViewsTrace", gen=c.gen("ViewsGen", "ViewsGen.cfg", limit=n, simulate=(n, 40)))


@check("G09", MC, "TLA+ spec of the group law, torsion, representations and type invariants, applied to the internal formulas; TLC; trace validation",
       CURVE_MODEL + "Every internal formula (safe, unsafe and naive, all combinations of coordinates) is validated for all kinds of operands, aliasings and receivers; "
       "torsion translation, change of representation and sampling for all types.",
       "an episode applies one formula, or torsion and representation changes, to all kinds of points; or samples points and NaPs of all types")
def g09(c):
    curve_models(c)
    c.trace("curvex", "G09", "CurveTrace")


def ser_models(c, *quick):
    for cfg in quick:
        c.model("SerializerModel", "SerializerModel%s.cfg" % cfg, workers=8 if cfg in ("2", "P") else 4)
    if c.thorough:
        for cfg in ("1", "2", "M", "P"):
            if cfg not in quick:
                c.model("SerializerModel", "SerializerModel%s.cfg" % cfg, workers=8)
        c.model("SerializerModel", "SerializerModelMF.cfg", workers=8, heap="6g")


SER_MODEL = ("The serializer machine is explored exhaustively on a curve over F_113 with miniature digits: all points, all formats and framings, all byte strings of the "
             "format's length, a fault at every byte position. ")


@check("S01", MC, "TLA+ spec of the wire formats; TLC on a small curve (round trip, canonicity, prefix-freeness); trace validation byte by byte",
       SER_MODEL + "Bytes written by the real serializers for all kinds of points of all types in drawn representations must be exactly those of the specification, "
       "and reading them must give the same point back in receivers of every type.",
       "an episode writes all kinds of points of one type in one format under default and drawn parameters and reads them back; bit headers of every length")
def s01(c):
    ser_models(c, "1")
    c.trace("serializerx", "S01", "SerializerTrace")


@check("S02", MC, "TLA+ spec of reading as the inverse of writing; TLC over all byte strings on a small curve; trace validation on hostile inputs",
       SER_MODEL + "The real deserializers read encodings altered in 16 ways (foreign points, other signs, special and unreduced numbers, flipped bits, random bytes) "
       "and all pairs of special field elements; acceptance, error, count and receiver must be those of the specification.",
       "an episode reads 96 inputs in one format under 3-5 configurations into three receivers; exhaustive over pairs of special numbers")
def s02(c):
    ser_models(c, "2")
    c.trace("serializerx", "S02", "SerializerTrace")


@check("S03", MC, "TLA+ spec of framing; TLC over all framings, lengths and alterations on a small curve; trace validation",
       SER_MODEL + "Sequences and slices of up to 5 points are written and read in every way (fixed, bounded, variadic, slices with every kind of receiver buffer), with every "
       "framing byte altered, announced lengths around every limit, and sequences too long to be written.",
       "an episode writes and reads sequences of all lengths 0-5 in one drawn configuration, or alters each framing byte once")
def s03(c):
    ser_models(c, "M")
    c.trace("serializerx", "S03", "SerializerTrace")


@check("S04", MC, "TLA+ spec of byte accounting and faults; TLC with a fault at every position on a small curve; trace validation",
       SER_MODEL + "Every kind of call on the real (de)serializers is cut (end of input, read error, write error reported with or after the last byte) at every position of a single point "
       "and at the edges and drawn positions of sequences and slices; count, cause, flags and stored points must be those of the specification.",
       "an episode cuts all kinds of calls in one drawn configuration at 70-150 positions")
def s04(c):
    ser_models(c, "1")
    c.trace("serializerx", "S04", "SerializerTrace")


@check("S05", MC, "TLA+ spec of a growing family of serializers; TLC on all short histories; replay of TLC histories and trace validation incl. concurrent use",
       SER_MODEL + "All parameters of all family members are read back after drawn histories of derivations, refused derivations and copies; slices handed in or out are altered by the caller; "
       "members must behave as their parameters say; concurrent use under the race detector.",
       "an episode is a history of up to 30 derivations on up to 24 serializers; plus every parameter with every kind of value in every format")
def s05(c):
    ser_models(c, "P")
    n = 400 if c.thorough else 40
    g = c.gen("SerializerGen", limit=n, simulate=(n, 40))
    c.trace("serializerx", "S05", "SerializerTrace", gen=g)
    c.trace("serializerx", "S05P", "SerializerTrace", race=True, shards=2)


@check("P01", MC, "TLA+ spec of processes with own and shared elements (all interleavings of non-atomic operations); TLC; concurrent histories under the race detector, each validated against the sequential specifications",
       "The model explores every interleaving of non-atomic operations of 2 processes (two own elements each) and of 3 processes with a shared, normalized element: "
       "each process gets what it would get alone, shared elements stay, no two processes touch one place with one of them writing. On the real code, histories of "
       "field elements, wide integers, exponents, lattice decomposition, field element (de)serialization and points run six at a time in a race-instrumented program, "
       "with shared normalized elements, shared exponents and the published points as operands; every history must be accepted by the sequential specification.",
       "an episode is one history of calls run at the same time as five others; drawn from the histories of F01-F08, E01, E02, G01, G02, G04-G07 and histories with shared operands")
def p01(c):
    c.model("ShareModel", "ShareModel.cfg")
    c.model("ShareModel", "ShareModel3.cfg")
    if c.thorough:
        c.model("ShareModel", "ShareModelFull.cfg", workers=8)
    for area, suite, module in (("field", "P01fe", "FieldTrace"), ("field", "P01wide", "WideTrace"), ("field", "P01ser", "FeSerTrace"),
                                ("exponents", "P01exp", "ExponentTrace"), ("exponents", "P01glv", "GlvTrace"), ("curve", "P01pt", "CurveTrace")):
        c.trace(area, suite, module, race=True, shards=3)
