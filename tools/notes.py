"""technique and level_note per property, for the manifest."""
GEN = "property-based testing: "
NOTES = {
    "C01": (GEN + "generated lines and rows against an independent row-splitting model, over 32 setups",
            "Random search with shrinking; full agreement on fields, acceptance and error text in every generated case. Trusts the model in h/model.hpp. Thorough adds a coverage-guided search over the same cases."),
    "C02": (GEN + "encode/decode round trip of generated tables",
            "Random search with shrinking; the oracle is the generated table itself, so it does not depend on the parser model. Thorough adds a coverage-guided search over the same cases."),
    "C03": (GEN + "lockstep differential of file, buffer and portable reader over generated histories",
            "Random search with shrinking; results, states and messages of the sources are compared with each other, including NUL bytes for file against buffer."),
    "C04": (GEN + "one generated history in the three error modes, against each other and a model of the messages",
            "Random search with shrinking; exact texts. Trusts the model of the messages; the position in a mismatched quote of a joined row is compared between the modes only."),
    "C05": (GEN + "generated documents with line breaks against a reference framing model",
            "Random search with shrinking over 15 multiline setups with limits 1 to 4, 300 and none. Thorough adds a coverage-guided search over the same cases."),
    "C06": (GEN + "positions after every operation against an independent framing of the document, and a restart at every reported offset",
            "Random search with shrinking; line() and position() are checked before and after every operation of a history."),
    "C07": (GEN + "metamorphic: every row of a generated document against the same row alone, and after a different neighbourhood",
            "Random search with shrinking; the oracle is the code itself on the row alone, so it does not depend on the model for values."),
    "C13": (GEN + "stateful: histories of header selections against a reference model of selection",
            "Random search with shrinking over histories of use_fields by names, repeats, unknown fields and re-selection. Thorough adds a coverage-guided search over the same cases."),
    "C14": (GEN + "stateful: histories of header queries against a reference model of the header",
            "Random search with shrinking over generated headers (quoted, escaped, malformed, empty) and query orders."),
    "C15": (GEN + "stateful: mixtures of reading methods against the list of rows of the document",
            "Random search with shrinking; counts every row once, in order, and checks eof before and after each read."),
    "C16": (GEN + "metamorphic: a document with skipped rows against the document without them, and against the framing model",
            "Random search with shrinking; empty lines, ignored rows and headers at any place, LF and CRLF."),
    "C17": (GEN + "stateful: a family of substitute chains against direct reads of the same row and a model of the order of alternatives",
            "Random search with shrinking over 14 shapes of chains, with predicates and callbacks that fail at random."),
    "C18": (GEN + "histories on exact-size read-only pages, with every view re-read until the next row, under AddressSanitizer",
            "Random search with shrinking; the buffer is mapped read-only and ends at an inaccessible page."),
    "C20": (GEN + "metamorphic: a history with moves inserted at random points against the same history without them, under AddressSanitizer",
            "Random search with shrinking; construction, assignment over fresh, used and finished parsers."),
    "C22": (GEN + "lockstep differential of the single header and the separate headers over generated histories, and over conversions of generated fields",
            "Random search with shrinking; all observers of both builds are compared after every step; a second part compares all types and type lists of C08 to C12."),
    "C23": (GEN + "generated interleavings of several instances against each instance on its own; further parts run parsers, converters and conversions in threads under ThreadSanitizer",
            "Interleavings in one thread are generated and exact; concurrent schedules are left to the machine, with a race detector."),
    "C24": (GEN + "metamorphic: all entry points of a reused converter, a fresh converter and a parser against each other",
            "Random search with shrinking over sequences of lines on one converter. Thorough adds a coverage-guided search over the same cases."),
    "C08": (GEN + "generated numerals for every integer type against an arbitrary-precision specification, through eleven routes",
            "Random search with shrinking around the limits of each type; three builds (headers, single header, headers without fast_float). Thorough adds a coverage-guided search over the same cases."),
    "C09": (GEN + "generated numerals against exact decimal-to-binary rounding, through eleven routes",
            "Random search with shrinking, with halfway cases, subnormals and the overflow boundary built on purpose; the C library's long conversion is the reference, cross-checked with exact arithmetic. Thorough adds a coverage-guided search over the same cases."),
    "C10": (GEN + "generated fields for characters, booleans, text, user types, optionals and variants against a compositional specification",
            "Random search with shrinking; every field goes through all types of a group in three builds. Thorough adds a coverage-guided search over the same cases."),
    "C11": (GEN + "generated values at and around the bounds of restrictions against their definition",
            "Random search with shrinking; infinities and not-a-number included where they convert; accepted exactly if the underlying type accepts and the predicate holds, with the error text of the restriction. Thorough adds a coverage-guided search over the same cases."),
    "C12": (GEN + "generated rows through 25 lists of types, tuples, objects and tied classes against a mapping of columns to values",
            "Random search with shrinking over lists fixed at compile time."),
    "C19": ("fuzzing: generated and mutated byte strings, delimiters and operation sequences under AddressSanitizer and UndefinedBehaviorSanitizer",
            "Random search with shrinking, guard pages behind every input, leak and descriptor accounting, bounded work per byte; thorough adds a coverage-guided search (libFuzzer) over the same cases."),
    "C21": ("fault injection over generated histories: every allocation of a history fails in turn, against the same history without faults",
            "Exhaustive over the allocations of each generated history (up to 400), random over histories; allocations of the C library are failed too in one part, AddressSanitizer watches in the other."),
    "C25": (GEN + "lockstep differential of setups that mean the same over generated histories",
            "Random search with shrinking over 22 rewritten setups (orders, predefined, nested, one-sided trimming) and all pairs of 15 others on documents to which their difference does not apply. Thorough adds a coverage-guided search over the same cases."),
    "C26": (GEN + "generated programs, compiled and compared with a specification of valid setups and uses",
            "Random search with reduction to a minimal program; clang in quick, clang and gcc in thorough; three builds of the library."),
    "C27": (GEN + "metamorphic: the most memory held over a few repetitions of generated rows and operations against the same over many repetitions",
            "Random search with shrinking; every allocation of the library is counted, so growth of a few bytes per row is seen; growth slower than that is not."),
}
