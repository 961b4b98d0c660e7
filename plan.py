"""What each check builds and runs."""

WRAPS = ["mmap", "mmap64", "munmap", "madvise", "open", "__open_2", "open64", "__open64_2", "fseeko64", "ftello64", "close", "fopen", "fopen64", "fdopen", "fclose", "fseeko", "ftello", "fputc"]

# asan: address sanitizer, OpenMP teams as fibers with a generated schedule
# race: every memory access of the library is a possible preemption point
# omp:  the optimised build on the real OpenMP runtime and real threads
# seq:  built without OpenMP
FLAVOURS = {
    "asan": dict(cxx=["-O1", "-fsanitize=address", "-fopenmp"], rt=["-DVP_SHIM"], defs=[], link=["-fsanitize=address"], libs=["-lgomp", "-lpthread"]),
    "race": dict(cxx=["-O1", "-fsanitize=thread", "-fopenmp"], rt=["-DVP_SHIM", "-DVP_TSAN"], defs=[], link=[], libs=["-lgomp", "-lpthread"]),
    "omp": dict(cxx=["-O2", "-fopenmp"], rt=["-fopenmp"], defs=[], link=["-fopenmp"], libs=["-lpthread"]),
    "seq": dict(cxx=["-O1", "-fsanitize=address"], rt=[], defs=[], link=["-fsanitize=address"], libs=["-lpthread"]),
}
ALL = list(range(8))

LEVEL_NOTES = [
    "x86-64 little-endian Linux, g++; labels plus one fit the label type; text inputs come from the documented grammar",
    "cases are a pure function of VERIF_SEED and the code under test, except on real threads (flavour omp)",
]

PLAN = {}
def P(pid, rule, flavours, **kw):
    PLAN[pid] = dict(rule=rule, flavours=flavours, **kw)
def F(flavour, parts, quick, thorough, **kw):
    return dict(flavour=flavour, parts=parts, cases=(quick, thorough), **kw)


# How cases are made and when one counts as non-trivial
RULES = {
"C01": "Edge-list text made from generated entries (labels, repeats, comments, blank lines, CRLF, extra columns, no final newline) read by a generated number of threads; non-trivial: at least two entries read by at least two threads.",
"C02": "Weighted edge-list and Matrix Market text with generated weight tokens (signs, fractions, exponents, extremes of the type), read with every option set; non-trivial: at least two entries.",
"C03": "Generated entries with likely self loops, as edge list or Matrix Market text, read under all eight option combinations; non-trivial: entries exist that the options drop, swap or mirror.",
"C04": "Matrix Market text with right, larger or contradicting header counts; non-trivial: at least two entries, or a contradicting header.",
"C05": "0- and 1-based .graph text with empty rows, comments, CRLF and no final newline, read as CSR, COO and DiGraph, and headers contradicting the rows; non-trivial: at least two rows and endpoints by at least two threads, or a contradicting header.",
"C06": "COOs filled in memory (sizes larger than the entries need, other types and storage) or text files, converted to a CSR; non-trivial: at least two entries and two threads.",
"C07": "CSRs filled in memory, converted to plain and symmetric COOs and back; non-trivial: at least two entries and two threads.",
"C08": "CSRs filled in memory from generated rows, sorted; non-trivial: at least one row was not sorted.",
"C09": "CSRs filled in memory with likely repeated endpoints; non-trivial: at least one duplicate was removed.",
"C10": "Objects with generated sizes and contents saved under various names and loaded by other thread counts and storage kinds; non-trivial: at least two entries (or objects in one file).",
"C11": "Objects saved and compared byte for byte with an independent encoder, and crafted bytes loaded; non-trivial: at least two entries.",
"C12": "Valid binary files truncated at a generated byte, or with a changed header byte, count, version or type; non-trivial: every case whose bytes really differ from a valid file.",
"C13": "COOs and tensors filled in memory, written as text by a generated number of threads; non-trivial: at least two entries and two threads.",
"C14": "Values of every integer and floating-point type, biased to digit-count boundaries and extremes, small types completely; non-trivial: more than one digit, a whole range, or floating point.",
"C15": "COOs and text files, square or rectangular, turned into DiGraph and Matrix; non-trivial: at least two entries and two threads.",
"C16": "Graphs from COOs or arrays, every vertex visited, sorted, searched and changed through the iterator; non-trivial: at least two entries.",
}
STD = lambda q=60000, t=1500000, rq=6000, rt=150000: [F("asan", ALL, q, t), F("race", [0, 1], rq, rt)]
BIG = STD(200000, 5000000, 30000, 800000)
for pid in ("C01", "C02", "C03", "C04", "C05", "C10", "C11"):
    P(pid, RULES[pid], BIG)
P("C13", RULES["C13"], STD(120000, 3000000, 20000, 500000))
for pid in ("C06", "C07", "C08", "C09", "C15", "C16"):
    P(pid, RULES[pid], STD())
P("C12", RULES["C12"], [F("asan", ALL, 300000, 6000000)])
P("C14", RULES["C14"], [F("asan", [0], 300000, 6000000)])

RULES.update({
"C17": "Histories of up to 15 operations (make, copy, assign also to itself, transpose, set sizes, change an entry, free) over four COOs compared with value models after every step; non-trivial: an operation touched an object with entries.",
"C18": "Tensor text of order 1 to 8 with comments, blank lines, tabs, CRLF, trailing blanks, generated weights and no final newline; non-trivial: at least two entries and two threads.",
"C19": "Histories over three tensors (make, copy, assign, largest labels, change, free), and tensors written as text and read back; non-trivial: an operation touched an object with entries, or at least two entries written.",
"C20": "Byte strings in files and memory searched for a byte by a generated number of threads; non-trivial: at least two occurrences and two threads.",
})
P("C17", RULES["C17"], STD(300000, 6000000, 60000, 1500000))
P("C18", RULES["C18"], STD(160000, 4000000, 20000, 500000))
P("C19", RULES["C19"], STD(160000, 4000000, 20000, 500000))
P("C20", RULES["C20"], [F("asan", [0], 300000, 6000000), F("race", [0], 60000, 1500000)])
RULES.update({
"C21": "The same generated file taken through every operation (read under all options, write, save, reload, convert, sort, remove duplicates, DiGraph, Matrix, tensor) by one thread and by generated numbers of threads, results compared byte for byte; and the searches of C01, C03, C05, C06, C08, C18, C20 on real threads; non-trivial: at least two entries.",
"C22": "The same generated file taken through every operation by the same team under a plain and two generated interleavings with preemption at memory accesses, results compared byte for byte; and the searches of C01-C09, C13, C15, C18 in further type configurations with preemption; non-trivial: at least two entries.",
})
P("C21", RULES["C21"], [F("asan", [0, 1, 2, 4, 7], 12000, 300000), F("omp", [0, 2, 3], 16000, 400000, files=["C21", "C01", "C03", "C05", "C06", "C08", "C18", "C20"], other_parts=lambda i: [i % 8, (i + 5) % 8])])
P("C22", RULES["C22"], [F("race", [0, 1, 2, 5], 24000, 800000, files=["C22", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C15", "C18"], other_parts=lambda i: [(i + 2) % 8, (i + 6) % 8])])

RULES["C23"] = "The searches of C01 to C20 with the library compiled without OpenMP, in rotating type configurations; non-trivial as in the check a case belongs to."
P("C23", RULES["C23"], [F("seq", [], 60000, 3000000, files=["C%02d" % i for i in range(1, 20) if i != 14], other_parts=lambda i: [i % 8])])
RULES["C24"] = "The searches of C01 to C19 in 18 configurations of types and storage kinds drawn from the seed (kinds of labels, offsets and weights may differ); the same generated file taken through every operation in each type configuration and in 64-bit vectors, and by every documented alias and by its spelled-out type, values compared; non-trivial: at least two entries."
RAND = ["C24"] + ["C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19)]
P("C24", RULES["C24"], [F("asan", [0, 1, 2, 4, 7], 120000, 3000000, files=RAND, other_parts=lambda i: [7 + i], random_types=True)])
RULES["C25"] = "Edge-list, Matrix Market, .graph and tensor text damaged by generated edits (inserted fragments, deletions, truncation, byte changes, moved blocks, files ending exactly at a page), strings of format fragments, and edge lists with labels beyond their (unsigned) type, read as every object; non-trivial: entries were read or the file was refused."
P("C25", RULES["C25"], [F("asan", ALL, 300000, 8000000), F("race", [0], 20000, 500000)])
RULES["C26"] = "Histories of up to 25 operations (seek, read and write values, strings and regions, move, check for room) on a file of generated size against a byte array with a position; regions and values in memory; files that cannot be opened; non-trivial: at least two operations succeeded, or a region shared by two threads."
P("C26", RULES["C26"], [F("asan", [0], 500000, 10000000), F("race", [0], 30000, 800000)])
RULES["C27"] = "Valid content of every kind under generated names (known, unknown, doubled and upper-case extensions), read as every object with and without a type, by name and from open files at any position; wrong types and other versions; non-trivial: every case whose object can be read or must be refused for its type."
P("C27", RULES["C27"], [F("asan", ALL, 160000, 4000000)])
RULES["C28"] = "Objects read from generated text files are saved and written over missing, shorter, longer, empty and their own source files beside sentinel files, the whole directory and the object compared byte for byte after each; CSRs saved inside larger files; binary files read and what was read changed; non-trivial: at least two entries."
P("C28", RULES["C28"], [F("asan", ALL, 100000, 2500000)])
RULES["C29"] = "Strings of numbers, signs, comments, line ends and arbitrary bytes scanned by up to 21 generated operations against a model written from the documentation; all integers of a text in order; non-trivial: at least two operations moved, or two numbers."
P("C29", RULES["C29"], [F("asan", [0], 1500000, 30000000)])
RULES["C30"] = "One of 18 operations (read, load, save or write each kind of object, open a file) with one or two of its system calls failing, or refused by the real system (missing directory, directory, full device, file size and descriptor limits, long name); histories of opening, moving and closing files; open descriptors and mappings compared; non-trivial: every case in which something was made to fail, or a file moved."
P("C30", RULES["C30"], [F("asan", [0, 1, 2, 3, 5, 7], 60000, 1500000)])
RULES["C31"] = "Histories of up to 21 operations (read, make, copy, assign, convert, sort, save, load, free, free twice) over a dozen objects that are all freed in the end, and attempts to read what must be refused, each run twice with the heap's size compared before and after the second run; non-trivial: at least two operations, or the attempt failed."
P("C31", RULES["C31"], [F("asan", ALL, 60000, 1500000)])
RULES["C32"] = "Chains of up to 13 operations (convert, transpose, copy, sort, remove duplicates, save and load, write and read under options, DiGraph, Matrix) on the entries of a generated file, compared with a list of entries after every step, and the three example programs of the documentation on generated files; non-trivial: at least two entries and two steps."
P("C32", RULES["C32"], [F("asan", ALL, 80000, 2000000), F("race", [0], 16000, 400000)], inc=["-I@REPO@/docs"])
RULES["C33"] = "Generated valid and damaged text files taken through every operation by the modular headers and by the released or freshly generated single header in one program, results compared byte for byte; non-trivial: at least two entries, or damaged text."
P("C33", RULES["C33"], [F("asan", [0, 1, 4, 10, 11, 14, 20, 21, 24], 20000, 500000)], prepare="tools/release.py", link_is_property=True, inc=['-DVP_RELEASED="@REPO@/release/pigo.hpp"', '-DVP_GENERATED="@BUILD@/release/pigo.hpp"'])
RULES["C35"] = "Two to five real threads, or threads of one parallel region, each take a generated file of their own through every operation with a team of its own, or use the same object as a source, three times over, results compared with those made alone; non-trivial: at least two entries."
P("C35", RULES["C35"], [F("omp", [0, 2, 3], 2500, 60000)])
RULES["C36"] = "Every operation (reading text of every format, conversions, copies, sorting, text and binary output) on n and 4n generated entries (rows of various lengths, hubs, sorted, with comments), by one thread and by a generated team, and on the same entries with labels up to 500000 times as large, instrumented memory accesses counted in all and along the longest path and the heap's peak compared; non-trivial: every case (labels: scaled by more than 1)."
P("C36", RULES["C36"], [F("race", [0, 3, 5, 6], 5000, 100000)], wraps=["memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc"])
RULES["C34"] = "Sparse files of more than 4 GiB as bytes, as regions, searched, and as text with a comment of 4 GiB; text of more than 4 GiB written and read back; CSRs, COOs and tensors of more than 2^32 labels saved, loaded and converted, with contents that are functions of the position; graphs with labels up to 2^32-2; on real threads; non-trivial: every case that was not skipped for want of room."
P("C34", RULES["C34"], [F("omp", [0], 17, 170, workers=1, args=["--each", "--cpu", "900"])], wall=(500, 3000))
