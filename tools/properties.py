#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the list below and plan.py."""
import json, sys
from pathlib import Path
HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
from plan import PLAN

I = "include/pigo/impl/"
COO, CSR, PIGO, TEN, GRA, STB = I + "coo.impl.hpp", I + "csr.impl.hpp", I + "pigo.impl.hpp", I + "tensor.impl.hpp", I + "graph.impl.hpp", I + "stb.impl.hpp"
H = "include/pigo.hpp"; CH, CSH, GH, MH, TH = ("include/pigo/%s.hpp" % x for x in ("coo", "csr", "graph", "matrix", "tensor"))
PROPS = []
def P(pid, title, statement, over, text, why, files, mech, observe, level_note, state=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), level_note=level_note))
SAMPLES = "The tests read a handful of fixed files of at most a few dozen lines with the default thread count; "

P("C01", "Edge-list files are read completely, exactly and in file order",
  "Reading an edge-list file into a COO gives one entry per data line, in file order, with exactly the two labels of the line, whatever the comments, blank lines, line endings, extra columns, separators or missing final newline and however many threads share the file. n, nrows and ncols are one more than the largest label, the largest row label and the largest column label.",
  ["inputs", "schedules", "configurations"], "Every edge-list text, every team size and interleaving, every supported label/ordinal/storage type.",
  SAMPLES + "a lost, doubled or merged entry shows only where a chunk boundary falls on a particular byte of a particular line.",
  [COO, PIGO, H], [("two-pass parallel reader with per-thread line alignment", COO + " read_el_"), ("token scanner", PIGO + " FileReader")],
  ["COO::x(), y(), m(), n(), nrows(), ncols()"], "Random search against the list the text was generated from; 8 type configurations, 1-64 threads on a deterministic fiber runtime, plus preemption at every memory access for two of them.")
P("C02", "Every entry keeps its own weight, with the value its text denotes",
  "Reading a weighted edge list or Matrix Market file stores next to each entry the weight written on that entry's own line; integer weights are exact, floating-point weights (fractions, signs, exponents) are correct to the precision of the type. Options that drop, swap or mirror entries keep the weight with its entry. The locale the program has selected makes no difference.",
  ["inputs", "schedules", "configurations"], "Every weight text whose value and power of ten are within the type's range, with any number of digits, every line layout, team size and option set.",
  SAMPLES + "weights in them are a few small decimals, so sign, exponent, digit-count and boundary cases are never met.",
  [COO, PIGO], [("weight token reader", PIGO + " read_wgt / FileReader::read_fp"), ("weight slot follows the entry", COO + " read_coord_entry_")],
  ["COO::w()"], "Random search; the expected value is computed with long double arithmetic from the generated decimal.")
P("C03", "Symmetric, upper-triangle and self-loop options keep exactly what they say",
  "With the symmetric option every entry with different ends appears in both directions and a self loop once; keep-upper-triangle drops entries below the diagonal (in a symmetric COO it stores each entry once with x <= y instead); remove-self-loops drops exactly the self loops. The combination of options keeps exactly the promised entries, with multiplicity and in file order, and a symmetric result has equal row and column counts.",
  ["inputs", "schedules", "configurations"], "Every edge list and Matrix Market file, all eight option combinations, weighted or not.",
  SAMPLES + "only some option combinations are tested, on one file each.",
  [COO], [("counting pass and writing pass agree", COO + " read_coord_entry_i_")], ["COO::x(), y(), m(), n(), nrows(), ncols()"], "Random search against the option rules applied to the generated list.")
P("C04", "Matrix Market files: sizes from the header, contradictions are refused",
  "Reading a Matrix Market coordinate file gives exactly its entries in file order with nrows and ncols one more than the header's (labels stay 1-based), both equal to the larger for a symmetric COO. A header whose row, column or entry count contradicts the entries is refused with a pigo::Error.",
  ["inputs", "schedules", "configurations"], "Every coordinate-format Matrix Market text with right or wrong header counts.",
  SAMPLES + "none has a wrong header in each of the three counts.", [COO, PIGO], [("header checks", COO + " read_mm_")], ["COO contents", "thrown exception type"], "Random search; headers are right, larger than needed, or contradict the entries.")
P("C05", "Adjacency (.graph) files are read row by row",
  "Reading a .graph file into a CSR gives each vertex exactly the endpoints of its own line, in order, 0- or 1-based as the file is, across blank lines (vertices without edges), comments, line endings and a missing final newline; building a COO or DiGraph from the file gives the same entries. A file whose header promises more lines than it has, another number of edges, or leaves out lines that have endpoints, is refused with a pigo::Error.",
  ["inputs", "schedules", "configurations"], "Every unweighted .graph text; in 1-based files converted further, the last vertex has no edges (see finding K1).",
  SAMPLES + "they contain two small graphs, so rows are never split between threads in unusual places.", [CSR, PIGO], [("per-thread row alignment and offsets merge", CSR + " read_graph_")],
  ["CSR::offsets(), endpoints(), n(), m(), nrows(), ncols()"], "Random search; the recorded finding K1 is replayed and reported as known.")
P("C06", "A CSR built from a COO has exactly its entries, row by row",
  "Building a CSR (or Graph) from a COO, or directly from an edge-list or Matrix Market file, gives a CSR whose row r holds exactly the column labels (and weights) of the entries in row r, with multiplicity; offsets start at 0, never decrease and end at m. n covers all rows, nrows and ncols are those of the COO, and the COO is unchanged.",
  ["inputs", "schedules", "configurations"], "Every COO (types and storage of both sides, empty, rectangular, duplicate entries) and every schedule.",
  SAMPLES + "the parallel bucket fill is order dependent and tests do not vary the schedule.", [CSR], [("per-thread degree counting and placement", CSR + " convert_coo_")],
  ["CSR::offsets(), endpoints(), weights()"], "Random search with a multiset-per-row model; schedules explored by seeded fibers with preemption at memory accesses.")
P("C07", "A COO built from a CSR has exactly its entries; nothing is lost on the way",
  "Building a COO from a CSR gives one entry per stored edge in row order with its weight, or both directions (self loops once) when the COO is symmetric, and keeps the CSR's size information. COO to CSR to COO, and CSR to COO to CSR, preserve the multiset of entries.",
  ["inputs", "schedules", "configurations"], "Every CSR including empty rows, self loops, repeated edges, rectangular shapes.",
  SAMPLES + "conversion is tested on one or two graphs.", [COO, CSR], [("row walk with per-thread offsets", COO + " convert_csr_")], ["COO contents", "CSR contents"], "Random search against a row model.")
P("C08", "Sorting a CSR orders every row and changes nothing else",
  "After sort(), the endpoints of every row are in non-decreasing order with the weights still attached to their endpoints (equal endpoints ordered by weight); offsets, sizes and the contents of each row as a multiset are unchanged, and sorting again changes nothing.",
  ["inputs", "schedules", "configurations"], "Every CSR, row length and duplicate structure.", SAMPLES + "sorting is tested on a few tiny rows.", [CSR], [("per-row sort, weighted by permutation", CSR + " sort")], ["CSR::endpoints(), weights(), offsets()"], "Random search against std::sort of the row model.")
P("C09", "Removing duplicates keeps each endpoint of a row exactly once",
  "new_csr_without_dups() returns a CSR in which every row holds each endpoint of the original row exactly once in sorted order, with the smallest weight of its duplicates if weighted, with n, nrows and ncols kept and m the number of kept edges; the source keeps all of its entries.",
  ["inputs", "schedules", "configurations"], "Every CSR, including empty, all-duplicate and duplicate-free rows, other types and weighted to unweighted.", SAMPLES + "one small file is deduplicated.", [CSR], [("per-thread unique counts and copy", CSR + " new_csr_without_dups")], ["returned CSR", "source CSR"], "Random search against a model.")
P("C10", "Saving to a PIGO binary file and loading it gives the same object back",
  "For COO, CSR, Graph, DiGraph and Tensor of every type, storage and weight option, loading a file written by save() restores sizes, entries, offsets and weights bit for bit, whatever the file is called, with the type given or detected, with any storage kind on the loading side and any thread counts on both sides. save_size() is the exact size, and several CSRs saved one after another into one open file load back in order.",
  ["inputs", "schedules", "configurations"], "Every object content, type configuration and team size.", SAMPLES + "round trips are tested for a few objects in the default types.", [COO, CSR, GRA, TEN, PIGO], [("save / read_bin_ pairs", "each class"), ("parallel_write / parallel_read block split", PIGO)], ["loaded object"], "Random search, bitwise round trip.")
P("C11", "The binary formats are stable",
  "save() writes exactly the documented layout: the magic string and version, the size bytes of the types, the counts, then the arrays, in native byte order with no padding; files made of those bytes by any other program load to exactly the described object.",
  ["inputs", "configurations"], "Every object content and type configuration, in both directions.", SAMPLES + "a change applied to both writer and reader passes every round-trip test while files already on disk stop loading.", [COO, CSR, GRA, TEN], [("header constants and field order", "save / read_bin_ of each class")], ["bytes of the saved file", "object loaded from crafted bytes"], "Random search, byte-for-byte comparison with an independent encoder.")
P("C12", "Damaged or mismatched binary files are refused, never misread",
  "Loading a binary file that is truncated at any byte, has a wrong magic string or version, type sizes that differ from the object's, or counts larger than the file holds throws a pigo::Error; it never crashes, reads outside of the file or returns an object. A file with extra bytes after the object still loads.",
  ["inputs", "configurations"], "Every truncation point, header byte change and count value.", "The tests load well-formed files only, apart from one or two type mismatches.", [PIGO, COO, CSR, GRA, TEN], [("header checks and File::check_remaining", PIGO)], ["exception type", "address sanitizer"], "Random search over truncations and header mutations under the address sanitizer.")
P("C13", "Text written by write() describes exactly the object",
  "COO::write and Tensor::write produce a text file with exactly one line per entry, in entry order, holding its labels (and weight) in decimal separated by single spaces; reading it back gives the same entries (weights to six decimals for floating point). The number of threads does not change a byte.",
  ["inputs", "schedules", "configurations"], "Every object and team size.", SAMPLES + "the two-pass sizing goes wrong only for particular digit counts and splits.", [COO, TEN, PIGO], [("two-pass size then write", COO + " write, " + TEN + " write")], ["bytes of the written file", "object read back"], "Random search; bytes compared with an independent formatter.")
P("C14", "Numbers are written as their exact decimal form in exactly the announced size",
  "For every value of every integer type write_ascii() writes exactly the decimal form and write_size() is exactly its length; for floating-point values the text is the value to six decimals, of exactly the announced size, and reads back within that precision. The text is the same whatever locale the program has selected.",
  ["inputs"], "Every value of the 8- and 16-bit types, and generated values of the wider types and of float and double.", "Tests try a dozen values; digit-count boundaries and extreme values are not among them.", [PIGO, STB], [("write_ascii / write_size", PIGO), ("stb sprintf", STB)], ["bytes written", "position moved"], "Complete enumeration of 8/16-bit types over the run, random search biased to digit boundaries for the rest.")
P("C15", "A DiGraph or Matrix holds every entry in both directions",
  "Building a DiGraph or a Matrix from a COO or a file gives an out-side (rows) with exactly the entries and an in-side (columns) with exactly the transposed entries, weights included, with matching sizes; the COO it was built from is unchanged.",
  ["inputs", "schedules", "configurations"], "Every COO or text file, including rectangular ones.", SAMPLES + "only square inputs and one side are looked at.", [GRA, GH, MH], [("copy, transpose, convert twice", GH + " from_coo_, " + MH)], ["out(), in(), csr(), csc()"], "Random search against the row model and its transpose.")
P("C16", "Graph accessors enumerate exactly the neighbors of a vertex",
  "For every vertex, degree(), neighbor_start(), neighbor_end() and iterating neighbors() agree with each other and give exactly the endpoints of the vertex; the ranges of all vertices partition the m endpoints. After sort() an edge is found by binary search exactly when it exists, and writing through the iterator changes the stored endpoint where storage is shared.",
  ["inputs", "configurations"], "Every graph and vertex.", SAMPLES + "neighbors of one vertex are listed.", [GRA, GH], [("neighbor_start / neighbor_end / EdgeIt", GH)], ["accessor results"], "Random search against the row model.")
exec((HERE / "tools" / "properties2.py").read_text()) if (HERE / "tools" / "properties2.py").exists() else None

NOT_APPLICABLE = []

def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(HERE / "properties.jsonl", "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k != "level_note"}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in PLAN:
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough", evidence_file=f"evidence/{p['id']}.json",
            technique=PLAN[p["id"]].get("technique", "property-based testing: generated cases against an independent model, shrinking"), level=PLAN[p["id"]].get("level", "exploration"), level_note=p["level_note"]))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=NOT_APPLICABLE,
        notes="Every check compiles the harness with /repo/include in its working tree; no hooks in /repo. MANIFEST.json and properties.jsonl are written by tools/properties.py.")
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "checks")
main()
