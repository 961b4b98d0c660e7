P("C17", "COO objects are independent values and transposing swaps exactly the ends",
  "A COO made, copied, assigned (also to itself), resized through its setters, transposed or freed has exactly the contents that sequence of operations gives a mathematical list of entries; the copy of a COO never changes when the original does and outlives it. Transposing swaps row and column labels of every entry (weights stay) and the row and column counts, and doing it twice restores the object; changing one object changes no other.",
  ["histories", "inputs", "configurations"], "Every sequence of operations on several COOs of every type configuration and storage.",
  "The tests copy one COO once and compare at once; sharing between objects shows only after a later change, free or assignment.", [COO, CH], [("copy constructor and assignment", CH), ("transpose", COO)], ["COO::x(), y(), w(), m(), n(), nrows(), ncols() of all objects after every step"],
  "Model-based random histories of up to 15 operations over four objects under the address sanitizer.")
P("C18", "Tensor text files are read completely, exactly and in file order",
  "Reading a tensor text file gives the order of the first data line, one entry per data line in file order, with exactly its coordinates and (if weighted) its weight, whatever the comments, blank lines, separators, line endings, trailing blanks or missing final newline and however many threads share the file.",
  ["inputs", "schedules", "configurations"], "Every tensor text of order one to eight, every team size and type configuration.",
  SAMPLES + "only order-three tensors of a few lines are read.", [TEN, PIGO], [("order from the first line, two-pass parallel reader", TEN + " read_el_")], ["Tensor::order(), m(), c(), w()"], "Random search against the list the text was made from.")
P("C19", "Tensors are independent values; their text form and largest labels are exact",
  "Copied, assigned, changed and freed tensors behave as independent mathematical values. max_labels() gives for every coordinate exactly the largest label in it. Writing a tensor as text and reading it back gives the same order, entries and weights.",
  ["histories", "inputs", "schedules", "configurations"], "Every tensor content and history, every team size.",
  SAMPLES + "one tensor is copied and its labels are searched by one team size.", [TEN, TH], [("copy and assignment", TH), ("per-thread maxima merge", TEN + " max_labels"), ("two-pass size then write", TEN + " write")], ["Tensor contents", "bytes written"], "Model-based random histories over three tensors; round trips through text.")
P("C20", "Searching a file for a byte finds every occurrence exactly once, in order",
  "find_offsets() returns the positions of all occurrences of the byte, each once and in increasing order, for every file or memory region, including occurrences at the first and last byte and next to the points where the region is divided between threads, and moves nothing.",
  ["inputs", "schedules"], "Every byte string and byte, every team size and interleaving.",
  SAMPLES + "an occurrence is lost or invented only if it lies on a division point.", [PIGO, H], [("per-thread search and merge", PIGO + " FileReader::find_offsets")], ["returned tensor of offsets"], "Random search against a plain loop.")
P("C21", "The number of threads never changes any result",
  "Whatever the number of threads, from one to more than there are bytes in the file, every reader, writer, converter and preprocessing step gives the result it gives with one thread, byte for byte where an order is promised and as multisets of each row where it is not.",
  ["schedules", "inputs", "configurations"], "Every operation on every input with every pair of team sizes, on the simulated and on the real OpenMP runtime.",
  "The tests run with the machine's thread count only and on inputs smaller than the number of threads' useful work.", [COO, CSR, TEN, GRA, PIGO], [("splitting of file and arrays by thread id", COO + ", " + CSR + ", " + TEN)], ["every object and file produced"], "Differential search: one thread against generated team sizes for complete pipelines, and eight other checks repeated on real threads.")
P("C22", "The interleaving of the threads never changes any result",
  "With the same input and the same number of threads, every operation gives the same result under every interleaving of its threads: no read, write, count, offset or maximum depends on which thread is faster.",
  ["schedules", "inputs", "configurations"], "Every interleaving at the granularity of single memory accesses, for every operation and input.",
  "A test runs one interleaving, chosen by the machine, and on a small file almost always the same one.", [COO, CSR, TEN, GRA, PIGO], [("barriers, singles, atomics and per-thread arrays of the parallel regions", COO + ", " + CSR + ", " + TEN)], ["every object and file produced"],
  "Differential search with seeded preemption at memory accesses (sequentially consistent; no weak-memory effects), same-team comparison, and thirteen other checks repeated with preemption.")
P("C23", "Built without OpenMP the library gives the same results",
  "Compiled without OpenMP, every guarantee of reading, converting, writing, saving, sorting, searching and value semantics holds unchanged.",
  ["configurations", "inputs"], "Every input of the other properties, in the sequential build.",
  "The project's tests are built with OpenMP only, so the code under the other branch of the preprocessor is never run.", [COO, CSR, TEN, PIGO], [("#ifdef _OPENMP branches", COO + ", " + CSR + ", " + TEN + ", " + PIGO)], ["every object and file produced"], "The searches of eighteen other checks against the same models, with the library built sequentially.")
P("C24", "Types, storage kinds and aliases do not change what is read",
  "Reading the same file with any label, ordinal and weight type that can hold its values, with raw, vector or shared storage, gives the same values, sizes and results of every operation. The documented aliases (Graph, WGraph, DiGraph, Matrix, SymMatrix and their like) are the types they are documented as.",
  ["configurations", "inputs"], "Every file whose values fit, every pair of configurations, every alias.",
  "The tests instantiate a few combinations and never compare one with another.", [COO, CSR, GRA, TEN, H, CH, CSH, GH, MH, TH], [("storage abstraction get_value_/set_value_/allocate_mem_", PIGO), ("aliases", H + ", " + GH + ", " + MH)], ["every object and file produced"], "Differential search between seven configurations and 64-bit vectors.")
P("C25", "Arbitrary text never crashes, hangs or corrupts memory",
  "Reading any bytes whatever as an edge list, Matrix Market file, adjacency file or tensor ends, and either throws a pigo::Error or gives an object all of whose arrays are initialised and consistent with its sizes; nothing outside of the file and of the object's own arrays is read or written. A refused file leaves the program usable.",
  ["inputs", "schedules", "configurations"], "Every byte string up to a few hundred bytes, every team size.",
  "The tests contain no damaged text file, and an overread of one byte is invisible without a sanitizer.", [COO, CSR, TEN, PIGO], [("bounds of the scanner", PIGO + " FileReader"), ("count pass and write pass agree on every line", COO + ", " + TEN + " read_coord_entry_"), ("header contradictions", CSR + " read_graph_, " + COO + " read_mm_")], ["exception type", "address sanitizer", "consistency of the object", "time"],
  "Random damage to valid texts and strings of format fragments under the address sanitizer, files ending at a page boundary included.")
P("C26", "An open file behaves as an array of bytes with one position",
  "An open file reads, writes, seeks, tells and checks for room exactly as an array of bytes with a position: every typed, string and region read returns the bytes there and moves by their number, writes change exactly those bytes, parallel reads and writes equal plain ones, and what is beyond the end is refused with a pigo::Error instead of being read. Moving a file object moves the position with it.",
  ["histories", "inputs", "schedules"], "Every sequence of operations on files of every size, and every team size for the region operations.",
  "The tests read one or two values from a fixed file; they have no history of mixed operations.", [PIGO, H], [("file_pos_ and mapping", PIGO + " File"), ("parallel block split", PIGO + " parallel_read_ / parallel_write_")], ["values read", "bytes of the file", "position"], "Model-based random histories of up to 25 operations.")
P("C27", "The type of a file is recognised from its name and its content",
  "A file with a known extension, or one of PIGO's own binary headers under any name, is read as what it is when no type is given, giving the same object as with the type given and as from an open file at that position. Content of a type that the object cannot be read from, or of another version, is refused with a pigo::Error and nothing is returned.",
  ["inputs", "configurations"], "Every kind of content under every kind of name, for every object kind.",
  "The tests detect a few fixed names; extensions inside directories, doubled or in upper case, and content contradicting the name are not met.", [PIGO, H, COO, CSR, TEN, GRA], [("guess_file_type", PIGO), ("dispatch on FileType", "read_ of each class")], ["object read", "exception type"], "Random search over content, names, given types and positions.")
P("C28", "Saving leaves exactly the object's bytes and touches nothing else",
  "After save() or write(), the named file holds exactly the bytes of the object, whatever it held before (longer, shorter, empty, missing, the object's own source); no other file is created or changed and the object stays as it was. A CSR saved into part of an open file changes exactly that part; changing an object read from a file never changes the file.",
  ["inputs", "configurations", "histories"], "Every object content, previous file content and directory.",
  "The tests write to fresh temporary names; stale bytes after the end of a shorter file are never seen.", [PIGO, COO, CSR, GRA, TEN], [("create and size the output", PIGO + " WFile"), ("private mapping for reading", PIGO + " ROFile")], ["bytes of every file in the directory", "object contents"], "Random search; the directory is compared byte for byte after each operation.")
P("C29", "The text scanner moves and reads exactly as documented",
  "Each operation of the text scanner (move to the next integer, signed integer, non-integer, floating-point number, end of line; read an integer, sign or floating-point number; peek; count; compare with a string) moves exactly to the documented place, never past the end, and returns the documented value. Reading all integers of a text with it yields exactly the integers in it.",
  ["inputs", "histories"], "Every byte string and sequence of scanner operations.",
  "The tests call some scanner operations once on one short string; places next to the end of the text matter.", [PIGO, H], [("FileReader", PIGO)], ["position and values after every operation"], "Model-based random search (about a million strings in the quick run) with the text at the end of a page.")
P("C30", "Failures of the operating system are reported and leave nothing open",
  "When opening, sizing, mapping or creating a file fails, the operation throws a pigo::Error (never ends the program, never returns a wrong or partial object), leaves no file descriptor or mapping behind, and can be retried successfully once the cause is gone. Reading needs no more than permission to read. A call that succeeds is never taken for a failure, whichever descriptor it returns. Opened, moved and closed files release each descriptor and mapping exactly once.",
  ["fault_sequences", "inputs", "histories"], "Every operation with every one or two of its system calls failing, and real refusals (missing directory, full device, limits).",
  "The tests have no way to make a system call fail, and do not look at descriptors or mappings.", [PIGO, COO, CSR, GRA, TEN], [("FilePosix open, fstat, ftruncate, mmap", PIGO), ("WFile create", PIGO)], ["exception type", "objects", "/proc/self/fd and maps"], "Fault injection by generated call number through wrapped system calls, plus real refusals.")
P("C31", "Freeing returns all memory, and what fails to be made keeps none",
  "Any history of reading, making, copying, assigning, converting, sorting, saving and freeing objects that frees every object in the end leaves the heap as it was; freeing twice, or freeing an empty object, does nothing. A constructor that throws leaves nothing allocated. Objects in vector or shared storage need no freeing.",
  ["histories", "inputs", "configurations", "fault_sequences"], "Every history over the objects of every kind, storage and weight option; every refused file.",
  "The tests free what they make, but nothing measures the heap, and they never look after a failed constructor.", [COO, CSR, TEN, GRA, PIGO, CH, CSH, TH, MH], [("free() of each class", CH + ", " + CSH + ", " + TH), ("free before throw", COO + " read_mm_, " + CSR + " read_graph_, " + GRA + " read_")], ["bytes on the heap before and after", "address sanitizer"], "Random histories over a dozen objects, each run twice and the heap size compared.")
REL, GEN = "release/pigo.hpp", "generate_release.py"
P("C32", "Chains of operations keep exactly the entries they promise to keep",
  "Starting from any file, any chain of the library's operations (reading with options, converting between COO, CSR, Graph, DiGraph, Matrix, transposing, copying, sorting, removing duplicates, saving and loading, writing and reading text) leaves after every step exactly the entries the composition of the documented effects gives. The example programs of the documentation do what their text says for every input.",
  ["histories", "inputs", "schedules", "configurations"], "Every chain of operations on every file, type configuration and team size.",
  "The tests perform one operation on one file; effects of one operation that matter to the next only (sizes, stale members, shared storage) are not seen.", [COO, CSR, GRA, GH, MH, "docs/examples/clean_graph.cpp", "docs/examples/find_edge.cpp", "docs/examples/symmetrize.cpp"], [("conversions between the classes", COO + " convert_csr_, " + CSR + " convert_coo_, " + GH + " from_coo_")], ["contents and sizes of the object after every step", "output of the example programs"],
  "Model-based random chains of up to 13 operations with a list of entries as the model.")
P("C33", "The released single header does what the modular headers do",
  "Using release/pigo.hpp, as committed or freshly made by generate_release.py, instead of include/pigo.hpp changes no result, for good files and damaged ones alike. Both compile on their own, and can be included in many source files of one program.",
  ["inputs", "configurations"], "Every operation of the library on every input.",
  "The tests are built with the modular headers only; the single header, which is what the README tells users to copy, is never compiled by them.", [REL, GEN, H], [("inlining of the included files", GEN)], ["results of every operation", "linking of several source files"],
  "Differential search: one program holds the modular and both single headers under different names.")
P("C35", "Independent uses of the library at the same time do not disturb each other",
  "Several threads of a program (std::thread, or the threads of a parallel region), each with objects and files of their own, or reading from the same unchanging object or file, get exactly the results they would get alone.",
  ["schedules", "inputs", "histories"], "Every set of operations running at the same time, on every input.",
  "The tests use the library from one thread at a time; a hidden shared buffer, position or thread-id mistake is invisible there.", [PIGO, COO, CSR, TEN], [("no static state; thread ids from the innermost team", COO + ", " + CSR + ", " + TEN)], ["results of every operation"],
  "Differential search on real threads (not replayable to the interleaving, each case is run three times).")
P("C36", "Work and memory grow with the input, not the team, and the team shares the work",
  "The memory accesses an operation makes, and the memory it has allocated at its peak, grow in proportion to the size of its input: to the entries (and labels, where there is an array per label), not to their square nor to the value of labels where nothing is kept per label. A team of any size makes about as many accesses and takes about as much memory as one thread, and shares the work: the longest path through the team's work is about the work divided by the size of the team, as far as rows are handed out one by one (sorting, removing duplicates and COOs of CSRs hand out ten thousand at a time) and lines of text are much shorter than a thread's share, initialising a vector apart.",
  ["inputs", "schedules", "configurations"], "Reading and writing text, loading and saving, converting, copying, transposing, sorting and removing duplicates of every size, by every team.",
  "The tests look at results for files of a few lines; an operation that has become quadratic, is done by one thread, or is done by every thread of the team in full gives the same results.", [PIGO, COO, CSR, TEN, GRA], [("division of files by bytes", COO + " read_el_, " + CSR + " read_graph_, " + TEN + " read_"), ("work sharing of conversions", CSR + " convert_coo_, " + COO + " convert_csr_"), ("parallel copies", PIGO + " parallel_read, parallel_write")], ["memory accesses, in all and along the longest path", "bytes allocated at the peak"],
  "Metamorphic search: the same operation on n and 4n entries, by one thread and by a team, and on labels far apart, with the accesses of the instrumented code counted.")
P("C34", "Nothing changes beyond 4 GiB of file or 2^32 entries",
  "Files of more than 4 GiB and objects of more than 2^32 entries (with an ordinal type that holds the count) behave as small ones: positions, sizes and room in the file are exact; region reads and writes move every byte; searching finds every occurrence; text is read whole wherever its entries stand, and written and read back; binary CSRs, COOs, Graphs and tensors are saved, loaded and converted without losing or moving an entry. So do CSRs and Graphs whose labels go up to the largest that 32 bits can count.",
  ["inputs", "configurations"], "Every file size and count that the types hold.",
  "The tests use files of a few lines; nothing that is truncated to 32 bits, or multiplied before it is widened, can show there.", [PIGO, COO, CSR, TEN, GRA], [("sizes and positions in size_t", PIGO + " File, FileReader"), ("block bounds of parallel regions", COO + ", " + CSR + ", " + TEN)], ["bytes of the file", "every entry of the object", "positions"],
  "Generated large cases, one of every kind in the quick run: sparse files, texts with a comment of 4 GiB, and objects whose contents are functions of the position.")
