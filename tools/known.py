import json
FIX="""C30 4c1404f moving a File lost the read position and released the mapping twice
C25 3c1c4d4 number scanning read bytes beyond the end of the file
C29 60f38de FileReader::at_str did not match a string that fills the rest of the file
C12 ea804e1 truncated or corrupt binary files were read out of bounds
C01 65fb376 the last edge list entry was lost when the file does not end in a newline
C02 475998c weights of removed entries were stored over other entries
C03 4eeace8 symmetric COO had too few rows or columns
C17 84eeca2 transpose() did not swap the number of rows and columns
C07 b796c5a COO built from a CSR had no number of rows and columns
C10 16a3111 a COO reading a CSR file used labels for the offsets
C07 328d0c0 self loops were doubled when symmetrizing from a CSR
C04 1227b52 the Matrix Market entry count was compared with the kept entries
C05 f454446 blank lines and comments shifted rows of GRAPH files
C05 e4894da the last row of a GRAPH file without a final newline was lost
C05 765a1f0 rows of a GRAPH file were not counted from its header
C06 b458700 offsets were not allocated for every row of the COO
C18 7b54efb the last entry of an unweighted tensor file without a final newline was lost
C18 27159da the order of a tensor was wrong with exponents, tabs or carriage returns on the first line
C18 8027512 indexing tensor coordinates overflowed the ordinal type
C20 53c92ad find_offsets missed or invented offsets at the ends
C30 1c8f08a errors creating the output file of an ASCII write ended the program
C14 182fd88 the smallest value of a signed integer was written wrongly
C14 88a8a64 write_ascii wrote a byte beyond a floating point value
C30 3e9e2e9 a failing File constructor leaked its descriptor and mapping
C31 384fce5 freeing an empty or already freed CSR freed twice
C07 0c3c3b5 vector weights dangled while converting a CSR to a COO
C10 56b1aa6 binary tensors with an order and no entries were refused
C12 310f648 a DiGraph file could hold other than binary CSRs
C12 c49f513 a negative vertex count in a binary CSR was accepted
C25 a0baad5 a missing or incomplete weight was read from the next line, leaving uninitialised entries
C05 d9819db endpoints after the last row of the header were counted but in no row
C31 47c3b08 COOs and Tensors made with space for no entries were never released
C31 0144455 the CSR read for a COO that cannot be built from it was leaked
C31 873b3a7 the in-edges of a DiGraph whose out-edges cannot be read were leaked
C25 13db1de writing a tensor of order zero wrote a byte beyond the file's mapping for every entry
C24 03fd19d DiGraph::n(), nrows(), ncols() and Matrix::nrows(), ncols() lost the high bits of counts beyond the ordinal type
C02 e447dba a float weight with a fraction of 39 or more digits was read as infinity
C21 838478e with 8-bit labels or ordinals and 128 or more threads, loops divided by zero or wrote beyond their arrays
C34 e6c159e a CSR with 2^32-1 vertices and 32-bit labels had no offsets: its size plus one wrapped to zero, and building it wrote beyond its arrays
C36 c76d0c9 every thread of a team copied the COO's vectors to make a CSR, so that memory and work grew with the threads"""
import subprocess
fixed=[]
for l in FIX.splitlines():
    p,h,t=l.split(" ",2)
    full=subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
    fixed.append(f"fixed: property={p} {full[:12]} {t}")
known=[dict(property="C05",flavour="asan",replay="K1",what="in a 1-based .graph file n() is the header's vertex count although labels go up to it, so COO/DiGraph built from the CSR, sort(), new_csr_without_dups() and save() lose the row of the last vertex (replay: build/C05/asan/check known K1)")]
json.dump(dict(known=known,fixed=fixed),open("/verif/known_findings.json","w"),indent=1)
