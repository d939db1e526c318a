#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# which property's check reported it, and what failed where the commit's title does not say so
P = """
851ae6f C01 -0.0 came back as 0.0 from ALP
770f52d C01 -0.0 and 0.0 in one run came back alike from run-end encoding
b22f9c7 C03 slicing a run-end array to an empty range panicked
2c0be5e C03 run-end-bool lost nulls, and slices of slices were off
0319ad4 C01 sparse arrays with nulls or a non-null fill value lost nullness
c3fb900 C05 sliced and encoded masks selected other rows
7c454c3 C01 binary VarBin was canonicalized to utf8; taking from views lost nullability
89d68d3 C11 empty views, nullability of views built from an iterator
ecc69ae C01 delta lost nulls and corrupted signed integers
689eb16 C01 DateTimeParts took arrays that are no timestamps
7d6935d C01 roaring encodings took nullable and signed values and lost them; empty slices
397c1b1 C01 FSST failed on empty strings and compared wrongly with null
69c2722 C06 ALP compared wrongly beside patches, nulls and values it cannot encode
1ab02dd C01 decoded ALP-RD values lost nullability
8bd069e C04 take on byte-bool changed the type and refused encoded indices
ee4e94f C14 chunked arrays without chunks panicked
ea5537a C12 casts of encoded arrays were refused
607efa7 C06 comparing empty arrays failed; comparing with null gave values
da6aa95 C09 statistics of dictionaries counted values rather than elements
e0d77a8 C08 searching bit-packed arrays beyond the patches or the type was wrong
45e309e C08 searching sparse arrays without indices or with a fill value was wrong
fad0dc3 C23 time zones and offsets of empty strings were lost on the way from and to Arrow
4ab6923 C06 comparing FSST with null gave another type
387075c C06 comparing with a null constant gave values
70f531a C23 the time zone of timestamps exported to Arrow was lost
2ac14ef C06 comparing NaN and signed zeros depended on the encoding
60b56ca C27 computing statistics deadlocked on the lock held meanwhile
dccfb2f C09 statistics of roaring booleans that end with false
0b7303e C08 searching FoR arrays for values far above the reference overflowed
3118a94 C08 searching for an unsigned integer in arrays of another type was wrong
13d5a6c C06 comparing VarBin with 64-bit offsets with a constant failed
9d0bda0 C07 and/or, comparison and search with constants as either operand failed
62d7df8 C06 comparing encoded extension arrays with constants failed
f3e7255 C09 statistics of arrays of nulls only were wrong
61dfa4d C10 merging statistics kept what only one part knew
41804e9 C09 minimum of nullable booleans; signed zeros counted as constant
f2a7f4e C09 statistics of empty arrays were made up
e05be58 C23 exporting unaligned views to Arrow panicked
176e7a2 C12 casts looked at what is stored beneath nulls
983ffd4 C12 subtract_scalar dropped nullability and overflowed silently
a150ee2 C02 nullable constants lost nullability; element access to nulls
bdd68b7 C02 element access to f16 arrays failed
b95dca4 C09 true_count counted nulls
b303b6e C11 the storage of extension arrays without chunks panicked
998470f C02 ALP element access ignored patches
d56e45a C14 chunked extension arrays in mixed encodings could not be decoded
24054ad C15 constants changed type when written and read
8852440 C15 the validity of structs was lost when written again after reading
9809233 C23 empty buffers exported unaligned to Arrow
8e75514 C15 arrays read from unaligned memory panicked
b17bfbb C17 files written without batches could not be read
ba71db2 C17 the validity of nullable tables became a column
b3fdf2b C18 reading no columns of a file never ended
bebdc56 C17 reading a file with batches of no rows in it lost every row
80efc4a C17 chunks beyond the first 65536 of a column were read as others
d87f62b C18 batches were read with another batch's filter after one without matches
38eb2c0 C18 filters with an unknown number of matches selected nothing
48086f3 C18 filters referring to columns by index read other columns
0ea85c8 C21 opening files with large footers or bad offsets panicked
15c0254 C21 tables without columns were written with a shorter postscript
aed1c07 C23 structs without fields lost their length on the way to Arrow
7139d73 C23 converting null rows to a record batch panicked
3df75db C24 projecting by an index out of range panicked
13a28bd C19 rows taken from a stream depended on the type of the indices
dc07088 C19 taking repeated rows of a chunked reader panicked
943fb61 C17 tables with null rows could not be written again
1746093 C21 streams without messages or cut within one were taken as complete
98c619a C18 indices of rows to read from a file were ignored
b74733e C20 reading a file went on out of step after an error
d0c359a C19 sorted row indices in some encodings were refused
56c356d C20 failures of buffered writes were lost
9b3ed1d C20 streaming a chunked reader panicked on I/O errors
1f93f1c C20 short reads from object stores panicked
1796ac3 C20 reading a stream went on in the middle of a message after an error
028b687 C22 constant null arrays could not be canonicalized
c9bbc30 C22 decoding timestamps overflowed on what was stored for nulls
3f4ced9 C22 reusing an ALP-RD choice for another width corrupted floats
e7b0674 C22 reusing the choice made for a struct with other fields panicked
989a09c C23 Arrow structs with null rows over non-nullable fields panicked
52d101c C24 projecting a struct type by the index one past its fields panicked
fdf0921 C25 casting a null primitive scalar panicked
287e221 C25 casting list and extension scalars panicked
ea8bfa6 C25 equality of scalars disagreed with their order for zeros and NaN
d9ad7b5 C25 narrow integer scalars were not recovered from protobuf
b06c2f2 C06 comparing timestamps lost the time zone of the scalar
18924cd C29 empty slices outside a bytes-backed buffer were accepted
88d23c4 C29 I/O windows outside their buffer were accepted
d49254e C29 a buffer became a vector without its last bytes
45cb04f C26 comparing the identity expression with another never returned
99562df C26 column expressions over tables that are not struct-encoded failed
0dec3ab C28 a null literal lost its type on its way into a filter
c4f0b24 C28 rows where a pushed-down filter is null were selected by stray value bits
f81867b C28 and/or over nulls were pushed down though they mean another thing there
c225639 C22 compressing a slice of a sparse array moved its values
1753e70 C32 the size of bit-packed arrays left out their validity
29d28e9 C04 taking many elements per block of a bit-packed array lost or misplaced exceptions
3b75a9e C06 FSST-compressed strings compared with a constant by codes of a renumbered symbol table
9880d33 C33 truncated temporal metadata made readers panic instead of refusing it
91c008a C33 timestamp arrays counting days were accepted though documented to be refused
093d9de C13 a batch iterator reported elements rather than batches as its exact length
3398009 C28 a record batch stream's size hint ignored the batches already returned
f77e4fa C11 a validity array that is empty or does not compute its true count was not accepted as one
775b2d4 C34 != on a Python expression gave False, and a bool literal was taken for an integer
42dfee0 C34 chunked arrays with nulls and sliced struct arrays panicked, and an array without chunks was refused
6cd3fab C34 taking out of bounds through Python panicked, did not end, or gave elements
4b2215f C34 a dataset's head failed past its end, take failed with a filter, and a scanner had no schema
c251973 C34 negating a pyarrow filter became False
"""
have = {}
for l in P.strip().splitlines():
    h, p, w = l.split(" ", 2)
    have[h] = (p, w)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or "formatting" in s:
        continue
    if h not in have:
        print("no entry for", l)
        continue
    p, w = have[h]
    out.append(f"fixed: property={p} {h} {w}")
k = json.load(open(f"{V}/known_findings.json"))
k["fixed"] = out
json.dump(k, open(f"{V}/known_findings.json", "w"), indent=1)
print(len(out))
