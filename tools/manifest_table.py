X="stateless bounded-exhaustive exploration of the real code over a choice tree, "
T["C04"]=("exploration",X+"all header combinations against an independent version table","all pairs of format API and file type, version numbers in a grid, all single and double magic corruptions; bodies are representative")
T["C09"]=("exploration",X+"all symbols and codes of every enumeration in every place it is used","codes 0..4096 plus boundary codes; the independent code table is trusted")
T["C10"]=("exploration",X+"every value tree within k deviations converted to JSON text and back","value trees within the deviation bound; finite floats, UTF-8 strings")
T["C26"]=("exploration",X+"all byte strings over a boundary alphabet, all lengths and alignments, all construction routes","strings up to 4 symbols over the alphabet, lengths 0..64 and page-size boundaries")
T["C05"]=("exploration",X+"all truncations, insertions, removals, byte and word corruptions and all pairs of corrupted fields of every format, and all short files over a word alphabet","mutations of one representative file per format version and union variant; memory allowance 256 MiB + 64 bytes per input byte")
T["C06"]=("exploration",X+"all truncations, insertions, removals, byte and word corruptions and all pairs of corrupted words of files of every data type","mutations of one representative file per data type, version and track kind; memory allowance 256 MiB + 64 bytes per input byte")
T["C07"]=("exploration","exhaustive fault injection into the real reader: every failing call, every single and pair of short or interrupted reads, every chunk size 1..40","one representative file per format version, union variant and data type; the injected reader honours std::io contracts")
T["C08"]=("exploration","exhaustive fault injection into the real writer: every failing call, every capacity, every single and pair of short or interrupted writes, every chunk size 1..40","one representative value per format version, union variant and data type; the injected writer honours std::io contracts")
T["C24"]=("exploration","exhaustive exploration of saves: every kind of writable and unwritable value x every state of the target path x one or two saves in sequence","kinds of unwritable values as listed; no crash of the process during the save")
T["C22"]=("exploration",X+"all shapes and small values of extended mesh files, raw and high-level, against an independent encoder","raw values within the deviation bound, group and entry counts up to the bound, names from a palette; the reference encoder is trusted")
T["C23"]=("exploration",X+"all triangle lists up to the bound x all coincidences of positions against an independent adjacency computation, and all small adjacency files against an independent encoder","positions are not NaN, indices at most 32767, lists up to three (thorough: more) triangles plus chosen large meshes")
T["C12"]=("exploration",X+"all tracks within the bound created, written and read back","track kinds x frame counts x value patterns per component within the deviation bound, all boolean sequences up to the bound, all lists and shapes of up to three tracks; finite values, unit rotations")
T["C13"]=("exploration",X+"all tracks within the bound, decoded from the written bytes by an independent decoder, and all version and final-frame combinations","as C12; the independent decoder of the track buffer is trusted")
T["C29"]=("exploration",X+"all hand-encoded track encodings within the bound against an independent decoder","flags, bit counts, ranges, stored-number patterns and placements within the deviation bound; the independent encoder and decoder are trusted")
T["C14"]=("exploration",X+"all meshes within the bound written, read back and written again; all half floats, byte codes and midpoints","lists, component types, counts, index patterns and special values within the deviation bound; finite values")
T["C15"]=("exploration",X+"all meshes within the bound, their raw layout checked and decoded by an independent decoder","as C14, plus all sequences of up to three object shapes and index counts around 65536; the independent decoder is trusted")
T["C16"]=("exploration",X+"all meshes with up to two (three) edits at any position against an independent predicate of the defects present","three objects with two lists per usage, up to two (three) edits; all pairs of names, subindices, list lengths and versions in small palettes")
T["C17"]=("exploration",X+"all assignments of influences to up to three objects in all orders, and all bipartite assignments of bones to vertices","bones, vertices and names within the palettes; the raw group view is trusted")
T["C18"]=("exploration",X+"all multisets of grid points x scalings x distributions over objects","up to four (six) points of a grid of twelve, eleven scalings, up to three objects; containment up to float rounding")
T["C28"]=("exploration",X+"all matrices and vectors within the deviation bound and all triangle lists up to the bound against double precision computations","up to three (four) changed entries; up to three triangles over four vertices; indices in range")
T["C30"]=("exploration",X+"all hand-assembled vertex, index and weight layouts within the bound against an independent decoder","placements within the deviation bound; all half floats and byte codes; the independent decoder is trusted")
T["C19"]=("exploration",X+"all parent assignments of up to five (six) bones, all chain lengths and cycle positions, all assignments of transforms to short chains, against products and inverses in double precision","invertible transforms from a palette of six; long chains up to 70 (300) bones; comparison up to single precision rounding")
T["C20"]=("exploration",X+"all attribute kinds, identifiers, states, counts and orders of material files against an independent mapping, written and read","values within the deviation bound, up to five (six) attributes in any order of kinds, all enumerated combinations of a sampler and of each half of a blend state; finite floats, UTF-8 strings")
T["C21"]=("exploration",X+"all model lists and helper-bone values within k deviations against an independent field-by-field mapping, written and read","two (three) deviations from a default value, all shapes in small palettes; finite floats, UTF-8 strings")
T["C11"]=("exploration",X+"every value tree of every data type within k deviations converted to JSON text and back, and every field removed from the text","value trees within the deviation bound; finite floats, UTF-8 strings")
T["C25"]=("exploration",X+"all values within k deviations of 701 generated types covering the product of all attributes, shapes and field kinds, against a model of the declared layout","values within four (six) deviations, start positions and data pointers from a palette; align_after with pointers only as the last thing in a type; the generated models are trusted")
T["C27"]=("exploration","bounded-exhaustive exploration of runs of the real converter programs: all file values within k deviations x names x states of the output, all truncations and single edits of texts","values within one (two) deviations, names and states from a palette; the library in the check's process is the reference for the converted value")
T["C31"]=("exploration",X+"all hand-placed shader binaries within the bound against the entries they were built from","entry values within two (three) deviations, up to two (three) entries per table in any placement and order; the encoder is trusted")
T["C32"]=("exploration",X+"every data value and raw file within k deviations taken through every public route, pairwise compared","values within one to three deviations per type; scratch files for the path routes")
T["C33"]=("exploration","bounded-exhaustive exploration of histories of the real code: every value within k deviations through four load and save cycles","values within the deviation bound, all animations of C12 and encodings of C29; four cycles")
T["C34"]=("exploration",X+"all placements of boundary values in every component and all collection lengths through every constructor and conversion","boundary values per component and lengths up to the bound; the component names are the reference")
T["C35"]=("exploration","bounded-exhaustive exploration of stream histories of the real reader and writer: all values within k deviations x positions x earlier contents, all sequences of files in one stream","values within two (three) deviations, eight positions, seven lengths of earlier contents, sequences of three (four) files")
T["C36"]=("exploration","bounded-exhaustive exploration of runs of the real test program: all file types x states x places, all pairs, all together","thirteen states of one file per type and version; the library in the check's process is the reference for what a file is read and written as")
T["C37"]=("exploration",X+"all small values and files with known defects, and all failing stream operations, against an independent list of the defects","palettes of versions, indices, sizes and offsets; up to two (thorough: three) deviations; where there are several defects any may be reported")
T["C38"]=("exploration","bounded-exhaustive exploration of histories of operations of the real code, each history in a process of its own: all sequences up to the bound, and all schedules of two operations with one preemption (two for small ones) at the calls of their streams under a controlled scheduler, against the outcome of each operation alone","102 operations (values of every type in three variants, long lists and failing ones among them); sequences of two, of three from a smaller set (thorough: three, four); two threads of one operation each, or one nested in the other, with changes only at the calls of streams; hash seeds vary between processes and repetitions but are not enumerated")
T["C39"]=("exploration","bounded-exhaustive exploration of configurations of the real library: one program per combination of features, every enumerated file through each, compared with the plain library","all twelve combinations (both crates with the same features); files within one deviation and single byte changes of samples; generated values from byte strings with one deviation")
NA={}
