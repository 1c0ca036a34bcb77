#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="ssbh_lib/src/"; D="ssbh_data/src/"
ALLF=[L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"enums.rs",L+"formats/*.rs","ssbh_write/src/lib.rs","ssbh_write_derive/src/lib.rs"]
SAMPLES="The unit tests use a few hand-written byte strings and small values per type; "
p("C01","Every SSBH value survives being written and read back",
 "Writing any value of any supported SSBH format and version and reading the produced file back gives an equal value: same version, same strings (including the difference between null and empty), same numbers bit for bit, same array contents and lengths, same pointer targets and union variants. Writing the value that was read back produces the same bytes again, and writing one value twice produces the same bytes.",
 ["inputs","configurations"],"all values of the 14 format versions (Hlpb, Matl 1.5/1.6, Modl, Mesh 1.8/1.9/1.10, Skel, Anim 1.2/2.0/2.1, Nlst, Nrpd, Nufx 1.0/1.1, Shdr), including empty, null, extreme and long contents",
 SAMPLES+"whole-file round trips depend on the joint shape of nested arrays, strings and pointers, for which no test exists except one manual program over proprietary game dumps.",
 ALLF,[("relative pointer and array reading/writing",L+"lib.rs, "+L+"arrays.rs"),("derived writers and sizes","ssbh_write_derive/src/lib.rs"),("string null/empty handling",L+"strings.rs")],
 ["SsbhFile::read / SsbhFile::write and the per-format read/write"])
p("C02","Written files follow the documented offset and alignment rules exactly",
 "A written SSBH file consists of the fixed header, the format magic, the version and the fields in declaration order, and every pointer, string and array is placed by the documented rules: offsets are relative to the position of the offset, point past the containing data, are the smallest value satisfying the pointed-to type's alignment in depth-first field order, empty arrays and null values have offset zero, empty strings occupy as many zero bytes as their alignment, and paddings are zero. Pointed-to data never overlaps.",
 ["inputs","configurations"],"all values of all formats and versions",
 SAMPLES+"the position of every block depends on the sizes of everything before it; wrong sizes or alignments only show for particular combinations of lengths.",
 ALLF+["ssbh_offsets.md"],[("data pointer bumping before each struct and pointer","ssbh_write_derive/src/lib.rs, ssbh_write/src/lib.rs"),("offset computation and rounding",L+"lib.rs, "+L+"arrays.rs"),("pad_after / align_after / alignment attributes",L+"formats/*.rs")],
 ["bytes given to the writer"],[("data_ptr","end of the space already handed out to pointed-to data")])
p("C03","Any well-formed placement of the pointed-to data is read as the same value",
 "Reading takes every field, pointer, string and array from the file position the format assigns to it, no matter where pointed-to data is placed: extra gaps, a different order of blocks, unaligned blocks, or one string shared by several pointers give the same value, and non-zero padding bytes are ignored. Writing the value read from such a file produces the canonical file for that value.",
 ["inputs","programs"],"all values of all formats, combined with all placements of their blocks that use non-negative relative offsets",
 SAMPLES+"files from other tools with other placements never occur in the tests.",
 ALLF,[("save position, seek to offset, read, restore position",L+"lib.rs (RelPtr64), "+L+"arrays.rs (read_ssbh_array), "+L+"enums.rs"),("padding skipped after the last field",L+"formats/*.rs")])
p("C04","A file is accepted only as the type and version it declares",
 "Reading dispatches on the file magic, the format magic and the version numbers: each supported combination is read as exactly that format and version, every other magic or version is rejected with an error, and reading a file through another format's API reports a type mismatch. A written file always declares the version of the value it contains.",
 ["inputs","configurations"],"all pairs of format API and file type, all version numbers, all single and double corruptions of the magics",
 "The tests check a handful of correct headers; the quantifier is over all version pairs and all format pairs.",
 [L+"lib.rs",L+"formats/*.rs"],[("magic attributes and version pre-assertions",L+"lib.rs (SsbhFile, Ssbh, Versioned), "+L+"formats/*.rs"),("per-type wrapper with type check",L+"lib.rs (ssbh_read_write_impl)"),("version numbers on write",L+"formats/*.rs (major_minor_version)")])
p("C05","Malformed files never crash, hang or exhaust memory in the file reader",
 "For every byte string, reading it as any file type of the low-level library returns either a value or an error: it does not panic, overflow, loop forever, or allocate memory for counts and sizes that the data present cannot back (beyond a fixed allowance). Whatever value is accepted can be written again without a panic, and reading that rewritten file yields the same value.",
 ["inputs"],"all byte strings; explored: all truncations, all single-byte and single-word corruptions and all pairs of corrupted offset/count/tag fields of representative files of every format, and all short files over a small alphabet of words",
 "A few fuzz regressions are pinned as unit tests; the quantifier is over all corruptions of all fields.",
 ALLF,[("checked offset addition",L+"lib.rs (absolute_offset_checked)"),("initial capacity limits",L+"arrays.rs"),("errors instead of panics on bad tags and counts",L+"formats/*.rs")])
p("C06","Malformed files never crash, hang or exhaust memory in the data layer",
 "For every byte string, reading it into any of the high-level data types returns either a value or an error: it does not panic, overflow, loop forever, or allocate memory for counts and sizes that the data present cannot back (beyond a fixed allowance), even when the file is structurally valid but its offsets, counts, strides, sizes, types, indices or compressed track headers are inconsistent.",
 ["inputs"],"all byte strings; explored: all single-word corruptions and all pairs of corrupted scalar fields of representative files of each data type, and all corruptions and truncations of the embedded vertex, index, weight, track and shader buffers",
 "The tests cover a few inconsistent headers per type; the quantifier is over every field of every structure in every file.",
 [D+"anim_data.rs",D+"anim_data/*.rs",D+"mesh_data.rs",D+"mesh_data/*.rs",D+"skel_data.rs",D+"matl_data.rs",D+"modl_data.rs",D+"hlpb_data.rs",D+"adj_data.rs",D+"meshex_data.rs",D+"shdr_data.rs"],
 [("range checks before slicing buffers",D+"anim_data.rs, "+D+"mesh_data/mesh_attributes.rs"),("error enums for invalid data",D+"*/error.rs")])
p("C07","Read faults surface as errors and short reads change nothing",
 "When the underlying reader starts to fail at any point while data is still needed, reading returns an error and no value; a failure that goes away again gives an error or the undisturbed value, never a different one. When the reader delivers data in arbitrarily small pieces or is interrupted, the result is exactly the same as for an undisturbed read.",
 ["fault_sequences","inputs"],"all positions of one injected failure in the sequence of read and seek calls, all uniform short-read sizes and single short reads, for representative files of every format",
 "No test injects an I/O fault; the quantifier is over every call of the read path.",
 [L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"enums.rs",D+"lib.rs"],[("error propagation",L+"lib.rs, "+L+"arrays.rs"),("length check after reading a byte buffer",L+"arrays.rs (read_buffer)")])
p("C08","Write faults surface as errors and partial writes change nothing",
 "When the underlying writer starts to fail or runs out of space at any point, writing returns an error; a failure that goes away again gives an error or the complete output, never success with incomplete output. When it accepts data in arbitrarily small pieces or is interrupted, the resulting bytes are exactly the same as for an uninterrupted write.",
 ["fault_sequences","inputs"],"all positions of one injected failure in the sequence of write and seek calls, all uniform short-write sizes and single short writes, for representative values of every format",
 "No test injects an I/O fault; the quantifier is over every call of the write path.",
 [L+"lib.rs",L+"arrays.rs",L+"strings.rs","ssbh_write/src/lib.rs","ssbh_write_derive/src/lib.rs",L+"formats/meshex.rs",L+"formats/adj.rs"],[("error propagation and complete writes","ssbh_write/src/lib.rs, ssbh_write_derive/src/lib.rs, "+L+"lib.rs")])
p("C09","Enumerated codes and flags map one to one between file and value",
 "Every enumerated field accepts exactly the numeric codes its format defines and maps each to its own symbol, in both directions and in every place where the enumeration is used; every other code is rejected with an error. Every union tag selects exactly its own payload type, and every flag bit is preserved independently. The public views of an enumeration (its numeric representation, its text name in both directions, and the list of its symbols) describe the same set of symbols and codes.",
 ["inputs"],"all symbols of all enumerations, all union variants, all flag combinations, and all codes in 0..4096 (all 256 for one-byte codes) plus boundary codes",
 "The tests touch a few symbols; there are over 400, and the rejected codes are unbounded.",
 [L+"formats/*.rs",L+"enums.rs"],[("repr attributes of the reader and the writer",L+"formats/*.rs"),("ssbh_enum! tag mapping",L+"enums.rs"),("bitfield byte conversion",L+"formats/anim.rs, "+L+"formats/meshex.rs")])
p("C10","JSON text of a raw file converts back to the same file",
 "Converting any file of any format to JSON text and parsing that text back gives an equal value, and writing it gives the same bytes as writing the original value, for all representable contents: finite numbers keep their exact value, null stays distinct from empty, and byte buffers are preserved. Text that is not a valid value is rejected with an error instead of being misread.",
 ["inputs"],"all values of all formats whose floats are finite and whose strings are valid UTF-8 text",
 "There is no JSON round trip test of complete files; the quantifier is over all field values.",
 [L+"lib.rs",L+"strings.rs",L+"arrays.rs",L+"enums.rs",L+"formats/*.rs"],[("serde derives and transparent wrappers",L+"lib.rs, "+L+"formats/*.rs"),("hex byte buffers",L+"arrays.rs"),("string (de)serialization",L+"strings.rs")])
p("C11","JSON text of high-level data converts back to the same data",
 "Converting any high-level data value (anim, mesh, skel, matl, modl, hlpb, meshex, adj) to JSON text and parsing it back gives an equal value, with every field carried over under its own name and finite numbers exact. A file produced from the parsed value equals the file produced from the original value.",
 ["inputs"],"all data values within the stated bound whose floats are finite",
 "No test round-trips the data types through JSON.",
 [D+"*.rs",D+"anim_data.rs",D+"mesh_data.rs"],[("serde derives of the data types",D+"*.rs")])
p("C12","Animation tracks keep their values through saving and loading",
 "Creating an animation file of version 2.0 or 2.1 from any tracks and reading it back preserves groups, nodes, track names, order, types, frame counts, transform flags, the compensate-scale setting and the final frame; values of tracks that are stored uncompressed, and all booleans, are bit exact. Values of compressed tracks differ from the originals by no more than the quantization step of the track's value range, and constant components come back exactly (except for rotation w, which is recomputed). A compressed track whose values are all equal may come back as a single frame of that value. Reading the same file always gives the same result; the groups of a version 1.2 file appear in the order of their first track.",
 ["inputs","configurations"],"all combinations of track type, frame counts around the compression thresholds, value patterns (constant, alternating, ramps, extremes), flags and versions",
 "The tests write single short tracks of each type; combinations of tracks sharing one buffer, long tracks and mixed constant/varying components are not reached.",
 [D+"anim_data.rs",D+"anim_data/buffers.rs",D+"anim_data/compression.rs",D+"anim_data/bitutils.rs"],[("choice of compression",D+"anim_data.rs (infer_optimal_compression_type)"),("quantization and bit packing",D+"anim_data/compression.rs, "+D+"anim_data/bitutils.rs"),("track buffer reader and writer",D+"anim_data/buffers.rs")])
p("C13","Every track of a written animation owns its own correct piece of the buffer",
 "In a written animation file, the tracks' data ranges are consecutive, do not overlap, lie within the shared buffer and cover it completely, each with the format its declared type, compression and frame count require; frame counts, flags, final frame and version numbers match the source. Creation fails with an error, and never silently drops data, when the version is unsupported or the final frame index is negative or smaller than the last frame of some track.",
 ["inputs","configurations"],"all lists of up to several tracks of all types and lengths, all version numbers in a range, all relations between final frame index and frame count",
 "Offsets depend on all preceding tracks; the tests use one or two tracks and decode with the library's own reader only.",
 [D+"anim_data.rs",D+"anim_data/buffers.rs",D+"anim_data/compression.rs"],[("offset and size bookkeeping while concatenating track data",D+"anim_data.rs (create_track_data_v20)"),("final frame and version validation",D+"anim_data.rs (create_anim)")])
p("C14","Mesh data survives saving and loading for every supported version",
 "Creating a mesh file of version 1.8, 1.9 or 1.10 from any valid mesh data and reading it back preserves the objects in order with their names, subindices, parent bones, sort bias, depth flags, triangle indices and, for each attribute list, its usage, order and values; positions and all values stored as 32-bit floats are exact, all others are the nearest value of the half-float or (for four-component colors only) 8-bit fraction format the file uses, and the component count of every list is kept. Attribute names are preserved by versions 1.9 and 1.10; version 1.8 has neither attribute names (they are generated from usage and position) nor binormals. Writing what was read produces the same file again.",
 ["inputs","configurations"],"all versions x counts and component types of each attribute list x vertex counts x index patterns x numbers of objects",
 "The tests create one-object meshes for selected attribute types; layouts with several objects and attribute lists sharing buffers are not covered.",
 [D+"mesh_data.rs",D+"mesh_data/mesh_attributes.rs",D+"mesh_data/vector_data.rs"],[("attribute layout per version",D+"mesh_data/mesh_attributes.rs"),("vector conversion and buffer access",D+"mesh_data/vector_data.rs"),("object reading",D+"mesh_data.rs (read_mesh_objects)")])
p("C15","Vertex and index buffers of a written mesh are laid out consistently",
 "In a written mesh, every object's attributes lie at distinct in-stride byte ranges of their vertex buffer, the per-object regions of each buffer and of the index buffer are disjoint and inside the buffer, every byte of a vertex buffer belongs to an object, strides times vertex count fit the region, buffer size entries match the buffers, indices are stored with the narrowest declared element type that holds them all, and the declared vertex and index counts match. Reading the raw bytes at those positions yields the attribute values independently of the library's own decoder.",
 ["inputs","configurations"],"all versions x attribute sets x object counts x vertex and index counts including 0, 65535 and 65536",
 "Tests decode with the library's own reader and check selected offsets for a single object.",
 [D+"mesh_data.rs",D+"mesh_data/mesh_attributes.rs",D+"mesh_data/vector_data.rs"],[("stride and offset accumulation",D+"mesh_data/mesh_attributes.rs, "+D+"mesh_data.rs"),("choice of the index element type",D+"mesh_data.rs")])
p("C16","Invalid mesh data is rejected instead of being written",
 "Creating a mesh file fails with the matching error when attribute lists of one object differ in length, an index refers to a missing vertex, the index count is not a multiple of three, a skin weight's vertex index cannot be represented, two objects share name and subindex, or the version is not supported; conversely data without such a defect is accepted. The failure does not depend on which object, attribute list or position contains the defect.",
 ["inputs","configurations"],"all positions of one or two defects in meshes with several objects and attribute lists, all versions",
 "Each error has one test with one defect in one place.",
 [D+"mesh_data.rs",D+"mesh_data/mesh_attributes.rs"],[("validation before writing",D+"mesh_data.rs (create_mesh, create_mesh_object)"),("vertex count consistency",D+"mesh_data.rs (vertex_count)")])
p("C17","Skin weights stay with their bone, object and vertex",
 "Bone influences written to a mesh file of any version come back attached to the same object (identified by name and subindex), the same bone in the same order, with the same vertex indices and weights; objects without influences stay without. The recorded maximum number of influences per vertex is the true maximum (255 when it is larger), and groups are stored in ascending order of object name and subindex regardless of the order of the objects.",
 ["inputs","configurations"],"all assignments of up to a few bones and weights to vertices over up to three objects with equal and different names, all versions",
 "The tests cover one object with two bones.",
 [D+"mesh_data.rs"],[("rigging group creation and sorting",D+"mesh_data.rs (create_rigging_buffers)"),("lookup by name and subindex",D+"mesh_data.rs (read_rigging_data)")])
p("C18","Bounding volumes enclose all vertices",
 "For every mesh written from data, the bounding sphere, axis-aligned box and oriented box of each object contain all positions of the object (of its first position list, with missing components zero), and those of the mesh contain the positions of all objects, up to rounding, with finite values; the axis-aligned box is tight. The group spheres and the overall sphere of extended mesh data made from the same objects contain their positions as well.",
 ["inputs"],"all multisets of points of a small coordinate grid plus scaled (magnitudes up to 1e18), shifted and degenerate sets; all numbers of objects up to three",
 "The tests use four fixed point sets.",
 [D+"mesh_data.rs",D+"meshex_data.rs"],[("bounding calculations",D+"mesh_data.rs (calculate_bounding_info, transform)"),("bounding sphere of spheres",D+"meshex_data.rs")])
p("C19","Skeleton matrices follow the bone hierarchy",
 "A skeleton file written from bone data contains, for each bone, its own transform, a world transform equal to the product of the transforms of all its ancestors from the root down to itself, and true inverses of both; reading it back preserves names, order, transforms, parents and billboard types. Cyclic parents are reported as an error instead of looping, parents that do not exist end the chain, and a parent index that the file cannot store is reported as an error instead of becoming another parent. The relative transform calculated from two world transforms is the one that gives the world transform again when it is accumulated.",
 ["inputs"],"all parent assignments of up to five bones (including cycles, self references and missing parents) combined with a small set of non-commuting transforms and all billboard types",
 "The tests use two- and three-bone chains only.",
 [D+"skel_data.rs"],[("world transform accumulation with a cycle check",D+"skel_data.rs (calculate_single_bind_transform, calculate_world_transform)"),("inverse matrices",D+"skel_data.rs"),("parent index conversion",D+"skel_data.rs")])
p("C20","Material data survives saving and loading",
 "Writing material entries and reading them back preserves the labels, the order of entries and, within each kind of parameter, the order, identifiers and all fields of every parameter, for every parameter identifier and every enumerated state; parameters of one kind never appear as another. Unsupported versions are rejected on writing, and files of both supported versions are readable.",
 ["inputs","configurations"],"all parameter kinds x all identifiers, all enumerated states and anisotropy settings, all list lengths 0..3 per kind, file versions 1.5 and 1.6",
 "The tests write one entry with a handful of parameters.",
 [D+"matl_data.rs"],[("grouping attributes by kind",D+"matl_data.rs (get_attributes, create_attributes)"),("sampler anisotropy encoding",D+"matl_data.rs")])
p("C21","Model and helper-bone data survive saving and loading",
 "Writing model entries or helper-bone constraints and reading them back preserves every name, index, vector, optional file name (absent stays distinct from present), and the order of all entries; the constraint index and type tables list every aim constraint and every orient constraint exactly once in order.",
 ["inputs"],"all combinations of list lengths, string contents, optional presence and numeric extremes within the bound",
 "One test per direction with fixed values.",
 [D+"modl_data.rs",D+"hlpb_data.rs"],[("field-by-field conversion",D+"modl_data.rs, "+D+"hlpb_data.rs"),("constraint tables",D+"hlpb_data.rs (create_constraints)")])
p("C22","Extended mesh files are self-consistent and survive saving and loading",
 "Writing extended mesh data and reading it back preserves groups, names, entry flags and bounding spheres; the file records its own length, the number of groups and of entries, and an index from every entry to its group; strings and tables are at absolute aligned positions without overlap. Values whose entry and flag counts disagree are rejected on writing. Building the data from mesh objects yields one group per run of equally named consecutive objects, with one entry per object and a bounding sphere that contains the objects' positions. The sphere around everything contains the spheres of all groups, up to rounding.",
 ["inputs"],"all numbers of groups and entries per group up to a bound, all flag combinations, all string contents, and all file values with null parts",
 "The tests use one fixed example.",
 [L+"formats/meshex.rs",D+"meshex_data.rs",L+"lib.rs"],[("hand-written writer with size patching",L+"formats/meshex.rs"),("entry and group conversion",D+"meshex_data.rs"),("absolute pointers",L+"lib.rs (Ptr)")])
p("C23","Adjacency data lists, for every triangle edge of a vertex, the right vertices",
 "For every triangle mesh, the generated adjacency list of a vertex contains the other two vertices of each triangle that touches the vertex's position, in the triangle's rotation order starting behind that corner, ordered by coinciding vertex and then by triangle, limited to the first nine triangles, and padded with -1 to eighteen values for every vertex. Without positions the list is empty. Writing adjacency entries and reading them back preserves mesh indices and lists; the offsets stored in the file are the cumulative byte positions.",
 ["inputs"],"all triangle lists of up to three triangles over up to five vertices with all coincidences of positions, and all entry lists up to a bound",
 "The tests use three fixed meshes.",
 [D+"adj_data.rs",L+"formats/adj.rs"],[("triangle adjacency by position",D+"adj_data.rs (triangle_adjacency)"),("offset table",D+"adj_data.rs"),("file layout",L+"formats/adj.rs")])
p("C24","A failed save leaves an existing file untouched",
 "When saving a value to a path fails because the value cannot be written or converted, whatever file was at that path before keeps its contents and no file is created where none was. When saving succeeds, the file contains exactly the bytes that writing to memory produces, also when it replaces a longer file, and loading the file gives the same result as reading those bytes.",
 ["fault_sequences","inputs"],"all formats x all kinds of unwritable values x existing/missing/longer/shorter target files",
 "No test saves over an existing file or observes the target after a failed save.",
 [L+"lib.rs",D+"lib.rs"],[("buffered writing before touching the file",L+"lib.rs (write_to_file, write_buffered)"),("conversion before writing",D+"lib.rs")])
p("C25","Derived writers implement the declared layout for every type shape",
 "For every type shape the derive macro supports (named and tuple structs, enums, generics, primitive-represented enums, nested types, arrays, options, slices) and every combination of its attributes, the derived writer emits the fields in order with the declared magic, paddings and alignments, and the reported size equals the number of bytes the value itself occupies, not counting alignment after it, which depends on its position. Data behind pointers inside such types is placed by the documented offset rules.",
 ["programs","inputs"],"a family of harness-defined types covering all attribute combinations, with all values within the bound",
 "The derive tests cover single attributes on single types.",
 ["ssbh_write_derive/src/lib.rs","ssbh_write/src/lib.rs"],[("code generation for sizes, fields, magic, pad_after, align_after, alignment, repr","ssbh_write_derive/src/lib.rs"),("primitive, array, option and slice writers","ssbh_write/src/lib.rs")])
p("C26","Strings never change, shift or swallow neighbouring data",
 "A string built from any text or bytes holds exactly the bytes before the first zero byte, and is reported as text exactly when those are valid UTF-8; writing a string of any length and alignment and reading it back, alone or among other fields, yields the same bytes and the same null or empty state. No route of constructing a string, including JSON, can yield one whose file form reads back differently.",
 ["inputs"],"all byte strings up to length 4 over a boundary alphabet and all lengths 0..64 (plus page-size boundaries), all alignments, all construction routes",
 "The tests use a few ASCII strings.",
 [L+"strings.rs",L+"lib.rs"],[("truncation at the first zero byte",L+"strings.rs (from_bytes)"),("empty string padding",L+"strings.rs (CString::ssbh_write)"),("JSON deserialization of strings",L+"strings.rs")])
p("C27","The command line converters convert every format losslessly in both directions",
 "The JSON tools convert any supported binary file to JSON and that JSON back to a binary file identical to what the library writes for the same value, choosing direction and default output name from the input, for every file type. Inputs that cannot be converted leave existing outputs untouched and do not produce an output file.",
 ["inputs","configurations"],"all file types x both tools x explicit and default output names x valid, truncated and non-file inputs",
 "The command line tools have no tests.",
 ["ssbh_lib_json/src/main.rs","ssbh_data_json/src/main.rs"],[("type detection by extension or by trial","ssbh_lib_json/src/main.rs, ssbh_data_json/src/main.rs"),("default output names","ssbh_lib_json/src/main.rs, ssbh_data_json/src/main.rs")])
p("C28","Vertex attribute helpers compute what they document",
 "Transforming points applies the full matrix and transforming vectors ignores translation; both act on every vector independently of all others, keep the number of vectors and of components, and pass components beyond the third through unchanged. Widening to four components keeps the first three components, fills a missing third with zero and sets the fourth to the given value. For indices within range, computed normals and tangents have one entry per vertex and unit length (or are zero), normals are the normalized sum of the normals of the vertex's triangles by their winding, tangents the normalized sum of the directions of increasing u, with the sign of the fourth component giving the handedness; neither depends on unrelated vertices or on unused components. Attribute lists of different lengths and incomplete triangles are errors for tangents.",
 ["inputs"],"all vectors and matrices over a small grid of values with two and three perturbed entries, and all triangle lists within the bound",
 "The tests use one matrix and one triangle or quad.",
 [D+"mesh_data.rs",D+"mesh_data/vector_data.rs"],[("transform helpers",D+"mesh_data.rs (transform_points, transform_vectors)"),("normal and tangent calculation",D+"mesh_data.rs (calculate_smooth_normals, calculate_tangents_vec4)"),("component widening",D+"mesh_data/vector_data.rs (to_vec4_with_w)")])
p("C29","Any valid encoding of animation track data is read as the documented values",
 "Reading the track data of a version 2.0 or 2.1 animation returns, for every documented encoding, the values the format defines: uncompressed frames bit for bit under each uncompressed type and any number of frames; compressed frames as the interpolation between the endpoints of each component's range, for every bit count up to 32, component order, combination of scale, uniform scale, rotation and translation flags, sign bit and default value, wherever the default value and the bit stream are placed. Each track is read from its own offset and size, in any order, with gaps or shared ranges.",
 ["inputs","configurations"],"all flag combinations x bit counts x ranges x stored numbers x placements x frame counts within the bound",
 "The tests decode single tracks with the bit counts the game files use; the quantifier is over all combinations of flags, ranges and bit counts.",
 [D+"anim_data.rs",D+"anim_data/buffers.rs",D+"anim_data/compression.rs",D+"anim_data/bitutils.rs"],[("decompression of each track type",D+"anim_data/compression.rs"),("bit reader",D+"anim_data/bitutils.rs"),("track range lookup",D+"anim_data.rs (create_track_data_v20)")])
p("C30","Any valid vertex, index and weight layout of a mesh file is read as its values",
 "Reading a mesh file of version 1.8, 1.9 or 1.10 returns for every attribute the values stored at its buffer, object offset, attribute offset and stride in its declared data type (bytes as fractions of 255, half floats exactly), in any of the four buffers, with any gaps, sharing and attribute order, and for every object its indices in the declared element type and the influences of all groups with its name and subindex. Attributes keep their usage, their order within the usage and their name. Whenever a declared element lies outside its buffer, or the buffer does not exist, reading is an error.",
 ["inputs","configurations"],"all data types x buffers x offsets x strides x counts x attribute orders x group orders within the bound, all half floats and byte codes",
 "The tests decode single attributes of the layouts the writer produces.",
 [D+"mesh_data.rs",D+"mesh_data/vector_data.rs"],[("attribute access by buffer, offset and stride",D+"mesh_data.rs (read_attribute_data, calculate_offset_stride)"),("vector decoding",D+"mesh_data/vector_data.rs (VectorData::read)"),("group lookup",D+"mesh_data.rs (read_rigging_data)")])
p("C31","Shader metadata is read from any valid shader binary as its entries",
 "Reading the metadata of a shader binary returns for every buffer, uniform, input and output entry, in order, its name, its numbers and its data type as stored, and the program code of the stated length, wherever the entry tables and the string section are placed relative to the entry offset, in any order, with gaps, with shared strings and whatever the unused bytes contain. A data type code outside the documented ones is an error, as is an entry, string or code that extends beyond the binary. Converting a shader file gives the same metadata for each shader in order with its name and stage, and so does JSON and back.",
 ["inputs","configurations"],"all table orders, counts, placements, names, string orders and field values within the bound, all data type codes up to 600 and with single bits changed, all truncations",
 "Shader metadata has no tests.",
 [D+"shdr_data.rs"],[("metadata header and relative tables",D+"shdr_data.rs (UnkHeader, UnkPtr)"),("string lookup",D+"shdr_data.rs (read_string)"),("data type codes",D+"shdr_data.rs (DataType)"),("conversion of shader files",D+"shdr_data.rs (TryFrom<&Shdr>)")])
p("C32","All routes between file, raw value and data give the same result",
 "A conversion that takes its value and one that borrows it give the same raw value, in both directions between the high-level data and the raw types; a single entry (constraint, model entry, material, sampler, blend or rasterizer state) converted on its own becomes what it becomes as a part of its file. Reading and writing through a stream, through a path, through the typed functions, through the generic file type (whose variant is that of the format read) or step by step through the raw type all give the same value, and the same bytes; a value rejected by one route is rejected by all of them.",
 ["inputs","histories"],"all data values and raw files of every type within the deviation bound, taken through every public route",
 "The tests use one route per type; agreement of owned and borrowed conversions is never compared.",
 [D+"lib.rs",L+"lib.rs"],[("SsbhData trait and its conversions",D+"lib.rs"),("owned and borrowed conversions",D+"*_data.rs"),("generic file type and path functions",L+"lib.rs")])
p("C33","Saving again what was loaded changes nothing more",
 "Loading a file as high-level data and saving it, any number of times in a row, is stable: after the first save every further load gives the same data and every further save gives the same bytes. For animations, whose compression chooses new ranges, the values and bytes may still change in the second save but not afterwards. Nothing accumulates or drifts with repeated editing sessions.",
 ["inputs","histories"],"all data values of every type within the deviation bound, including every animation of C12 and every foreign track encoding of C29, saved and loaded four times in a row",
 "The tests save at most once; drift shows only over several saves.",
 [D+"anim_data/compression.rs",D+"*_data.rs"],[("quantization of compressed tracks",D+"anim_data/compression.rs"),("choice of ranges and flags",D+"anim_data.rs, "+D+"anim_data/buffers.rs"),("mesh attribute encoding",D+"mesh_data/")])
p("C34","Value types keep every component and element in its place",
 "Vectors, matrices and colours keep every component in its named place through construction, arrays, tuples, conversions to and from other vector types, and formatting; matrix rows and columns are not exchanged, and minimum and maximum are those of each component. Arrays, byte buffers, strings and pointers keep their elements, count and order through every constructor, conversion and iterator, and report null, empty and length consistently with their contents. Lengths of track values and attribute data equal the number of their elements for every kind.",
 ["inputs"],"all placements of distinct boundary values in every component, all collection lengths up to the bound and every public constructor and conversion",
 "The tests check one value per type if any; these conversions underlie every other operation.",
 [L+"vectors.rs",L+"arrays.rs",L+"strings.rs",L+"lib.rs"],[("vector and matrix conversions",L+"vectors.rs"),("collection constructors",L+"arrays.rs"),("pointer types",L+"lib.rs"),("lengths of track and attribute data",D+"anim_data.rs, "+D+"mesh_data.rs")])
p("C35","Files can be written to and read from any aligned position of a stream",
 "Writing a file to a stream at any position that is a multiple of 16, whatever the stream holds, changes nothing before that position and, for all formats whose offsets are relative, nothing after the file, and produces the bytes that it would at the start of an empty stream (gaps between its parts keep what was there). Reading at that position gives the value, whatever precedes and follows it (an adj file extends to the end of the stream; offsets of a meshex file count from the start of the stream). Several files written one after another to one stream, or over one another, can all be read back, and a reader can be used again.",
 ["inputs","histories"],"all values of all formats within the deviation bound x positions x earlier contents, all sequences of up to three (four) files in one stream, all pairs written over one another",
 "All tests use streams that start with the file and hold nothing else.",
 [L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"formats/meshex.rs","ssbh_write/src/lib.rs"],[("header and data pointer",L+"lib.rs (write_ssbh_file)"),("relative offsets",L+"lib.rs, "+L+"arrays.rs, "+L+"strings.rs"),("file length of meshex",L+"formats/meshex.rs")])
p("C36","The test program reports exactly the files that do not round trip",
 "Run on a folder, ssbh_test examines every file at any depth whose name has one of the extensions it covers (numatb, numdlb, numshb, nusktb, nurpdb, nufxlb, nuanmb, nuhlpb, nushdb, numshexb, adjb), reports as unreadable exactly those that can not be read as the type of their extension and as not 1:1 exactly those that are written differently (or can not be written), once each, reports no other file, changes none, and ends successfully whichever files the folder holds.",
 ["inputs","configurations"],"all file types x states (valid, placed differently, cut, extended, corrupted, of another type, unwritable) x places and names, all pairs of states, all states together",
 "The program has no tests.",
 ["ssbh_test/src/main.rs"],[("folder walk and extensions","ssbh_test/src/main.rs (main)"),("comparison of the rewritten bytes","ssbh_test/src/main.rs (check_read_write_*)")])
p("C37","Errors name a defect that the data really has",
 "When data or a file is refused, the error is of the kind, and carries the values (version, index, limit, count, offset, size, name), of a defect that the data has; its message mentions those values; data without a defect is not refused and refused data writes nothing. Converting, converting by value, reading, writing and saving report the same error. An error of the underlying stream keeps its message, a missing file is reported as not found and a file of another type as being of another type.",
 ["inputs","fault_sequences"],"all versions of a palette, final frames x track lengths, track ranges x buffers, stored x required bit counts, buffer indices x buffers, parents, offsets, up to two (three) defects of meshes, all failing operations of readers and writers for all types",
 "The tests check one error value per kind; callers show these messages to users and match on these values.",
 ["ssbh_data/src/anim_data.rs","ssbh_data/src/mesh_data.rs","ssbh_data/src/skel_data.rs","ssbh_data/src/matl_data.rs","ssbh_data/src/adj_data.rs","ssbh_lib/src/lib.rs"],[("error types","ssbh_data/src/*_data.rs (mod error)"),("type mismatch","ssbh_lib/src/lib.rs (ReadSsbhError)")])
p("C38","What an operation yields depends on its arguments alone",
 "Converting, reading, writing, loading a path and every helper yield for equal arguments the same value, the same bytes or the same error, whatever was done before in the same process (other values of any type, values that share names, sizes or the file name with this one, operations that failed half way, the same operation many times) or is done meanwhile (other operations in other threads, or underneath, by a stream whose own calls save and load files), in every new process and whatever the environment variables, language and working directory are.",
 ["histories","schedules","configurations"],"all schedules of two operations with one preemption at a call of a stream, and of small ones with two; all histories of two operations and, from a smaller set, of three (thorough: three whose last is from the smaller set, and four), repetitions of every operation, several surroundings",
 "Every test runs one operation on its own; remembered state, leftovers of failed operations, state shared between threads and the order of hash tables show only in histories, schedules and across processes.",
 [L+"lib.rs",D+"lib.rs",D+"*_data.rs"],[("loading by path",L+"lib.rs, "+D+"lib.rs"),("collections by name",D+"mesh_data.rs (validate_mesh_object_subindices, create_rigging_buffers)"),("bit buffers",D+"anim_data/buffers.rs")])
p("C39","Optional features add interfaces and change nothing else",
 "The crates build with every combination of their optional features (serde, serde_hex, strum, arbitrary), and reading, writing and converting any file give the same values, the same bytes and the same errors in each. With serde, every value that JSON can hold comes back from JSON text equal and is written as the same bytes, whether byte buffers are text in hexadecimal (serde_hex) or lists of numbers. Every value generated through arbitrary is one that a file can hold: it can be written (except extended meshes whose counts disagree), what is written reads back as that value and is written as the same bytes again, and converting generated data or files never panics. With strum, the values of an enumeration are listed once each, with the name that JSON and debug output use and the number that files hold, and from a name or number exactly its value is found again.",
 ["configurations","inputs"],"all twelve combinations x all files within one deviation, sample files of every data type with every byte changed or cut off; values generated from all byte strings of up to 144 bytes of one byte value with one other byte; all values and all numbers of every enumeration",
 "The tests run with one combination of features; other programs use the crates with others.",
 [L+"*.rs",L+"formats/*.rs",D+"*.rs"],[("features","ssbh_lib/Cargo.toml, ssbh_data/Cargo.toml"),("byte buffers in JSON",L+"arrays.rs"),("arbitrary strings",L+"strings.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
