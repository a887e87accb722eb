"""Single source of truth for properties.jsonl and MANIFEST.json (run tools/gen_meta.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level="exploration", technique="", note="", state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level=level, technique=technique, note=note, state=state or [], na=na))


prop("P01", "All input sources of the same bytes behave identically",
     "A reader opened over the same bytes through any supported source (borrowed memory, owned vector, mapped file, C file handle, C++ stream, block-compressed stream) returns exactly the same values, line contents, cursor positions and end-of-input answers for every sequence of in-range reads and seeks. "
     "Those answers are the little-endian interpretation of the underlying bytes at the cursor, and a read never delivers bytes from outside the input; a file that cannot be opened is reported as an error.",
     ["inputs", "histories"], "every sequence of read/seek/line operations up to the depth bound, on every source kind and every small content",
     "Tests read two fixed files front to back on the memory source only; the property ranges over all operation sequences and all six sources.",
     ["src/Stream.cc", "include/zenkit/Stream.hh", "src/MmapPosix.cc"],
     [("ReadMemory/ReadFile/ReadStream/ReadZipped", "src/Stream.cc"), ("Read::from overloads", "src/Stream.cc")],
     ["Read::*"], technique="exhaustive operation-sequence exploration of the real readers against a byte-array+cursor model (all sequences to a depth bound, six sources in lockstep)")

prop("P02", "All output sinks record exactly the bytes written",
     "For every sequence of typed writes and seeks, the bytes ending up in a growing buffer, a file and a C++ stream are identical and equal to the little-endian encoding of the written values at the positions they were written, and reading them back yields the values written. "
     "A fixed-size buffer sink stores exactly the leading part of a write that still fits, reports how many bytes that were, and never writes outside its buffer. "
     "A file that cannot be opened for writing is reported instead of swallowing the data, and a write that a stream or file destination did not take completely is reported as short.",
     ["inputs", "histories", "fault_sequences"], "every sequence of write/seek operations up to the depth bound on every sink kind and buffer size",
     "Tests write one value of each type to one sink; overwrites after seeking, gap filling and near-full fixed buffers depend on the history of operations.",
     ["src/Stream.cc", "include/zenkit/Stream.hh"], [("WriteDynamic/WriteStatic/WriteFile/WriteStream", "src/Stream.cc")],
     ["Write::*"], technique="exhaustive operation-sequence exploration of the real sinks against a byte-array+cursor model")

prop("P03", "Chunk framing survives any consumer",
     "A chunked file written by the library is read back chunk by chunk with the same identifiers and payload bytes in the same order, and whatever part of a chunk's payload a consumer reads (nothing, some, all) the next chunk starts at its true boundary and the reader ends behind the last chunk it was asked for. "
     "Reading chunks from any prefix of such a file terminates.",
     ["inputs", "histories"], "every sequence of chunk sizes, consumer behaviours and truncation points within the bound",
     "Tests only read complete sample files with well-behaved consumers.",
     ["src/Internal.hh", "src/Stream.cc", "include/zenkit/Stream.hh"], [("proto::read_chunked/write_chunk", "src/Internal.hh")],
     ["Font/Material/Mesh/... loaders", "read_chunked"], technique="exhaustive enumeration of chunk layouts x consumer behaviours x truncation points against a list-of-chunks model")

prop("P04", "The virtual file system is a case-insensitive tree",
     "After any sequence of creating directories, adding files, mounting and removing, looking up any path yields exactly the entry that a simple case-insensitive tree would hold there, with the contents and timestamp it was given, and no other entries; leading, trailing and repeated '/' separators of any path and trailing blanks of the names looked up do not matter. "
     "Every search by bare name finds an entry with this name whenever one exists anywhere below, and operations that cannot apply (missing path, a file where a directory is needed) report it without changing the tree.",
     ["histories", "inputs"], "every operation sequence up to the depth bound over a small colliding name alphabet",
     "Tests perform four or five fixed operations; lookup correctness depends on the ordering of siblings and the history of the tree.",
     ["src/Vfs.cc", "include/zenkit/Vfs.hh"], [("Vfs::resolve/find/mkdir/remove, VfsNode children set", "src/Vfs.cc")],
     ["Vfs::resolve", "Vfs::find", "VfsNode::child"], level="model_checking", technique="explicit-state search: operation sequences on the real Vfs vs a reference tree, canonical-state deduplication")

prop("P05", "Mount conflicts follow the overwrite policy",
     "When a mounted file collides with an existing entry of the same name (ignoring case), the surviving entry is determined only by the selected overwrite behaviour and the two timestamps, as documented; entries that do not collide always become visible and directories are merged, never replaced by one another. "
     "This holds alike for entries mounted one by one, whole disk images and host directories (every file and folder in them, whatever its name, with the time of its last change).",
     ["histories", "configurations"], "every ordered collection of mounts from the alphabet x every policy x every timestamp order",
     "Tests mount one disk into an empty tree; collisions never occur in them.",
     ["src/Vfs.cc"], [("Vfs::mount overwrite switch", "src/Vfs.cc")], ["Vfs::mount", "Vfs::mount_disk", "Vfs::mount_host"],
     level="model_checking", technique="explicit-state search over mount histories against a reference merge function")

prop("P06", "A saved file system mounts back unchanged",
     "Writing any directory tree out as a disk image (either game version, compressed or not) and mounting the image again yields the same directories, file names, file contents and the time the image was saved with (at the two-second resolution of its format, in any time zone). Names are up to 64 characters without trailing blanks; directories without a file anywhere below them cannot be represented and are left out. The image's own header counts, volume flag and catalog (names, sizes, places, directory structure) describe exactly what is stored.",
     ["inputs", "configurations"], "every tree shape up to the node bound x content sizes x game version x compression",
     "Tests save nothing and mount one fixed image.",
     ["src/Vfs.cc", "src/Stream.cc"], [("Vfs::save / mount_disk catalog", "src/Vfs.cc"), ("zipped stream blocks", "src/Stream.cc")],
     ["Vfs::save", "Vfs::mount_disk"], technique="exhaustive enumeration of all small trees and contents, save->mount on the real code, compared with the tree")

prop("P07", "Damaged disk images never escape the image",
     "Mounting any disk image, however truncated or with any of its header, catalog or compression fields altered, terminates, and either succeeds or reports an error; every file then visible can be read to its end without touching memory outside the image.",
     ["inputs", "fault_sequences"], "every truncation point and every single-field (and pair-of-field) corruption from a boundary-value menu of every small image",
     "The tests only mount valid images.",
     ["src/Vfs.cc", "src/Stream.cc"], [("catalog walker bounds checks", "src/Vfs.cc")], ["Vfs::mount_disk", "VfsNode::open_read"],
     level="fault_enumeration", technique="exhaustive fault enumeration (all truncations, all single/paired field corruptions) under ASan/UBSan with a CPU watchdog")

prop("P08", "Archives return every entry sequence unchanged",
     "Any sequence of entries (every supported type, any in-range value, any nesting of objects) written to an archive in any of the three formats is read back as the same sequence of equal values, floating-point values within the precision of the text format. Text-format strings contain no line breaks or NULs; the plain binary format stores enumeration values below 256. The formats that store names hold every entry under the name it was written with, and the header states how many objects follow. "
     "Reading an entry as a different type than was written in a self-describing format is reported as an error rather than returning a wrong value (types the text format stores under one tag, such as byte, word and integer, are one type there). "
     "Archives of other writers read the same way: any non-zero truth value is true, numbers may carry signs, leading zeros or exponents, surplus bytes of a raw entry are passed over, keys may be listed in any order and the date and user lines of the header may be missing.",
     ["inputs", "histories", "configurations"], "every typed entry sequence up to the length bound x boundary values x format x save-game flag",
     "Tests read two sample archives and one writer path; writer and reader must agree for every type, value and position.",
     ["src/Archive.cc", "include/zenkit/Archive.hh"], [("WriteArchive*/ReadArchive* pairs", "src/Archive.cc")], ["ReadArchive", "WriteArchive"],
     technique="exhaustive enumeration of typed entry sequences written and read by the real archive code, x3 formats")

prop("P09", "Skipping an archive object lands exactly behind it",
     "Skipping the current object at any point, however deeply nested its contents and however much of it was already read, continues reading at the first entry after that object, in every archive format. Reading past the end of an object is not possible unnoticed: the end marker is recognised exactly once per object.",
     ["inputs", "histories"], "every object tree up to the size bound x every skip position x format",
     "Tests never skip from the middle of an object.",
     ["src/Archive.cc"], [("ReadArchive::skip_object", "src/Archive.cc"), ("read_object_begin/end", "src/Archive.cc")], ["ReadArchive::skip_object"],
     technique="exhaustive enumeration of object trees x skip points against the tree itself")

prop("P10", "Object graphs keep their identity through archives",
     "Objects shared between several places of a saved graph are one object again after loading, distinct objects stay distinct, absent objects stay absent, and objects referring to each other are wired to the right partner, in every archive format.",
     ["inputs", "configurations"], "every assignment of references among up to N objects x format",
     "Tests load fixed object lists without sharing.",
     ["src/Archive.cc", "src/Object.cc"], [("object cache/back-reference table", "src/Archive.cc")], ["ReadArchive::read_object", "WriteArchive::write_object"],
     technique="exhaustive enumeration of small reference graphs, save->load isomorphism check on the real code")

prop("P11", "Every world object type survives saving and loading",
     "Each kind of world object, with any value in any of its saved fields, is loaded back equal in all fields that the chosen game version stores, in every archive format and both as world data and as save-game data.",
     ["inputs", "configurations"], "every object type x game version x format x save flag x (field, boundary value) perturbation (pairs in thorough)",
     "Tests compare a handful of sample objects in two formats; each field's writer and reader must agree for every value.",
     ["src/vobs/*.cc", "include/zenkit/vobs/*.hh"], [("VirtualObject and subclasses load/save pairs", "src/vobs")], ["VirtualObject::load/save"],
     technique="exhaustive single-field (thorough: pairwise) perturbation of every object type x configuration matrix, save->load->compare")

prop("P12", "Worlds survive saving and loading",
     "A world with any tree of objects, way network, geometry, spatial tree and game state is loaded back equal, for each game version and archive format, also into a world object used before, and loading with automatic version detection gives the same result as loading with the version stated. Unknown sections and objects of unknown classes are skipped without affecting anything else, whatever the order of the sections.",
     ["inputs", "configurations"], "every small vob tree shape, waynet graph and bsp tree x game x format",
     "No world sample is available to the tests; the world tests are skipped.",
     ["src/World.cc", "src/world/*.cc"], [("World::load/save, WayNet, VobTree, BspTree", "src/World.cc")], ["World::load", "World::save"],
     technique="exhaustive enumeration of small worlds (tree shapes, graphs) through the real save/load pair")

prop("P13", "Geometry assets survive saving and loading",
     "Every mesh-like asset the library can both write and read (static, multi-resolution, soft-skin and model meshes, hierarchies, models, materials, fonts) is read back equal after being written for either game version, for every combination of element counts and field values it can hold, also into an object used before; the triangulated polygon list is the fan decomposition of the visible polygons, and the axis-aligned bounding box derived from an oriented one encloses it.",
     ["inputs", "configurations"], "every combination of small element counts and single-field perturbations per asset x game version",
     "Tests cover only loading of a few samples and two dump tests.",
     ["src/Mesh.cc", "src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/ModelHierarchy.cc", "src/Material.cc", "src/Font.cc"],
     [("load/save pairs", "src/*.cc")], ["*.load/save"], technique="exhaustive enumeration of asset shapes and field perturbations through the real save/load pairs")

prop("P14", "Textures decode, convert and round-trip exactly",
     "Decoding any texture to RGBA yields, for every pixel of every mip level, the colour defined by the stored bits and the format; building a texture from RGBA pixels and reading it back yields the nearest representable colours, at every size and mip count. Saving and reloading a texture preserves all its attributes and pixel data, exporting it as DDS preserves size, mip levels, format and pixel data, and a format that cannot be converted, a missing level or a level of the wrong size is reported as an error.",
     ["inputs", "configurations"], "every pixel bit pattern of the 16-bit formats, all channel values of the 32-bit formats, every small size x mip count x format",
     "Tests load one texture and compare one level.",
     ["src/Texture.cc", "include/zenkit/addon/texcvt.hh", "src/addon"], [("Texture::as_rgba8, TextureBuilder, to_dds", "src/Texture.cc")], ["Texture"],
     technique="exhaustive enumeration of pixel values, formats, sizes and mip counts against a bit-level reference decoder")

prop("P15", "Model scripts mean the same as text and binary",
     "Every model script built from the documented statements parses into the same animations, blends, aliases, combinations and events with the values written, whether given as text or in compiled form, independent of the letter case of keywords, of spacing and of comments (only the ATTACH marker of event tags exists in text alone). Loading replaces what the object held before, and malformed or cut-off text ends in an error or a result, never in a hang or crash.",
     ["inputs"], "every statement kind x every optional argument combination x event kinds x layout variants; every truncation point of the text",
     "Tests parse a single sample in each form.",
     ["src/ModelScript.cc", "src/ModelScriptDsl.cc"], [("tokenizer/parser", "src/ModelScriptDsl.cc"), ("binary parser", "src/ModelScript.cc")], ["ModelScript::load"],
     technique="exhaustive enumeration of grammar derivations, rendered as text and binary, against the generating AST; all truncations")

prop("P16", "Truncated or altered assets are rejected, not obeyed blindly",
     "Loading an asset file of any kind (meshes, models, animations, textures, fonts, model scripts, compiled scripts, archived objects in every archive format, worlds, cutscene libraries and saved games) which was cut short at any byte, or in which any field, number, character, line, object class or object reference was changed, terminates promptly and either succeeds or raises an error (running out of memory because of an absurd size included); it never reads or writes outside its buffers, dereferences something missing or treats an object as one of another class.",
     ["inputs", "fault_sequences"], "every truncation point and boundary-value field corruption of a corpus of small assets of every type",
     "Tests only load intact files.",
     ["src/*.cc"], [("bounds-checked readers", "src/Stream.cc"), ("archive readers", "src/archive/"), ("asset loaders", "src/")], ["all load functions"], level="fault_enumeration",
     technique="exhaustive fault enumeration over every truncation point and field corruption, ASan/UBSan + CPU watchdog")

prop("P17", "Script operators compute the documented results",
     "Executing compiled script code gives, for every operator and every operand value, the result of 32-bit two's-complement arithmetic, comparison, bit and logic operations with the documented operand order, and every assignment, array access and jump affects exactly the addressed variable or control flow. Integer division by zero is an error, never a crash.",
     ["programs", "inputs"], "every operator x every operand pair from the boundary set, every instruction sequence up to the depth bound over a small symbol table",
     "No script sample is available to the tests, so the interpreter is not tested at all.",
     ["src/DaedalusVm.cc", "src/DaedalusScript.cc"], [("DaedalusVm::exec", "src/DaedalusVm.cc")], ["DaedalusVm::call_function"],
     level="model_checking", technique="bounded exhaustive program enumeration; lockstep with an independent reference interpreter")

prop("P18", "Script calls keep the stack and machine state consistent",
     "Whatever a script function or host callback does — return normally, leave extra values, fail in the middle or call back into the machine — the caller gets exactly the declared result, the machine's stack depth, active instance and current function are as before the call, and later calls behave as on a fresh machine. The strings and instances a host callback was given stay valid and unchanged until it returns, and results can be asked for as any type the declaration allows.",
     ["histories", "programs", "fault_sequences"], "every call history up to the depth bound over functions, externals, overrides and failure points",
     "The interpreter has no tests in this checkout.",
     ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"], [("call frames, StackGuard, unsafe_call", "src/DaedalusVm.cc")], ["DaedalusVm::call_function"],
     level="model_checking", technique="explicit enumeration of call histories with failure injection at each callback, invariant + differential with fresh VM")

prop("P19", "Typed script data access is checked and isolated",
     "Reading or writing a script variable or a host-backed instance member through a symbol yields or changes exactly the addressed element of the given type, for every index and every instance; a wrong type, out-of-range index, missing or foreign instance, or a script's assignment to a constant, is rejected without changing anything.",
     ["inputs", "histories"], "every symbol kind x access type x index x context x const-ness; every write/read sequence to the depth bound",
     "No script tests run in this checkout.",
     ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"], [("DaedalusSymbol::get_*/set_*, type checks", "src/DaedalusScript.cc")], ["DaedalusSymbol"],
     technique="exhaustive enumeration of access kinds and access sequences against a typed-store model")

prop("P20", "Compiled scripts load and symbols are found",
     "Every well-formed compiled script loads with all symbols, their attributes, initial values and code as stored; each symbol is found by its index, each function, instance and prototype by its address, and each named symbol by its name in any letter case, also after the script was handed to a virtual machine, while unknown ones, such as those of a script the object held before, are reported absent; parameters, local variables, class members and the instances of a class are found by their relations.",
     ["inputs", "histories"], "every small symbol table over all symbol types/flags/counts x lookups",
     "No script sample is available to the tests.",
     ["src/DaedalusScript.cc"], [("DaedalusScript::load, find_symbol_by_*", "src/DaedalusScript.cc")], ["DaedalusScript"],
     technique="exhaustive enumeration of small symbol tables encoded by an independent writer, loaded by the real code")

prop("P21", "Independent objects can be used from different threads",
     "Loading, saving or executing independent assets on different threads at the same time gives each thread the same results as running alone, under every interleaving.",
     ["schedules"], "every pair of library operations x every interleaving up to the preemption bound at instrumented scheduling points",
     "Tests are single threaded.",
     ["src/Logger.cc", "src/Archive.cc", "src/*.cc"], [("absence of shared mutable state", "src")], ["all load/save functions"],
     technique="controlled-scheduler exploration of two-thread harnesses on the real code with scheduling points at I/O calls, plus a ThreadSanitizer pass")

prop("P22", "Archive files are well formed whatever the clock says",
     "An archive written while the wall clock advances to any later date between any two steps is still well formed and reads back with the same contents as one written at a single instant.",
     ["schedules", "inputs", "configurations"], "every pair of (start, end) dates from the calendar-boundary set x every format x every clock step position",
     "Tests run within one instant.",
     ["src/Archive.cc", "src/Misc.cc"], [("header date, header rewritten at the end", "src/Archive.cc")], ["WriteArchive"],
     technique="exhaustive enumeration of clock-answer sequences through an interposed clock")

prop("P23", "Saved games keep everything through any sequence of saves",
     "After any sequence of starting a game, saving to slots, loading from slots and changing worlds or state, loading a slot gives back exactly the metadata, state, world list, worlds and thumbnail that were last saved there, and nothing left over from earlier use of the same object or slot; a load that fails leaves the object as it was, and saving never loses other worlds of the same slot, however its path is spelled, and a save whose files could not be created is reported.",
     ["histories", "configurations"], "every operation history up to the depth bound over two slots and two worlds x game version",
     "Tests load two samples once.",
     ["src/SaveGame.cc"], [("SaveGame::load/save/save_world/load_world", "src/SaveGame.cc")], ["SaveGame"],
     level="model_checking", technique="explicit-state search over save/load histories on the real file system code in a scratch directory against a slot model")

prop("P24", "Animations and morph meshes decode sample-exactly",
     "Loading a model animation or a morph mesh yields for every node and frame exactly the position, rotation and event data that the stored quantised values denote, whatever strings and unknown chunks the file contains and whatever the object held before.",
     ["inputs"], "every 16-bit quantised component value, every small node x frame count, all event kinds",
     "Tests compare a few samples of fixed files.",
     ["src/ModelAnimation.cc", "src/MorphMesh.cc"], [("sample unpacking", "src/ModelAnimation.cc")], ["ModelAnimation::load", "MorphMesh::load"],
     technique="exhaustive enumeration of encoded component values and container shapes against an independent encoder")
prop("P25", "Everything acquired is released again",
     "Memory, file handles and file mappings acquired by loading, saving, mounting or executing are released once the objects involved are gone, whether the operation succeeded or failed at any point, and what a virtual machine holds does not grow with calls that leave its variables as they are, however those calls end. (Objects which own each other in a circle are excepted.)",
     ["inputs", "histories"], "every asset of the corpus, cut at every byte or with any word made absurd; every pair of file operations on every kind of path; every short history of machine operations under every error strategy",
     "Tests never look at what is left over, least of all after failures.",
     ["src/MmapPosix.cc", "src/Stream.cc", "src/Vfs.cc", "src/Archive.cc", "src/DaedalusVm.cc", "src/SaveGame.cc"], [("ownership of mappings and handles", "src/MmapPosix.cc"), ("ownership of mounted data", "src/Vfs.cc")], ["Read::from", "Vfs::mount_disk", "ReadArchive::read_object", "DaedalusVm::call_function"],
     technique="exhaustive enumeration of failure points and operation histories with a monitor of live memory, file handles and mappings")
prop("P26", "Dialogue lines are found by name",
     "After a dialogue library (cutscene library) has been loaded, every line in it is found under exactly its name, with exactly the text, sound and attributes that were stored, however many lines there are and in whatever order they were stored, also after messages were replaced and the library was saved and loaded again; names which are not in the library, such as those of a library the object held before, are reported absent.",
     ["inputs", "histories", "configurations"], "every order of every small set of names (with and without repetitions) x every archive format and game version, every library size up to the bound in several orders, every question from the neighbourhood of these names",
     "Tests look up four names in two fixed files.",
     ["src/CutsceneLibrary.cc"], [("CutsceneLibrary::load sorts, block_by_name searches", "src/CutsceneLibrary.cc"), ("CutsceneBlock::get_message/set_message", "src/CutsceneLibrary.cc")], ["CutsceneLibrary::block_by_name", "CutsceneBlock::get_message"],
     technique="exhaustive enumeration of small libraries in every stored order, encoded independently, against a map model")

prop("P27", "Log messages reach exactly the chosen receiver",
     "After any sequence of choosing receivers and levels, a message is delivered to the receiver chosen last, exactly once, with its level, its origin and its complete text (texts of 4094 bytes or more may be cut off at the end), if and only if its level is at or below the chosen one; without a receiver nothing happens.",
     ["histories", "inputs"], "every history of receiver and level choices up to the depth bound x every message level, every message length up to and beyond the limit",
     "Tests do not look at log messages.",
     ["src/Logger.cc", "include/zenkit/Logger.hh"], [("Logger::set/set_default/logv", "src/Logger.cc")], ["Logger::log", "Logger::set"],
     level="model_checking", technique="explicit enumeration of configuration histories on the real code against a state model")
