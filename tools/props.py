def mech(*xs):
    return [{"name": n, "where": w} for n, w in xs]


LN = ("Decided on the inlined control-flow graphs / resolved syntax trees of the current sources; sound for the constructs listed in DESIGN.md, "
      "nothing is executed.")

PROPS = [
    dict(id="C01", title="Every on-disk record has its published byte layout, read and written alike",
         statement="Each record of the supported BSP formats and sidecar files is written as exactly the published sequence of little-endian fields (order, width, kind), "
                   "every field exactly once, and is read back by the same sequence into the same fields. Scalars of every width are moved whole and byte-swapped exactly when the "
                   "stream's byte order differs from the machine's.",
         quantifier=dict(over=["inputs"], text="for every value of every record of every supported format"),
         why_tests_cant="The tests load a few sample maps per format; a swapped pair of fields, a wrong width or a missing field in a rarely used record (Hexen II models, BSP2-RMQ leafs, Qbism brush sides, areas) goes unnoticed, and an error made alike in reader and writer round-trips.",
         anchors=dict(files=["include/common/bspfile_common.hh", "include/common/bspfile_q1.hh", "include/common/bspfile_q2.hh", "common/bspfile_q1.cc", "common/bspfile_q2.cc",
                             "common/bspfile_generic.cc", "include/common/cmdlib.hh", "common/cmdlib.cc"],
                      mechanism=mech(("stream_data/stream_read/stream_write members of the record types", "common/bspfile_q1.cc, common/bspfile_q2.cc, common/bspfile_generic.cc, include/common/bspfile_*.hh"),
                                     ("operator<= and operator>= on streams", "include/common/cmdlib.hh")), hook_needed=None),
         technique="serialisation-automaton equivalence of reader and writer plus a frozen table of published layouts", level_note=LN),
    dict(id="C02", title="The lump directory is read and written symmetrically with published lump numbers",
         statement="For every supported BSP version each lump is stored under its published number, read into the member it was written from, and nothing of the map is left out. "
                   "Every directory entry records the offset of the first and the count of exactly the data bytes of its lump, data is padded to four bytes, and the directory is complete in "
                   "the finished file. The element sizes used to split lumps are those of the records stored in them. "
                   "Extension (BSPX) lumps are all written, found again by the reader, read back whole under the same name, and a new one replaces the old one of its name.",
         quantifier=dict(over=["inputs", "configurations"], text="for every map and every output format"),
         why_tests_cant="Tests write and reload a handful of maps in the common formats; a lump dropped, mis-numbered or mis-sized in one of nine versions, or only when a lump has an unaligned length, is not sampled.",
         anchors=dict(files=["common/bspfile.cc", "include/common/bspfile.hh", "include/common/bspfile_q1.hh", "include/common/bspfile_q2.hh"],
                      mechanism=mech(("LoadBSPFile, lump_reader, ReadQ1BSP, ReadQ2BSP", "common/bspfile.cc"), ("WriteBSPFile, bspfile_t::write_lump, write_bsp, write_bspx", "common/bspfile.cc"),
                                     ("bspversion_t tables", "common/bspfile.cc"), ("ConvertBSPFormat", "common/bspfile.cc")), hook_needed=None),
         technique="value-set dataflow over the version dispatch; path typestate of lump writers", level_note=LN),
    dict(id="C03", title="Converting between a BSP format and the generic form loses and mixes up nothing",
         statement="Every field of every record the target format can hold is filled from the same field of the source record, and converting to the generic form and back takes each field to itself. "
                   "Every element of every lump is converted, and no field of the result is left at its default when the source has it.",
         quantifier=dict(over=["inputs"], text="for every record of every map, in every pair of format and generic form"),
         why_tests_cant="Equality of a few re-saved maps does not separate fields that hold equal values in those maps, and most formats are never converted in tests.",
         anchors=dict(files=["common/bspfile_q1.cc", "common/bspfile_q2.cc", "common/bspfile.cc", "common/bspfile_generic.cc"],
                      mechanism=mech(("conversion constructors and conversion operators of the record types", "common/bspfile_q1.cc, common/bspfile_q2.cc"),
                                     ("ConvertQ1BSPToGeneric and siblings, CopyArray", "common/bspfile.cc")), hook_needed=None),
         technique="field-provenance dataflow through conversion constructors and operators", level_note=LN),
    dict(id="C04", title="A map that exceeds the limits of the output format is never silently altered",
         statement="When a number of the map does not fit its field in the requested BSP format, the conversion reports failure and leaves the map as it was; a value that fits is stored unchanged, "
                   "and no two values are stored as the same one. qbsp then writes the extended-limits format of the same game, only if there is one and upgrading is allowed, and otherwise ends with "
                   "an error; it never writes a file after a failed conversion.",
         quantifier=dict(over=["inputs", "configurations"], text="for every map, every field value and every output format"),
         why_tests_cant="Limits lie at 2^15 and 2^16 elements in dozens of fields; the tests' maps are far below all of them.",
         anchors=dict(files=["include/common/numeric_cast.hh", "common/bspfile.cc", "common/bspfile_q1.cc", "common/bspfile_q2.cc", "qbsp/writebsp.cc"],
                      mechanism=mech(("numeric_cast, array_cast", "include/common/numeric_cast.hh"), ("ConvertBSPFormat, CopyArray", "common/bspfile.cc"),
                                     ("bsp29_dclipnode_t::downcast", "common/bspfile_q1.cc"), ("WriteBSPFile", "qbsp/writebsp.cc")), hook_needed=None),
         technique="piecewise-affine interpretation of casts, provenance dataflow and typestate exploration", level_note=LN),
    dict(id="C06", title="Visibility rows are compressed and expanded inside their buffers",
         statement="Expanding a run-length coded visibility row never reads past the end of the compressed data nor writes past the end of the row, whatever the bytes are. "
                   "Compressing a row reads only that row and emits only repeat counts from 1 to 255.",
         quantifier=dict(over=["inputs"], text="for every compressed byte string and every visibility row of every size"),
         why_tests_cant="Only well-formed visdata from real compiles is expanded in tests; truncated or hostile rows and runs longer than 255 zero bytes are not sampled.",
         anchors=dict(files=["common/bspfile.cc", "common/bsputils.cc", "vis/soundpvs.cc", "vis/vis.cc"],
                      mechanism=mech(("DecompressRow/DecompressVis and CompressRow", "common/bspfile.cc"), ("their callers", "common/bsputils.cc, vis/soundpvs.cc, vis/vis.cc, bspinfo")), hook_needed=None),
         technique="linear-inequality dataflow (bounds obligations) on inlined CFGs", level_note=LN),
    dict(id="C07", title="A result file that could not be written completely ends the tool with an error",
         statement="When a compiled map, vis state, portal file, extended-texinfo sidecar, .lit/.lux file, map description (JSON), saved or converted map source, or file extracted by bsputil "
                   "cannot be opened or cannot be written completely, the tool ends with an error instead of reporting success.",
         quantifier=dict(over=["fault_sequences"], text="for every result file and every write, flush or close that fails"),
         why_tests_cant="Tests never run out of disk space; buffered streams lose the error silently unless the program flushes and tests the stream on every path.",
         anchors=dict(files=["common/bspfile.cc", "vis/state.cc", "qbsp/prtfile.cc", "qbsp/writebsp.cc", "light/litfile.cc", "common/bspinfo.cc", "maputil/maputil.cc", "qbsp/map.cc", "bsputil/bsputil.cc"],
                      mechanism=mech(("WriteBSPFile", "common/bspfile.cc"), ("SaveVisState", "vis/state.cc"), ("WritePortalfile", "qbsp/prtfile.cc"), ("WriteExtendedTexinfoFlags", "qbsp/writebsp.cc"),
                                     ("WriteLitFile, WriteLuxFile", "light/litfile.cc"), ("serialize_bsp", "common/bspinfo.cc"), ("maputil_main", "maputil/maputil.cc"), ("ConvertMapFile", "qbsp/map.cc"), ("bsputil_main", "bsputil/bsputil.cc")), hook_needed=None),
         technique="typestate analysis of output streams on inlined control-flow graphs", level_note=LN),
    dict(id="C08", title="A saved vis state is replaced only by a complete one and resumed only if it fits",
         statement="The previous vis state stays in place until the new one has been written completely, and is discarded only after the finished map was written. "
                   "Vis resumes from a state only if every identifying header value equals the present one, the file is not older than the portal file and every read succeeded; "
                   "what was saved (state, counts and packed rows) is loaded back unchanged into the same place, and portals that were in progress are started again.",
         quantifier=dict(over=["crash_points", "histories"], text="for every interruption of vis and every state file found at start-up"),
         why_tests_cant="Tests never interrupt vis, fill the disk or resume from a stale, foreign, truncated or damaged state.",
         anchors=dict(files=["vis/state.cc", "vis/vis.cc"], mechanism=mech(("SaveVisState, CompressBits", "vis/state.cc"), ("LoadVisState, DecompressBits, CopyLeafBits", "vis/state.cc"),
                      ("CleanVisState", "vis/state.cc"), ("vis_main", "vis/vis.cc")), hook_needed=None),
         technique="typestate and provenance analysis of the save, load and discard paths", level_note=LN),
    dict(id="C09", title="Truncated, garbled or inconsistent portal files are rejected before use",
         statement="No value read from a portal file is used, and no portal file is accepted, unless the reads that produced it succeeded; reading always ends. "
                   "Leaf and cluster numbers outside the range the file announces, or a file with more leafs than the map, are rejected, so nothing is written outside the leaf arrays.",
         quantifier=dict(over=["inputs"], text="for every portal file, well-formed or not"),
         why_tests_cant="Tests only read portal files qbsp has just written; cut-off files, garbage and off-by-one leaf numbers are not sampled.",
         anchors=dict(files=["common/prtfile.cc", "vis/vis.cc"], mechanism=mech(("LoadPrtFile", "common/prtfile.cc"), ("LoadPortals", "vis/vis.cc")), hook_needed=None),
         technique="input-stream typestate product with linear-inequality dataflow", level_note=LN),
    dict(id="C10", title="Command line outranks map, map outranks game, game outranks default settings",
         statement="A setting changes only when the new value comes from a source of equal or higher rank (default < game target < map < command line) than the one it has, and it then remembers that "
                   "source; resetting and copying carry value and source together, and numbers are kept within the setting's limits. A value that cannot be parsed leaves the setting as it was; "
                   "on the command line an unknown option or unparsable value ends in an error. Values computed for a game or from other options never replace what the user chose.",
         quantifier=dict(over=["inputs", "configurations", "histories"], text="for every setting type, every order of assignments and every source"),
         why_tests_cant="There are some two dozen setting types and hundreds of settings with four sources each; tests try a few orders on a few types.",
         anchors=dict(files=["include/common/settings.hh", "common/settings.cc", "qbsp/qbsp.cc", "light/light.cc", "include/qbsp/qbsp.hh", "include/light/light.hh"],
                      mechanism=mech(("setting_base::change_source", "common/settings.cc"), ("set_value, parse, reset, copy_from overrides", "include/common/settings.hh, common/settings.cc, qbsp/qbsp.cc, light/light.cc"),
                                     ("setting_container::parse, set_setting, set_settings", "common/settings.cc"), ("postinitialize, FixupGlobalSettings", "qbsp/qbsp.cc, light/light.cc")), hook_needed=None),
         technique="finite-order exploration of the rank rule and typestate (grant-before-write) analysis of all setting classes", level_note=LN),
    dict(id="C12", title="Entity text survives reading and writing, apart from what a tool computes",
         statement="Reading the entities of a map or compiled map and writing them again gives the same entities in the same order, with every key and value back character for character (escapes kept; only blanks at a key's ends are trimmed). "
                   "Looking a key up (exact name) gives the value last set, and setting, removing or renaming one key leaves the others alone. "
                   "The map compiler leaves out only the detail and group entities it merges into the world and the editor's private keys; the light compiler only turns the bold escape into bold text; tools change only the keys they document.",
         quantifier=dict(over=["inputs", "histories"], text="for every entity text and every sequence of key operations"),
         why_tests_cant="Entity text is free-form: any class, key, escape and order; tests read a handful of entities and look up a few keys.",
         anchors=dict(files=["common/entdata.cc", "include/common/entdata.h", "common/parser.cc", "common/bspfile.cc", "qbsp/map.cc", "qbsp/writebsp.cc", "light/entities.cc", "light/light.cc", "common/mapfile.cc"],
                      mechanism=mech(("entdict_t get/set/remove/rename/find, EntData_Parse, EntData_Write", "common/entdata.cc"), ("parser_t::parse_token", "common/parser.cc"),
                                     ("WriteEntitiesToString, ParseEpair", "qbsp/map.cc"), ("WriteEntitiesToString, ParseEscapeSequences", "light/entities.cc"), ("string lump reader and writer", "common/bspfile.cc")), hook_needed=None),
         technique="symbolic summaries of the dictionary, readers and writers (text each path emits or keeps), and inventory of every key changed", level_note=LN),
    dict(id="C13", title="Extended surface properties reach the light compiler unchanged",
         statement="Every surface property that differs from its default is written by the compiler into the extended surface-flag file under its own key, in the entry of that surface's own texinfo number, "
                   "and the light compiler reads each key back into the same property of the same texinfo with the same type; every property the light compiler consults is carried. "
                   "Whether a surface needs an entry is decided over all of its properties, a file left by an earlier compile never survives, and an entry outside the map's texinfos is never applied.",
         quantifier=dict(over=["inputs"], text="for every surface and every combination of its properties"),
         why_tests_cant="There are 27 independent properties; tests compile a few maps that use a few of them, and a wrong key or condition silently falls back to the default lighting.",
         anchors=dict(files=["qbsp/writebsp.cc", "light/light.cc", "common/bspfile_common.cc", "include/common/bspfile_common.hh"],
                      mechanism=mech(("WriteExtendedTexinfoFlags", "qbsp/writebsp.cc"), ("LoadExtendedTexinfoFlags", "light/light.cc"), ("surfflags_t::needs_write, operator<", "common/bspfile_common.cc")), hook_needed=None),
         technique="typestate exploration per property of writer and reader, with key/field/type agreement", level_note=LN),
    dict(id="C14", title="The map description lists every field of the map under its own name",
         statement="The JSON description of a map contains each array that is not empty, one record per element, and each published field of a record under its published key, taken from exactly that field. "
                   "Byte buffers are dumped completely with two hexadecimal digits per byte, and map strings in any character set do not prevent the dump.",
         quantifier=dict(over=["inputs"], text="for every map of every format"),
         why_tests_cant="The dump has some seventy fields over seventeen record types; tests look at a few of them on a few maps, and a crossed field or a skipped record of a rarely used array looks plausible.",
         anchors=dict(files=["common/bspinfo.cc"], mechanism=mech(("serialize_bsp, serialize_bspxbrushlist, serialize_bspx_decoupled_lm, hex_string", "common/bspinfo.cc")), hook_needed=None),
         technique="access-path resolution of every JSON store against the published schema, with per-iteration and non-emptiness path exploration", level_note=LN),
    dict(id="C16", title="Vis hands every portal to one thread and changes shared portals under the lock",
         statement="While vis works in parallel, each portal is chosen and marked as taken in one critical section, is marked done only after its row was computed, and the candidate sets of "
                   "idle portals, portal states and the saved state are changed or written out only with the portal lock held; rows are computed without the lock. "
                   "Every lock in the tools is released on all paths, including errors, and never taken twice by one thread.",
         quantifier=dict(over=["schedules"], text="for every interleaving of the worker threads and every error raised in them"),
         why_tests_cant="Races between worker threads need a particular interleaving that small test maps practically never hit.",
         anchors=dict(files=["vis/vis.cc", "vis/flow.cc", "vis/state.cc", "light/phong.cc", "light/entities.cc", "common/log.cc", "common/bspfile.cc"],
                      mechanism=mech(("GetNextPortal, UpdateMightsee, PortalCompleted, LeafThread, CalcPortalVis", "vis/vis.cc"), ("PortalFlow", "vis/flow.cc")), hook_needed=None),
         technique="lock-set typestate analysis on inlined control-flow graphs", level_note=LN),
    dict(id="C17", title="Parallel loops and tasks are free of data races on shared state",
         statement="In every parallel loop and task of the tools, storage written by one iteration is private to its thread, belongs to its own index or element, is atomic, or is only touched with "
                   "one common lock held; no iteration reads what another may be writing, and tasks running side by side work on disjoint data. "
                   "Shared counters and maxima are updated atomically, and a thread waiting for a spin lock enters only when the lock is free.",
         quantifier=dict(over=["schedules"], text="for every interleaving of the worker threads, in every parallel loop and task group"),
         why_tests_cant="A lost update or torn container needs a particular interleaving; the tests run tiny maps, mostly single-threaded in effect, and cannot enumerate schedules.",
         anchors=dict(files=["light/light.cc", "light/bounce.cc", "light/surflight.cc", "light/phong.cc", "light/write.cc", "light/lightgrid.cc", "light/ltface.cc", "light/entities.cc", "qbsp/brushbsp.cc",
                             "qbsp/portals.cc", "qbsp/tree.cc", "qbsp/csg.cc", "qbsp/tjunc.cc", "qbsp/map.cc", "vis/vis.cc", "vis/flow.cc", "vis/soundpvs.cc", "common/decompile.cc",
                             "common/bspfile.cc", "common/log.cc"],
                      mechanism=mech(("bodies of logging::parallel_for, logging::parallel_for_each, tbb::parallel_for, tbb::parallel_for_each, tbb::task_group::run", "light, qbsp, vis, common"),
                                     ("GetFileSpace", "light/write.cc"), ("count_contents_in_stats", "common/bspfile.cc"), ("percent", "common/log.cc")), hook_needed=None),
         technique="interprocedural access-path effect summaries with lock sets (mod/ref analysis)", level_note=LN),
    dict(id="C18", title="Vis drops a view through a portal only for a geometric reason",
         statement="While flowing through portals, vis discards a portal only because it is already ruled out, shows nothing new, faces back in the same plane, or is clipped away "
                   "entirely; every clip keeps the side that lies on the way from the source through the pass portal to the target, and every separating plane of the selected detail level "
                   "is built from, oriented by and applied to the right portals. A portal that passes is flowed through with the clipped windings, and its leaf is marked visible; the "
                   "rough pre-pass and the target checks likewise reject a portal only for such a reason, looking at every portal and every winding point.",
         quantifier=dict(over=["inputs"], text="for every set of portals, every path through them and every detail level"),
         why_tests_cant="An over-aggressive rejection shows only for particular portal shapes met in a particular order; the tests compile a few small maps and compare a handful of leafs.",
         anchors=dict(files=["vis/flow.cc", "vis/vis.cc", "include/vis/vis.hh", "include/vis/leafbits.hh"],
                      mechanism=mech(("RecursiveLeafFlow, VisTests, ClipToSeparators", "vis/flow.cc"), ("TargetChecks, IterativeTargetChecks", "vis/flow.cc"),
                                     ("BasePortalThread, SimpleFlood", "vis/flow.cc"), ("ClipStackWinding", "vis/vis.cc"),
                                     ("viswinding_t::set_winding_sphere, distFromPortal", "include/vis/vis.hh"), ("leafbits_t", "include/vis/leafbits.hh")), hook_needed=None),
         technique="path-sensitive abstract interpretation over roles of windings and planes", level_note=LN),
    dict(id="C20", title="Vis publishes every cluster's complete view where its leaves look for it",
         statement="The visibility row vis writes for a cluster is the union of the views of all portals leading out of it, every one finished, plus the cluster itself, spread over the leaves by the "
                   "clusters the portal file gives them; it is compressed whole and without loss, and the offset recorded for the cluster and its leaves is where it starts. Each portal of the file is entered in both "
                   "leaves it joins with its winding and plane facing the right way, and a portal not yet started loses a candidate leaf only when nothing in that leaf sees or may still see back. "
                   "For Quake II the hearable row of a cluster is the union of the visible rows of everything it sees.",
         quantifier=dict(over=["inputs", "schedules"], text="for every portal file, every assignment of leaves to clusters and every order in which portals finish"),
         why_tests_cant="The tests publish rows of a few maps and look at some bits; a wrong offset, a lost last byte or a crossed leaf shows only for particular leaf counts, cluster maps and orders of completion.",
         anchors=dict(files=["vis/vis.cc", "vis/soundpvs.cc", "common/bspfile_generic.cc"],
                      mechanism=mech(("ClusterFlow, CalcVis, CalcPortalVis, LeafThread, LoadPortals, vis_main", "vis/vis.cc"), ("PortalCompleted, UpdateMightsee", "vis/vis.cc"),
                                     ("CalcPHS", "vis/soundpvs.cc"), ("mvis_t::set_bit_offset, get_bit_offset", "common/bspfile_generic.cc")), hook_needed=None),
         technique="symbolic loop summaries (path conditions and ordered memory effects in canonical form) compared with the published layout", level_note=LN),
    dict(id="C21", title="Every saved lightmap has its own place in the light data and is found there",
         statement="Each lightmap the light tool saves has its own part of the light data: the room set aside for a face is its luxels times its number of styles, lies within the data allocated, "
                   "and its face record (or scaled or decoupled record) holds exactly the offset its maps were saved at, or -1 when the face has no light. "
                   "The record's style list names the saved maps in order with every other slot marked unused; map k starts k lightmap sizes after the offset, colours and directions take three bytes per luxel at three times the offset, "
                   "and every luxel is the one computed for its position, scaled into 0 to 255 first. "
                   "The .lit and .lux files and the RGBLIGHTING and LIGHTINGDIR lumps hold exactly three bytes for each luxel of the map's light data.",
         quantifier=dict(over=["inputs", "configurations", "schedules"], text="for every map, face, set of styles and combination of light options, whichever worker saves which face first"),
         why_tests_cant="The tests light a few small maps and compare samples; an offset off by one map, a buffer indexed with the wrong unit or a style slot left over shows only for faces with several styles, for scaled or decoupled records, or with -lux or -bspxlit.",
         anchors=dict(files=["light/write.cc", "light/light.cc", "light/ltface.cc"],
                      mechanism=mech(("GetFileSpace, SaveLightmapSurfaces, SaveLightmapSurface, SaveLitOnlyLightmapSurface", "light/write.cc"),
                                     ("WriteSingleLightmap, WriteSingleLightmap_FromDecoupled, IntegerDownsampleImage, LightFace_ScaleAndClamp", "light/write.cc"),
                                     ("WriteLitFile, WriteLuxFile, CalculateLightmapStyles", "light/write.cc")), hook_needed=None),
         technique="symbolic function summaries (offset polynomials, path conditions) over the saving stage, per combination of buffers in use", level_note=LN),
    dict(id="C22", title="Damaged input is never read past its end, and what could not be read is not used",
         statement="When a BSP file, BSPX lump, texture, pak, wad, lit file or entity text ends early or states sizes larger than it has, no bytes past its end are read, every block read fits the memory it is read into, "
                   "and a value whose read failed, or was not yet tested, is never used, listed, stored or returned. "
                   "A stream over memory refuses reads, writes and seeks that leave its bytes and reports how many bytes it moved; the text tokenizer never looks at or moves past the end of its text, which need not end with a newline or NUL; "
                   "fixed-length names that fill their field end there, and the first or last character of a parsed string is taken only when there is one. "
                   "(Numbers that name other lumps' elements are not part of this property.)",
         quantifier=dict(over=["inputs"], text="for every byte content and length of every file read, truncated at any point"),
         why_tests_cant="The tests load complete files only; a file cut at one of its thousands of offsets, a full-length name or a text without a final newline reads stale or foreign memory without failing.",
         anchors=dict(files=["common/cmdlib.cc", "common/parser.cc", "common/bspfile.cc", "common/bspfile_generic.cc", "common/fs.cc", "common/imglib.cc", "common/bsputils.cc", "common/bspxfile.cc"],
                      mechanism=mech(("membuf, memstream", "common/cmdlib.cc"), ("parser_t::parse_token", "common/parser.cc"), ("lump_reader, LoadBSPFile, isHexen2", "common/bspfile.cc"),
                                     ("miptex_t::stream_read, mvis_t::stream_read, dmiptexlump_t::stream_read", "common/bspfile_generic.cc"), ("pak_archive, wad_archive", "common/fs.cc"),
                                     ("load_wal, load_mip, load_tga", "common/imglib.cc")), hook_needed=None),
         technique="linear invariants of the memory stream and text positions; typestate of every input stream (tested / untested / failed) with the values pending on it; size facts for block reads", level_note=LN),
    dict(id="C24", title="Every index and range in the map qbsp writes refers to the element meant",
         statement="In the map qbsp assembles, every plane, texture record, edge, face, node, leaf, clip node, brush and model is referred to by the index at which it was stored, and a face's edge list, "
                   "a node's face range, a leaf's surface and brush lists, a brush's side list, an area's portal list and a model's face range cover exactly the elements stored for it. "
                   "A face's edges join its vertices in order and around; an edge is walked backwards (negative number) only when it was stored the other way round for a face of equal contents, and edge 0 and leaf 0 are reserved. "
                   "Children keep their front/back order and the convention -1 - leaf, and solid leaves share leaf 0 except in Quake II.",
         quantifier=dict(over=["inputs", "configurations"], text="for every tree, every set of faces, brushes and areas, and every target game and option"),
         why_tests_cant="The tests load a few compiled maps and look at selected elements; an index taken after something else was stored, or a range that misses its last element, shows only for particular trees and option combinations.",
         anchors=dict(files=["qbsp/writebsp.cc", "qbsp/faces.cc", "qbsp/qbsp.cc", "qbsp/portals.cc"],
                      mechanism=mech(("ExportMapPlane, ExportMapTexinfo, ExportClipNodes, ExportLeaf, ExportDrawNodes, BeginBSPFile", "qbsp/writebsp.cc"),
                                     ("EmitVertex, EmitFaceVertices, GetEdge, EmitEdges, EmitFaceFragment, EmitFaces_R, EmitFaces", "qbsp/faces.cc"),
                                     ("ExportBrushList_r, ProcessEntity", "qbsp/qbsp.cc"), ("EmitAreaPortals", "qbsp/portals.cc")), hook_needed=None),
         technique="symbolic function summaries with interprocedural write sets (versioned container sizes), plus dominance of export stages", level_note=LN),
    dict(id="C28", title="Nothing in a list is used through a reference that has outlived it",
         statement="While a program reads, compiles, lights or analyses a map, every reference, pointer, iterator and range loop a function holds into a list (array, string, polygon, table) is used only as long as the element it designates is still there: "
                   "not after the list has ended, grown, shrunk, been cleared or reassigned, or the element been erased, whether that happens in the same function or in one it calls, on any path and in any iteration. "
                   "So no result depends on whether a list happened to be moved in memory, and no input, however large, makes a tool read or write freed memory this way.",
         quantifier=dict(over=["inputs", "configurations"], text="for every input size and every path through every function of the tools"),
         why_tests_cant="Whether a list moves depends on its capacity at that moment, and freed memory usually still holds the old value: a small test map almost never shows a stale reference.",
         anchors=dict(files=["qbsp/map.cc", "qbsp/writebsp.cc", "qbsp/portals.cc", "light/ltface.cc", "light/entities.cc", "common/entdata.cc", "common/bspinfo.cc"],
                      mechanism=mech(("ProcessMapBrushes, FindTexinfo, LoadMapFile, mapdata_t::add_plane", "qbsp/map.cc"), ("ExportDrawNodes, ExportClipNodes, ExportMapTexinfo", "qbsp/writebsp.cc"),
                                     ("Lightmap_ForStyle, LightFace_Entity", "light/ltface.cc"), ("entdict_t::rename, entdict_t::remove", "common/entdata.cc")), hook_needed=None),
         technique="interprocedural invalidation dataflow: typestate of references, pointers and iterators against list-change summaries over access paths", level_note=LN),
]

NA = [
    dict(id="C50", title="No leaf is left out of another leaf's potentially visible set by rounding",
         statement="If any point of one leaf can be seen from any point of another through the portals, the visibility data vis writes lists the second leaf as visible from the first. "
                   "No choice of detail level, epsilon or winding limit may lose such a pair.",
         quantifier=dict(over=["inputs", "configurations"], text="for every set of portals and every detail level"),
         why_tests_cant="A lost pair depends on particular portal geometry; tests compare a handful of small maps.",
         anchors=dict(files=["vis/flow.cc", "common/polylib.cc"], mechanism=mech(("RecursiveLeafFlow, ClipToSeparators", "vis/flow.cc"), ("clip", "include/common/polylib.hh")), hook_needed=None),
         reason="The reasons vis has for discarding a view are decided by C18; that none of them discards too much is a statement about rounding errors of clipped windings (chains of divisions by differences of distances) "
                "that no interval or affine argument over the source bounds: the error depends on the angle between planes, which the input chooses."),
    dict(id="C51", title="The compiled tree classifies every point as the brushes do",
         statement="For every point that is not on a brush side, the leaf of the compiled map that contains the point has the contents the map's brushes, applied in their order, give it. "
                   "The clipping hulls do the same for the brushes expanded by the hull's size.",
         quantifier=dict(over=["inputs", "configurations"], text="for every map and every compile option"),
         why_tests_cant="Tests probe selected points of selected maps; a lost or misplaced piece of a brush is found only at the right point of the right map.",
         anchors=dict(files=["qbsp/brushbsp.cc", "qbsp/csg.cc", "qbsp/tree.cc"], mechanism=mech(("BrushBSP, SplitBrush", "qbsp/brushbsp.cc"), ("CSGFaces", "qbsp/csg.cc"), ("ChopBrushes", "qbsp/brushbsp.cc")), hook_needed=None),
         reason="Whether splitting keeps every point depends on floating-point clipping of arbitrary polyhedra, and on discarding pieces by size and epsilon on purpose; there is no discrete structure in the source that implies it."),
    dict(id="C52", title="Light samples have the brightness the light entities define",
         statement="Each sample is the sum of what every unoccluded light contributes by its attenuation, angle and colour, plus bounced light, within the documented options.",
         quantifier=dict(over=["inputs", "configurations"], text="for every map and every light option"),
         why_tests_cant="Tests compare the brightness of a few luxels of a few maps.",
         anchors=dict(files=["light/ltface.cc", "light/bounce.cc", "light/trace_embree.cc"], mechanism=mech(("LightFace_Entity, GetLightValue", "light/ltface.cc"), ("MakeBounceLights", "light/bounce.cc")), hook_needed=None),
         reason="The values are real-valued sums over rays traced by an external library (Embree) through the map; where each saved value goes is decided by C21 and that workers do not disturb each other by C17."),
    dict(id="C53", title="Converting a map's source keeps its geometry and texture alignment",
         statement="A map saved in another map format describes the same brush planes and projects every texture to the same place, except where the target format cannot express it.",
         quantifier=dict(over=["inputs"], text="for every map source and every pair of formats"),
         why_tests_cant="Tests convert a few brushes; alignment errors show for particular plane directions and rotations.",
         anchors=dict(files=["common/mapfile.cc"], mechanism=mech(("brush_side_t::convert_to, write", "common/mapfile.cc")), hook_needed=None),
         reason="The conversions go through matrix inversions and angle searches whose equivalence holds only up to rounding for each input; which fields are written in which format is structural, but their numeric equivalence is not."),
    dict(id="C54", title="Every tool ends",
         statement="qbsp, vis, light, bspinfo, bsputil and maputil finish on every input, and use memory proportional to it.",
         quantifier=dict(over=["inputs"], text="for every input file and option"),
         why_tests_cant="A test can only show that some inputs finish in some time.",
         anchors=dict(files=["vis/flow.cc", "qbsp/tree.cc", "qbsp/brushbsp.cc"], mechanism=mech(("RecursiveLeafFlow", "vis/flow.cc"), ("MakeTreePortals", "qbsp/portals.cc")), hook_needed=None),
         reason="Termination of the recursive geometry (splitting until no side is left, flowing until nothing new is seen) rests on numeric progress and on sets shrinking; where the measure is discrete (reading loops of the portal file) it is decided as part of C09."),
]
