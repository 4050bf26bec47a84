ENTRY = ("Compile and parse of each entry type are verified for all legal values and list lengths "
         "against the entry's wire-format contract (PyVC verification conditions, z3); the round "
         "trip is their composition. {rest}The stream primitives they call are used through their "
         "contracts (decided by C01/C02). The same contracts are also executed on the real code "
         "over seeded inputs.")
for _p, _r in (("C06", "'fontnames' for names of up to 4 characters (longer ones: bounded). "),
               ("C07", "Numbers of masters 1, 2, 4, 8, 16 (all legal ones). "),
               ("C08", "The whole domain is covered by parts: every section alone, every pair, all together. "),
               ("C09", ""),
               ("C10", "TrueType Zone Deltas for up to 4 deltas (more: bounded). "),
               ("C11", "")):
    LEVEL[_p] = "proof"
    NOTE[_p] = ENTRY.format(rest=_r)

LEVEL["C01"] = "proof"
NOTE["C01"] = ("The postconditions of write_value, write_value_long, read_value and of the methods "
               "StreamWriter.write_value / StreamReader.read_value are discharged for every value, "
               "every prefix and every continuation of the stream (PyVC, z3), with the documented "
               "byte representation as the oracle. The same contracts also run on the real code over "
               "boundary and seeded values.")

LEVEL["C02"] = "proof"
NOTE["C02"] = ("The postconditions of every fixed-width, double, byte and text helper of StreamWriter and "
               "StreamReader are discharged for all values and all stream contents (texts in cp1252 and "
               "utf-8, all lengths). The same contracts also run on the real code over boundary and "
               "seeded values.")

LEVEL["C16"] = "proof"
NOTE["C16"] = ("convert_timestamp, datetime_to_fl, get_master_guides (every master of 1, 2 and 4), "
               "binaryToIntList and intListToBinary (all numbers below 2**32, any start) are proved "
               "against their contracts (PyVC, z3); angles as reals, dates as seconds (datetime is a "
               "trusted dependency). apply_guide_properties: up to 3 guides and 3 properties, any "
               "index, colour and name. Bounded stand-in: more of them, and the UFO export of guides.")

LEVEL["C03"] = "proof"
NOTE["C03"] = ("Proved for all header values, all ids, all sizes below 2**32 and any number of entries: "
               "VfbHeaderCompiler.compile, VfbHeader.read, VfbEntry.header, VfbEntry.read, Vfb.write_bytes "
               "(header and the frames of all entries in order) and Vfb.read_bytes (with and without an end "
               "entry) against the frame layout (PyVC, z3); reading a file that was cut off anywhere in its header or "
               "in the id, size or data behind any number of entries; Vfb.write and Vfb.read through one file "
               "that is opened and closed once; the entries that the reader interprets at once (platform, number of "
               "masters, stem counts). Bounded stand-in: files cut off within such an entry.")

LEVEL["C04"] = "proof"
NOTE["C04"] = ("Each operation is proved against its contract for an arbitrary state of the objects, so that any "
               "history follows by induction on its length: VfbEntry.compile / decompile / merge of drawn masters, "
               "Vfb.compile, Vfb.decompile (also with dropped keys), Vfb.write_bytes and Vfb.read_bytes for any "
               "number of entries in either form, with parsers and compilers as uninterpreted functions of the "
               "current data. Bounded stand-in: histories on the real classes with real entry types against a "
               "model of the file (glyph access, as_dict, in-place edits, files on disk).")

LEVEL["C05"] = "proof"
NOTE["C05"] = ("Proved: BaseParser.parse hands over exactly the bytes of the entry and refuses left-over bytes "
               "whatever the entry's own parser does; VfbEntry.decompile keeps the bytes and marks the file when a "
               "parser fails; every entry parser with a bounded layout refuses any bytes after its data (all "
               "legal data, any left-over bytes); fields of unknown kinds in TrueType info, glyphs and imported data, and "
               "TrueType info fields that occur twice, are refused; FontLab 3 kerning pairs; entries of unknown types. Bounded "
               "stand-in: damaged data, and the entry types whose proof is listed as bounded in C06 to C12.")

LEVEL["C15"] = "proof"
NOTE["C15"] = ("Proved: normalize_hint and normalize_hint_dict (all positions and widths), get_master_hints and "
               "VfbGlyph.resolve_hints / resolve_links (every master of 1, 2 and 4, any number of stems, links and "
               "nodes), VfbGlyph.resolve_hint_sets and build_ps_glyph_hints (up to 3 hint replacements, any number of stems in each "
               "set; sorted(set(...)) and get_point_label by contract). Bounded stand-in: point labels, several "
               "sets for one point and the UFO export, run on seeded glyphs.")

LEVEL["C13"] = "proof"
NOTE["C13"] = ("Proved (PyVC, z3), any classes, flags, glyph orders and kerning tables: check_for_missing_glyphs, "
               "transform_groups (names, glyphs, order and key glyph of every group), build_glyph_to_group_maps (first "
               "group of every glyph and side), _build_groups, rebuild_kerning_groups, UfoKerning._reverse_key_glyph_dict, "
               "_make_name_based_kerning, _is_exception and get_master_kerning (1, 2 and 4 masters). Loop invariants "
               "over dicts seen at an arbitrary key; str.startswith, endswith and strip uninterpreted; no class has the "
               "name of a group that is made. Bounded stand-in: the UFO export and the functions together, against an "
               "independent model, on seeded tables.")

LEVEL["C18"] = "proof"
NOTE["C18"] = ("Proved (PyVC, z3): VfbGlyphPointPen.beginPath / addPoint / endPath / addComponent for any contours of "
               "move, line and quadratic points and any component references, drawn behind any nodes, into every "
               "master of 1, 2 and 4; GlyphCompiler.merge for 1, 2, 4, 8 and 16 masters with any number of nodes "
               "and components, and its refusal of another number of nodes or components. Bounded stand-in: "
               "refusal of other node types, histories of drawing and compiling on the real classes, reading of "
               "glyphs by name. Coordinates are real numbers, glyph names are unique.")

LEVEL["C17"] = "proof"
NOTE["C17"] = ("Proved (PyVC, z3), any stems, zones, deltas and programs: extract_tt_zones, extract_tt_stems, "
               "extract_tt_stem_ppems, extract_tt_stem_ppem_1, merge_zone_information, merge_stem_information (any zone "
               "and stem, by its index), the same of the UFO export (set_tt_zones, set_tt_zone_deltas, set_tt_stem_ppms, "
               "get_tt_stem_ppms, set_tt_stem_ppms_1, set_tt_stems, build_tt_stems_lib), transform_stem_rounds, "
               "TTGlyphHints.get_tt_glyph_hints, get_xml_tth, get_point_label (glyphs with an outline, composites of up to 3) "
               "and extract_truetype_hinting (each entry alone, all in two orders). Names are unique, "
               "the first bearer keeps its name; that the loops that look for a free name end is assumed. Bounded "
               "stand-in: the written UFO, on seeded fonts.")

LEVEL["C14"] = "proof"
NOTE["C14"] = ("Proved (PyVC, z3) for every outline that starts with a move, any number of nodes, every master of 1, 2 and "
               "4, outline and mask: the contours that UfoMasterGlyph._extract_master_contours extracts and the labels "
               "that are given up, by an invariant of the loop over the nodes (relation to specs/contours.py); its "
               "components, for any number (scales as real numbers); VfbGlyph.draw, segments and components, for any number "
               "of nodes (invariant); drawPoints and len of VfbGlyph and VfbGlyphMaster through the whole export of the "
               "glyph for outlines of up to 3 nodes, whatever was drawn before. Bounded stand-in: metrics, access "
               "through Vfb and the UFO, longer outlines through drawPoints.")

LEVEL["C12"] = "proof"
NOTE["C12"] = ("Proved (PyVC, z3), any number of rows, bytes and chunks, both platforms: _encode_bitmap (well-formed chunks "
               "that stand for exactly the bytes of the rows; invariant of the loop over itertools.groupby, whose contract "
               "is trusted), flush_buffer, _read_bitmap, _decode_bitmap; compile and parse of both entries with the fields, "
               "the announced length, inversion and rows, modulo the contracts of _encode_bitmap / _decode_bitmap. "
               "Encoded images below 2 GiB. Not verified: the text of the preview.")

LEVEL["C20"] = "proof"
NOTE["C20"] = ("Proved (PyVC, z3): Vfb._decompile_glyphs for any number of entries of any types (invariant: every glyph is "
               "added under a name that was free, its own one if that was free, otherwise with a number; the order "
               "follows; links and hinting options go to the glyph before them) and VfbToUfoBuilder.add_current_glyph in "
               "any state. Assumed: the loops that look for a free number end. Access through Vfb, VfbMaster and "
               "VfbGlyphMaster (keys, items, in, [], order) is proved for up to 3 glyphs under any names. "
               "Bounded stand-in: files, the written UFO.")

LEVEL["C19"] = "proof"
NOTE["C19"] = ("Proved (PyVC, z3) for any number of lines: rename_kern_classes_in_feature_code (relation to "
               "specs/features.py), OpenTypeStringParser.build_fea_dict and ._parse (loop invariants; empty lines at the "
               "end by an invariant of the while loop, whose end is assumed). Text methods and the regular expressions "
               "are uninterpreted functions of the text: what the expressions match, idempotence, writing and reading "
               "again rest on the bounded stand-in (seeded lines and texts on the real classes).")

LEVEL["C21"] = "proof"
NOTE["C21"] = ("Proved (PyVC, z3): each of the entries behind a glyph (code points, GDEF anchors, image, links, mask, sizes of "
               "the mask, bitmaps, user data, note, positions of anchors, guide properties) through VfbToUfoBuilder.build "
               "from any state of glyph and conversion, with nothing else changed (histories by induction); "
               "UfoMasterGlyph.build (own copies of lib and code points, size of the master), _extract_master_mask_metrics for "
               "any number of masters, _extract_master_anchors for up to 4 anchors and any number of masters; "
               "VfbToUfoBuilder.get_ufo_master for up to 4 glyphs with any data. Trusted: ufoLib2, HashPointPen. "
               "Exhaustive run: all 256 mark colours. Bounded stand-in: whole fonts on the real code.")

LEVEL["C22"] = "proof"
NOTE["C22"] = ("Proved (PyVC, z3): each font info entry through VfbToUfoBuilder.build from any state of the conversion and font "
               "info, with every other attribute unchanged (histories by induction); VfbToUfoInfo.set_tt_info for every key "
               "and all together, fix_underline_position, get_master_info (masters of 1, 2 and 4, with and without hints). "
               "Trusted: the setters of ufoLib2. The entries of the TrueType tables (cvt, prep, fpgm, ttinfo) are proved up to the dispatch. Bounded stand-in: the written font info of whole fonts.")

LEVEL["C23"] = "proof"
NOTE["C23"] = ("Proved (PyVC, z3) for 0 to 4 axes: get_ds_location, add_axis_mappings (whole user coordinates), "
               "fix_masters_count, get_designspace, the entries about axes and masters through VfbToUfoBuilder.build from any "
               "state, get_ufo_masters, write (modulo the file system). Trusted: fontTools.designspaceLib, ufoLib2. "
               "Bounded stand-in: the files of whole fonts, written, read back and overwritten in a scratch directory.")

LEVEL["C24"] = "proof"
NOTE["C24"] = ("Proved (PyVC, z3): VfbEntry.as_dict (any name, bytes, structure or nothing, entry unchanged), Vfb.as_dict with "
               "any number of entries in either form, save_vfb_json and write_vfb_json (what is done to the font in which "
               "order, what is written where), diffvfb (which lines are compared, shown and written). Trusted: orjson, "
               "difflib, argparse, the file system. Bounded stand-in: the written JSON of "
               "fonts with every type of entry, names of all registered entry types, vfbdiff as text and HTML.")

LEVEL["C25"] = "proof"
NOTE["C25"] = ("Proved (PyVC, z3) for all combinations of the declared options and of existing files: vfb2json, vfb2ufo, "
               "vfbcu2qu (what is read, converted and written, with which options, where, in which order, and when "
               "nothing is written), against stand-ins of the argument parser, font, exporter and cu2qu that log "
               "the calls. Trusted: argparse, fontTools.cu2qu, the file system. Bounded stand-in: the commands on "
               "seeded fonts; quadratic outlines against the cubic ones, master by master.")
