"""Regenerates /verif/properties.jsonl (kept as a script only so the text is easy to edit)."""
import json, os
S = "src/vfbLib/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=state or [],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Encoded integers decode to exactly what was encoded, in the shortest form",
 "Every integer that fits the signed (or, when asked for, unsigned) 32-bit range is written in the encoded-number format so that reading it back with the same signedness returns the same integer and leaves the stream directly behind it, whatever follows. The encoding takes one byte for -107..107, two bytes for the rest of -1131..1131 and five bytes (marker 0xFF plus big-endian 32 bit) for everything else or when the long form is requested. A value outside the 32-bit range is refused with an error and writes nothing, and decoding stops with the documented errors on a zero byte, at the end of the data, or on an undefined lead byte.",
 ["inputs"], "all integers, both signednesses, short and long form, every following byte sequence, every lead byte",
 "Tests decode and encode a few dozen literal values; the property ranges over 2^33 values and all range boundaries.",
 ["compilers/value.py", "parsers/value.py", "compilers/base.py", "parsers/base.py"],
 [("write_value / write_value_long", "compilers/value.py"), ("read_value", "parsers/value.py")],
 ["bytes appended to the output stream", "integer returned and position of the input stream"])

prop("C02", "Fixed-width numbers, doubles and strings read back exactly as written",
 "Each fixed-width integer (8, 16 and 32 bit, signed and unsigned) is stored little-endian in exactly its width and reads back as the same integer, and an integer outside its range is refused rather than truncated. Doubles read back bit for bit, length-prefixed strings read back as the same text with nothing consumed beyond them, and a padded string occupies at least the padded length with null bytes added only at the end. Whatever precedes or follows in the stream is unaffected.",
 ["inputs"], "all integers per width and signedness, all doubles, all texts encodable in the stream's encoding, all pad lengths",
 "Tests touch a handful of literals per helper; range edges, empty strings, non-ASCII text and padding longer or shorter than the text are not swept.",
 ["compilers/base.py", "parsers/base.py"],
 [("StreamWriter", "compilers/base.py"), ("StreamReader", "parsers/base.py")],
 ["bytes written per helper call", "value returned per helper call", "stream position"])

prop("C03", "A written VFB file is framed so that reading it yields the same entries",
 "Writing any sequence of entries produces the 44-byte file header followed, for each entry in order, by its numeric id, the size of its data, and exactly that many data bytes; data longer than 65535 bytes is marked in the id and gets a 32-bit size. Reading such a file yields the same header fields, the same ids in the same order and the same data bytes, and stops at the end-of-file entry or at the end of the data. Reading a file that was cut off at any byte terminates with an error or with the entries in front of the cut.",
 ["inputs", "fault_sequences"], "all entry sequences (ids, data lengths around 0, 65535 and 65536 and beyond), all truncation points",
 "Tests read a few sample files; long entries, unknown ids, empty entries and truncated files do not occur in them.",
 ["vfb/vfb.py", "vfb/entry.py", "vfb/header.py", "compilers/header.py", "parsers/header.py"],
 [("VfbEntry.header / _read_entry / read", "vfb/entry.py"), ("Vfb.read_stream / write_bytes", "vfb/vfb.py"), ("VfbHeaderCompiler / VfbHeaderParser", "compilers/header.py")],
 ["file bytes", "list of entries after reading"])

prop("C04", "Across any read, edit and write history the file reflects the current data",
 "After any sequence of reading, decompiling, editing, compiling and writing, the written file contains for every entry exactly the encoding of that entry's current data with a matching size, no matter how often it was written before. Entries whose data was never changed are written back with their original bytes when they were not decompiled, and decompiling or compiling an entry a second time changes nothing. Exporting to UFO or to TrueType hinting leaves the data as it was, keys selected to be dropped are absent from the entries and from the file, and reading a new file leaves nothing of the previous one visible.",
 ["histories"], "all sequences of read, access, decompile, edit, compile, write and re-read operations on entries",
 "The tests run one read or one write per object; stale state only shows in longer histories.",
 ["vfb/entry.py", "vfb/vfb.py", "vfb/header.py"],
 [("VfbEntry.compile / decompile / header / size", "vfb/entry.py"), ("Vfb.write_bytes / read / clear", "vfb/vfb.py")],
 ["bytes written after each operation", "entry data after each operation"],
 [dict(name="entry data", meaning="bytes when compiled, structure when decompiled", where=S + "vfb/entry.py")])

prop("C05", "Decompiling an entry uses all of its bytes or fails without losing them",
 "Decompiling an entry either interprets every byte of its data or raises an error; bytes left over behind the interpreted structure are never silently discarded. A failed decompile leaves the entry's original bytes in place and marks the file as having had errors. No entry reads bytes that belong to the following entry.",
 ["inputs"], "all entry types, all byte strings, in particular valid data with extra bytes appended or cut short",
 "Tests only parse well-formed samples.",
 ["parsers/base.py", "vfb/entry.py"],
 [("BaseParser.parse", "parsers/base.py"), ("VfbEntry.decompile", "vfb/entry.py")],
 ["exception raised", "entry data and error flag afterwards"])

prop("C06", "Simple font-info entries keep their value through compile and decompile",
 "For every font-level entry holding a number, a list of numbers, a text, feature code, naming records, character-map settings, PCLT data, the application version, class flags or a raw table, encoding a legal value gives the documented byte layout, and decoding those bytes gives the same value again. Signed and unsigned fields keep their sign over their whole range, and text keeps every character that the encoding of the entry can express. Values that do not fit the field are refused, not altered.",
 ["inputs"], "all legal values of each such entry type (full integer ranges, all list lengths, all encodable texts)",
 "Each entry type has at most a couple of sample values in the tests, mostly one direction only.",
 ["compilers/numeric.py", "parsers/numeric.py", "compilers/text.py", "parsers/text.py", "compilers/cmap.py", "parsers/cmap.py", "compilers/pclt.py", "parsers/pclt.py", "compilers/flversion.py", "parsers/flversion.py", "compilers/binary.py", "parsers/binary.py", "compilers/base.py", "parsers/base.py", "constants.py"],
 [("parser_classes", "constants.py"), ("compiler/parser pair per entry", "compilers/numeric.py")],
 ["compiled bytes", "decompiled value"])

prop("C07", "Glyph and mask outlines keep every node of every master",
 "Encoding the outline of a glyph, a glyph mask or a global mask and decoding it again yields the same nodes in the same order with the same types, flags and absolute coordinates for every master, for any number of nodes and masters. Coordinates are stored relative to the previous point of the same master, end point before the two control points of a curve, and the stored value count is twice the number of values that follow. Mask weight vectors keep their value to eight decimals.",
 ["inputs"], "all node lists (types, flags 0..15, coordinates), all master counts, all weight vectors",
 "Tests use two or three sample outlines; delta errors that need particular node-type sequences or a second master are not reached.",
 ["compilers/glyph.py", "parsers/glyph.py"],
 [("OutlinesCompiler / compile_outlines", "compilers/glyph.py"), ("parse_outlines / read_absolute_point", "parsers/glyph.py")],
 ["compiled bytes", "decompiled nodes"])

prop("C08", "A glyph record keeps all of its parts, in any combination",
 "A glyph record with any combination of name, outline, metrics, PostScript hints and hint replacements, guides, components, kerning, imported binary data and TrueType instructions decodes to exactly the parts that were encoded, with every value of every master unchanged. Parts that are absent stay absent, and each part is introduced by its documented marker with the record closed by the end marker. Unknown markers are refused.",
 ["inputs"], "all combinations of optional parts, all list lengths, all values, all master counts",
 "The tests compile two sample glyphs; combinations of parts with several masters and entries are not covered.",
 ["compilers/glyph.py", "parsers/glyph.py", "compilers/guides.py", "parsers/guides.py", "truetype.py"],
 [("GlyphCompiler._compile and section writers", "compilers/glyph.py"), ("GlyphParser._parse and section readers", "parsers/glyph.py")],
 ["compiled bytes", "decompiled record"])

prop("C09", "Entries attached to a glyph keep their values through compile and decompile",
 "Anchors of all masters, anchor properties, hint links, glyph-class data with anchors, carets and classes, sketch points, origin, code points inside and beyond the BMP, mask metrics, guides and guide properties decode to the same values that were encoded, for any number of items. The bytes follow the documented layout of each entry. Guide slopes are kept to the file's resolution, not truncated, and guide colours keep each colour component.",
 ["inputs"], "all legal values of each entry, all item counts and master counts",
 "One or two samples per entry in the tests.",
 ["compilers/glyph.py", "parsers/glyph.py", "compilers/guides.py", "parsers/guides.py", "compilers/base.py", "parsers/base.py"],
 [("Glyph*Compiler", "compilers/glyph.py"), ("Glyph*Parser", "parsers/glyph.py"), ("GuidesCompiler / GuidePropertiesCompiler", "compilers/guides.py")],
 ["compiled bytes", "decompiled value"])

prop("C10", "TrueType entries keep their values through compile and decompile",
 "Gasp ranges, TrueType info, stems, stem pixel sizes, zones, zone deltas and VDMX records decode to the same values that were encoded, for any number of items and with values attached to the right direction, index and pixel size. Optional info fields that are absent stay absent, and every head flag and option bit survives. The bytes follow the documented layout of each entry.",
 ["inputs"], "all legal values, all item counts, all subsets of optional fields, all flag combinations",
 "Tests use single sample fonts; subsets of optional fields and unknown bits never occur.",
 ["compilers/truetype.py", "parsers/truetype.py", "helpers.py"],
 [("TrueType*Compiler", "compilers/truetype.py"), ("TrueType*Parser", "parsers/truetype.py")],
 ["compiled bytes", "decompiled value"])

prop("C11", "Multiple-master, PostScript and option entries keep their values",
 "Axis mappings, master locations, primary instances, anisotropic interpolation maps, PostScript info, PostScript hinting options, export options, font options, mapping mode and multiple-master kern pairs decode to the same values that were encoded. Every defined bit of the bit fields survives, instance coordinates are kept to four decimals without truncation, and ratios likewise. The bytes follow the documented layout of each entry.",
 ["inputs"], "all legal values, all bit combinations, all item and master counts",
 "Tests use single samples; undefined bits and values that are not exactly representable in binary are not reached.",
 ["compilers/mm.py", "parsers/mm.py", "compilers/ps.py", "parsers/ps.py", "compilers/options.py", "parsers/options.py", "compilers/fl3.py", "parsers/fl3.py", "compilers/base.py", "parsers/base.py", "helpers.py"],
 [("compiler/parser pairs", "compilers/mm.py"), ("binaryToIntList / intListToBinary", "helpers.py")],
 ["compiled bytes", "decompiled value"])

prop("C12", "Bitmap images survive run-length coding unchanged",
 "Encoding a background image or glyph bitmap and decoding it yields the same rows of bytes for any content and size, including runs and stretches longer than one chunk. The announced data length equals the number of bytes that follow, every chunk is at most 128 bytes, and images for the Windows platform are stored inverted and come back as they were. Origin, size and resolution fields are kept.",
 ["inputs"], "all bitmap contents, widths and heights, both platforms",
 "Tests have one image; chunk boundaries and inversion are not exercised.",
 ["compilers/bitmap.py", "parsers/bitmap.py"],
 [("_encode_bitmap / flush_buffer", "compilers/bitmap.py"), ("_read_bitmap / _decode_bitmap", "parsers/bitmap.py")],
 ["compiled bytes", "decompiled rows"])

prop("C13", "UFO groups and kerning say the same as the VFB classes and pairs",
 "In the exported groups every glyph belongs to at most one kerning group per side, kerning classes become first- or second-side groups according to their side flags with the key glyph first, and all other groups are kept; kerning classes without side flags are left out. Each kerning pair whose glyph is a class's key glyph is exported on the group, every other pair on the glyph itself, and no pair is lost except those with value zero that are not exceptions. The value exported for a master is that master's value.",
 ["inputs"], "all class definitions, side flags, key glyphs, overlaps and kerning tables, all masters",
 "Tests check a few small hand-made groups and pairs.",
 ["ufo/groups.py", "ufo/kerning.py"],
 [("transform_groups / build_glyph_to_group_maps", "ufo/groups.py"), ("UfoKerning", "ufo/kerning.py")],
 ["returned groups, group order and key glyphs", "kerning per master"])

prop("C14", "Exported UFO contours describe the same shapes as the VFB nodes",
 "For each master the exported contours contain, in order, every on-curve and off-curve point of the VFB outline with its coordinates, smooth flag and label; open contours start with a move point and closed contours of more than one point never do. A closed contour whose last curve ends on its start point is exported without the duplicate point, and otherwise the closing line is represented by the start point. Components refer to the right base glyph with this master's offset and scale. A glyph that is drawn again after its outline has been edited gives the edited outline.",
 ["inputs", "histories"], "all sequences of move, line, curve and quadratic nodes, open and closed, all masters, drawing before and after edits",
 "Tests check a dozen contours; mixes of node types, one-point contours and several masters are not swept.",
 ["ufo/paths.py", "vfb/glyph.py"],
 [("UfoMasterGlyph._extract_master_contours / _flush_contour", "ufo/paths.py"), ("VfbGlyph.draw", "vfb/glyph.py")],
 ["calls received by the point or segment pen"])

prop("C15", "PostScript stem hints are converted without changing the stems they mark",
 "A hint with negative width is exported as the same pair of edges with positive width, and ghost hints (-20, -21) are kept as they are. Links become stems between the coordinates of the linked nodes in the master being exported, with ghost links marking the edge of the linked node. Hint replacement keeps, for each replacement point, exactly the stems that its mask lists, sorted and without duplicates.",
 ["inputs"], "all hints, links, hint masks and masters",
 "Tests cover a few hints of one master.",
 ["ufo/pshints.py", "vfb/glyph.py"],
 [("normalize_hint / get_master_hints / build_ps_glyph_hints", "ufo/pshints.py"), ("VfbGlyph.resolve_hints / resolve_links / resolve_hint_sets", "vfb/glyph.py")],
 ["stems per hint set"])

prop("C16", "Dates, guides and bit numbers are converted to UFO values without loss",
 "Timestamps convert to the date they stand for and back to the same timestamp over the whole range of the format, clamping only dates before 1970. A guide becomes a UFO guide on the right axis with this master's position and an angle within one full turn that denotes the same line, carrying the name and colour recorded for its index. Converting a non-negative number to its bit positions and back gives the same number.",
 ["inputs"], "all 32-bit timestamps, all guide positions, angles, properties and masters, all non-negative integers",
 "Tests use two timestamps and a few guides.",
 ["ufo/time.py", "ufo/guides.py", "helpers.py"],
 [("convert_timestamp / datetime_to_fl", "ufo/time.py"), ("get_master_guides / apply_guide_properties", "ufo/guides.py"), ("binaryToIntList / intListToBinary", "helpers.py")],
 ["returned values"])

prop("C17", "TrueType hinting is exported with every stem, zone and command intact",
 "The exported TrueType hinting lists every stem and zone exactly once under a unique name with its position, width and direction, every pixel size with the size from which it applies, and zone deltas on the zone they belong to. In the hinting export (vfb2tth) every glyph program appears as the same sequence of commands with the points, stems, zones and alignments they refer to, provided these exist. In the exported UFO every glyph program has the same commands, and their points are named by the labels of the exported outline points, their stems and zones by the names under which the lib lists them. Fonts without stems, zones or deltas are exported without failing.",
 ["inputs"], "all stem and zone lists with repeated names, all delta tables, all glyph programs, all subsets of the hinting entries",
 "Tests export two fonts; repeated names, missing entries and equal rounding values do not occur together.",
 ["tth.py", "ufo/tth.py", "truetype.py", "ufo/vfb2ufo.py"],
 [("extract_truetype_hinting and helpers", "tth.py"), ("TTGlyphHints / transform_stem_rounds", "ufo/tth.py")],
 ["exported structure"])

prop("C18", "Drawing into a VFB glyph and merging masters store exactly what was drawn",
 "Drawing contours with the point pen into a glyph stores one node per point with rounded coordinates for the master being drawn and leaves what was drawn into other masters before as it was. When masters were drawn separately, compiling merges each master's own coordinates into the common outline and refuses outlines whose structure differs. Reading a glyph by name never changes its stored data.",
 ["inputs", "histories"], "all contours of lines and quadratic curves, all component references, all master counts, all orders of drawing",
 "Tests draw one glyph.",
 ["vfb/pens.py", "vfb/glyph.py", "vfb/vfb.py", "compilers/glyph.py"],
 [("VfbGlyphPointPen", "vfb/pens.py"), ("GlyphCompiler.merge", "compilers/glyph.py"), ("VfbGlyph / VfbGlyphMaster", "vfb/glyph.py")],
 ["entry data after drawing and after compiling"])

prop("C19", "Feature code is carried over unchanged apart from kerning class names",
 "When feature code is converted, kerning class references in positioning statements get their side-specific group name and everything else, including comments, indentation and all other lines, stays as it is apart from the number of spaces between the parts of such a statement, one output line per input line. Reading feature text keeps every non-blank line in order and drops only surplus blank lines, and text that has been read once is not changed by further write and read cycles. Splitting feature code into prefix and features loses no line.",
 ["inputs"], "all feature texts line by line, any mix of comments, blank lines and statements",
 "Tests have a few example lines.",
 ["ufo/features.py", "parsers/text.py", "compilers/text.py"],
 [("rename_kern_classes_in_feature_code", "ufo/features.py"), ("OpenTypeStringParser", "parsers/text.py")],
 ["returned lines"])

prop("C20", "Every glyph of a VFB is reachable under exactly one name",
 "All glyphs of a file are reachable by name, in file order and each under a different name even if the file repeats a name, and the position of a glyph in the glyph order equals its index in the file. Looking up a glyph gives the data of that glyph. Links and hinting options following a glyph belong to that glyph. An exported UFO contains every glyph that has a name, in the same order, each under a different name.",
 ["inputs"], "all sequences of glyph entries with arbitrary, repeated names and following entries",
 "Sample files have unique names, with one exception.",
 ["vfb/vfb.py", "ufo/builder.py"],
 [("Vfb._decompile_glyphs", "vfb/vfb.py"), ("VfbToUfoBuilder.add_current_glyph", "ufo/builder.py")],
 ["keys, glyph order and glyph data", "names of the glyphs of a UFO"])

prop("C21", "Every glyph of an exported UFO has the data of its own VFB entries",
 "In each exported master UFO every glyph has the code points, note, mark colour, user data, background image, bitmaps, anchors and advance width that the entries behind its own glyph entry give it, in the order of the VFB, with advance width and anchor positions those of this master; a mask appears in the background layer with its own size if and only if it has an outline. A glyph without such entries has none of these data, data of one glyph or master never appear in another one, and converting changes nothing in the VFB.",
 ["inputs"], "all glyphs with any of these entries in any order, any number of glyphs, masters, code points, anchors and bitmaps, all mark colours",
 "Tests compare a few converted fonts as a whole.",
 ["ufo/builder.py", "ufo/glyph.py", "ufo/paths.py"],
 [("VfbToUfoBuilder.build / get_ufo_master", "ufo/builder.py"), ("UfoMasterGlyph.build", "ufo/paths.py")],
 ["glyphs of the exported UFO"])

prop("C22", "Font info is exported to the matching UFO attributes",
 "Every font info entry of a VFB (names, version, metrics, dates, widths, weights, style and embedding bits, Panose, ranges, vendor, name records, gasp ranges, TrueType settings, alignment zones and stems) sets exactly the UFO font info or lib keys that stand for it, with the value converted to the form of the UFO: bit fields as lists of their set bits, the underline position moved from the middle to the top of the line, lists cut to the stored number of values. No entry changes an attribute of another one, the last one of several entries counts, and values that belong to a master are those of that master.",
 ["inputs"], "all values of all font info entries, in any order and any combination, all masters; without PostScript hinting no alignment zones or stems",
 "Tests convert a few fonts, in which most of the values are defaults.",
 ["ufo/info.py", "ufo/builder.py", "ufo/time.py", "helpers.py"],
 [("VfbToUfoInfo", "ufo/info.py"), ("VfbToUfoBuilder.build / get_master_info", "ufo/builder.py")],
 ["font info and lib of the exported UFO"])

prop("C23", "Multiple master fonts become one UFO per master and a designspace",
 "A VFB with n axes is written as 2^n UFOs, one file per master with the data of that master, and, if there are axes, as a designspace document with the axes in order (name, tag, range and mapping from the stored mappings, ten places per axis), one source per master that names the written UFO and the location of that master, and one instance per primary instance at its location. Fonts without stored master names or axis mappings are written as well. Existing UFO and designspace files are only replaced on request.",
 ["inputs"], "all numbers of axes, masters, instances, mappings and master names, all coordinates, UFO, UFOZ and JSON output, files that exist before",
 "Tests convert single fonts with one axis or two axes.",
 ["ufo/builder.py", "ufo/designspace.py"],
 [("VfbToUfoBuilder.get_designspace / write / add_axis_mappings / fix_masters_count", "ufo/builder.py"), ("get_ds_location", "ufo/designspace.py")],
 ["written files"])

prop("C24", "The JSON export and vfbdiff show all data of a font, entry by entry",
 "The JSON export holds the header and one record for every entry of the font, in the order of the font, with the name of its entry type (the number, for unknown types) and its decompiled data; reading the JSON gives the same data back (tuples as lists, keys as text). Entries that are not decompiled are given as the hexadecimal digits of exactly their bytes, with their number. Only the header is written if only the header was asked for. The font and its file stay as they are. vfbdiff shows exactly the lines in which the exported data of two fonts differ, and nothing if they are the same, as text or as HTML.",
 ["inputs"], "all entry types and their values (numbers other than NaN), unknown entries, any number of entries in either form, all options of the export",
 "Tests compare the JSON of a few fonts.",
 ["json.py", "diff.py", "vfb/vfb.py", "vfb/entry.py", "vfb/header.py", "helpers.py"],
 [("save_vfb_json / write_vfb_json", "json.py"), ("Vfb.as_dict / VfbEntry.as_dict / VfbHeader.as_dict", "vfb/vfb.py"), ("diffvfb", "diff.py")],
 ["written JSON, output of vfbdiff"])

prop("C25", "The commands do what their options say and write one font where they should",
 "vfb2json, vfb3ufo and vfbcu2qu read the given file with the given options and write one result: to the given output path, or under the name of the input in the output folder if there is one, or beside the input, with the suffix of the format. Every option reaches the conversion it describes, and no other one. The input and all other files stay as they are; without an input file there is an error and nothing is written; an existing UFO or VFB file is only replaced on request. vfbcu2qu writes the same entries in their order but for the links; glyphs with contours have the same contours, in all masters with the same structure, running the other way, of lines and quadratic curves within the tolerance, without the hints of the old outline; the rest of every glyph stays as it is. The font is not written if no glyph has contours.",
 ["inputs"], "all combinations of the options, existing and missing files, all numbers of masters, open and closed contours of lines and curves, tolerances",
 "Tests call each command once or twice and do not look at the result.",
 ["cmdline.py", "cu2qu.py", "json.py", "vfb/vfb.py", "vfb/glyph.py", "vfb/pens.py"],
 [("vfb2json / vfb2ufo", "cmdline.py"), ("vfbcu2qu", "cu2qu.py"), ("clearContours / getPen / drawPoints", "vfb/glyph.py")],
 ["written files, output, exit code"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
