"""Font info of the exported UFOs, stated from the meaning of the entries."""

TT = "public.truetype.instructions"

# entry -> attribute of the UFO font info with the same value
SAME = {
    1025: "postscriptFullName", 1026: "postscriptFontName", 1027: "styleMapFamilyName",
    1029: "italicAngle", 1031: "postscriptUnderlineThickness", 1037: "copyright",
    1038: "openTypeNameDescription", 1039: "openTypeNameManufacturer", 1044: "postscriptUniqueID",
    1061: "trademark", 1062: "openTypeNameDesigner", 1063: "openTypeNameDesignerURL",
    1064: "openTypeNameManufacturerURL", 1069: "openTypeNameLicense", 1070: "openTypeNameLicenseURL",
    1090: "macintoshFONDFamilyID", 1092: "macintoshFONDName", 1118: "openTypeOS2Panose",
    1140: "openTypeNameSampleText", 1121: "openTypeOS2VendorID", 1129: "openTypeNameUniqueID",
    1128: "openTypeNameVersion", 1130: "versionMajor", 1131: "versionMinor", 1135: "unitsPerEm",
    1278: "openTypeHheaAscender", 1279: "openTypeHheaDescender", 1270: "openTypeHheaLineGap",
    2025: "note", 1066: "postscriptDefaultCharacter", 2021: "openTypeOS2UnicodeRanges",
    1127: "postscriptWeightName",
}
# entry -> key of the UFO lib with the same value
LIB = {2016: "com.fontlab.v5.userData", 2024: "com.fontlab.v5.metricsClassFlags"}
# number of the TrueType info -> attribute with the same value
TTINFO = {
    "os2_us_width_class": "openTypeOS2WidthClass",
    "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
    "os2_y_subscript_x_size": "openTypeOS2SubscriptXSize",
    "os2_y_subscript_y_size": "openTypeOS2SubscriptYSize",
    "os2_y_subscript_x_offset": "openTypeOS2SubscriptXOffset",
    "os2_y_subscript_y_offset": "openTypeOS2SubscriptYOffset",
    "os2_y_superscript_x_size": "openTypeOS2SuperscriptXSize",
    "os2_y_superscript_y_size": "openTypeOS2SuperscriptYSize",
    "os2_y_superscript_x_offset": "openTypeOS2SuperscriptXOffset",
    "os2_y_superscript_y_offset": "openTypeOS2SuperscriptYOffset",
    "os2_y_strikeout_size": "openTypeOS2StrikeoutSize",
    "os2_y_strikeout_position": "openTypeOS2StrikeoutPosition",
    "os2_s_typo_ascender": "openTypeOS2TypoAscender",
    "os2_s_typo_descender": "openTypeOS2TypoDescender",
    "os2_s_typo_line_gap": "openTypeOS2TypoLineGap",
    "os2_us_win_ascent": "openTypeOS2WinAscent",
    "os2_us_win_descent": "openTypeOS2WinDescent",
}
# the same -> key of the TrueType instructions in the lib
MAXP = {
    "max_zones": "maxZones", "max_twilight_points": "maxTwilightPoints", "max_storage": "maxStorage",
    "max_function_defs": "maxFunctionDefs", "max_instruction_defs": "maxInstructionDefs",
    "max_stack_elements": "maxStackElements",
}
# also stored in entries of their own, or without a place in the UFO
TTINFO_NOT = ("head_font_direction_hint", "os2_us_weight_class", "os2_fs_selection",
              "head_units_per_em", "head_mac_style")
MASTER = {"ascender": "ascender", "descender": "descender", "x_height": "xHeight",
          "cap_height": "capHeight"}
HINTS = {"blue_scale": "postscriptBlueScale", "blue_shift": "postscriptBlueShift",
         "blue_fuzz": "postscriptBlueFuzz"}
# entry with the number of values -> the values of each master -> attribute
COUNTED = {
    1530: ("blue_values", "postscriptBlueValues"), 1531: ("other_blues", "postscriptOtherBlues"),
    1532: ("family_blues", "postscriptFamilyBlues"),
    1533: ("family_other_blues", "postscriptFamilyOtherBlues"),
    1534: ("stem_snap_h", "postscriptStemSnapH"), 1535: ("stem_snap_v", "postscriptStemSnapV"),
}


def bits(n):
    return [i for i in range(64) if n >> i & 1]


def name_records(recs):
    return [dict(nameID=x[0], platformID=x[1], encodingID=x[2], languageID=x[3], string=x[4])
            for x in recs]


def gasp_records(ranges):
    return [dict(rangeMaxPPEM=r["maxPpem"], rangeGaspBehavior=bits(r["flags"])) for r in ranges]


def expected(entries):
    """values of the attributes and of the lib that the entries determine, for all masters"""
    import datetime

    a, lib, tt = {}, {}, {}
    pos = 0
    for i, d in entries:
        if i in SAME:
            a[SAME[i]] = d
        elif i in LIB:
            lib[LIB[i]] = d
        elif i == 1030:
            pos = d
        elif i == 1024:
            a["familyName"] = a["openTypeNamePreferredFamilyName"] = d
        elif i == 1137:
            a["styleName"] = a["openTypeNamePreferredSubfamilyName"] = d
        elif i == 1034:
            a["postscriptIsFixedPitch"] = d != 0
        elif i == 1048:
            a["openTypeOS2WeightClass"] = 1 if d < 1 else 1000 if d > 1000 else d
        elif i == 1138:
            a["openTypeNameRecords"] = name_records(d)
        elif i == 1267:
            a["openTypeOS2Selection"] = [b for b in bits(d) if b not in (0, 5, 6)]
            style = {1: "italic", 32: "bold", 33: "bold italic", 64: "regular"}.get(d & 97)
            if style:
                a["styleMapStyleName"] = style
        elif i == 1265:
            a["openTypeGaspRangeRecords"] = gasp_records(d)
        elif i == 1264:
            for k, v in d.items():
                if k in TTINFO:
                    a[TTINFO[k]] = v
                elif k in MAXP:
                    tt[MAXP[k]] = v
                elif k == "head_creation":
                    secs = max(v % 2**32 - 2082841200, 0)
                    day = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs)
                    a["openTypeHeadCreated"] = day.strftime("%Y/%m/%d %H:%M:%S")
                elif k == "os2_fs_type":
                    a["openTypeOS2Type"] = bits(v)
                elif k == "os2_s_family_class":
                    a["openTypeOS2FamilyClass"] = [v // 256, v % 256]
                elif k == "Average Width":
                    if v:
                        a["postscriptNominalWidthX"] = v if v > 0 else -v
                elif k == "head_flags":
                    if "flags" in v:
                        a["openTypeHeadFlags"] = v["flags"]
                elif k == "Codepages":
                    r = bits(v["os2_ul_code_page_range1"] + v["os2_ul_code_page_range2"] * 2**32)
                    if r:
                        a["openTypeOS2CodePageRanges"] = r
        elif i == 1261:
            b = bytes.fromhex(d)
            tt["controlValue"] = {
                str(k // 2): int.from_bytes(b[k:k + 2], "little", signed=True)
                for k in range(0, len(b), 2)}
        elif i in (1262, 1263):
            tt["fontProgram" if i == 1263 else "controlValueProgram"] = d
    a["postscriptUnderlinePosition"] = pos
    if any(v != 0 for v in tt.values()) or tt and len([k for k in tt if k in MAXP.values()]) < 6:
        lib[TT] = tt
    return a, lib


def master_expected(ps, counts, hints):
    """values that differ from master to master"""
    a = {}
    for k, v in list(MASTER.items()) + (list(HINTS.items()) if hints else []):
        if k in ps:
            a[v] = ps[k]
    if hints:
        if "force_bold" in ps:
            a["postscriptForceBold"] = ps["force_bold"] != 0
        for i, (k, v) in COUNTED.items():
            if counts.get(i) and k in ps:
                a[v] = ps[k][:counts[i]]
    return a


def control_values(values):
    return {str(i): v for i, v in enumerate(values)}
