"""Groups of glyphs."""


def rebuilt(groups, first, second):
    """the groups that are not for kerning, and the groups of both sides"""
    out = {}
    for name, glyphs in groups.items():
        if not name.startswith("public.kern"):
            out[name] = glyphs
    out.update(first)
    out.update(second)
    return out


def key_glyphs(glyphs):
    return [g.strip("'") for g in glyphs if g.endswith("'")]


def key_first(glyphs):
    """the glyphs of a class, its key glyphs first"""
    return key_glyphs(glyphs) + [g for g in glyphs if not g.endswith("'")]


def final_names(name, flags, left_out):
    """the groups that a class becomes"""
    if left_out:
        return []
    if not name.startswith("_"):
        return [name]
    if name not in flags:
        return []
    sides = flags[name][0]
    out = []
    if sides & 1024:
        out.append(f"public.kern1.{name}")
    if sides & 2048:
        out.append(f"public.kern2.{name}")
    return out


def present_glyphs(glyphs, missing, skip):
    """(the glyphs of a group, those of them that are missing from the font)"""
    gone = [g for g in glyphs if g in missing]
    if not skip:
        return glyphs, gone
    return [g for g in glyphs if g not in missing], gone
