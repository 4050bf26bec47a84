"""Whole fonts for the runs that go through the exporters (arguments are plain data)."""
import contextlib
import io


def glyph_data(name, M, **parts):
    d = dict(name=name, nodes=[], metrics=[(500, 0)] * M, num_masters=M)
    if name is None:
        del d["name"]
    d.update(parts)
    return d


def entry(vfb, key, data):
    from vfbLib.constants import parser_classes
    from vfbLib.vfb.entry import VfbEntry

    eid = key
    if isinstance(key, str):
        eid = next(int(k) for k, v in parser_classes.items() if v[0] == key)
    e = VfbEntry(vfb, eid=eid)
    e.data = data
    vfb.add_entry(e)
    return e


def make_font(M, entries, glyphs, ps=None):
    """glyphs: data of Glyph entries, or (data, [(key, data), ...]) with following entries"""
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.num_masters = M
    entry(vfb, 1503, M)
    if M > 1:
        axes = M.bit_length() - 1
        entry(vfb, 1513, axes)
        for a in range(axes):
            entry(vfb, 1514, ["Weight", "Width", "Serif", "Optical Size"][a])
    for i in range(M):
        entry(vfb, 1504, f"m{i}")
    for k, d in entries:
        entry(vfb, k, d)
    for i in range(M):
        entry(vfb, 1536, ps[i] if ps else {})
    for g in glyphs:
        follow = ()
        if isinstance(g, tuple):
            g, follow = g
        entry(vfb, 2001, g)
        for k, d in follow:
            entry(vfb, k, d)
    return vfb


def export(vfb, **kw):
    from vfbLib.ufo.builder import VfbToUfoBuilder

    with contextlib.redirect_stdout(io.StringIO()):
        return VfbToUfoBuilder(vfb, **kw).get_ufo_masters(silent=True)


def entry_pairs(ents, more=()):
    """ids and data of entries"""
    return [(x.id, x.data) for x in ents] + list(more)
