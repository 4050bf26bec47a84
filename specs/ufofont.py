"""The fonts and glyphs that the exporters fill, as far as the exporters look at them."""


class SomeGlyph:
    def __init__(self, name):
        self.name = name
        self.contours = []
        self.log = []

    def getPointPen(self):
        return SomePen(self)

    def drawPoints(self, pen):
        pen.drawn = self


class SomePen:
    """a pen that draws into a glyph"""

    def __init__(self, glyph):
        self.glyph = glyph


class SomeMaster:
    """the glyph of one master"""

    def __init__(self, mm_glyph, glyph_order, master_index):
        self.mm_glyph = mm_glyph
        self.key = (glyph_order, master_index)
        self.built = None
        self.name = mm_glyph.name
        for n in ("anchors", "guidelines", "lib", "unicodes", "width", "height"):
            setattr(self, n, mm_glyph.master[n])
        self.mask_metrics = (None, None)

    def build(self, minimal=False, include_ps_hints=True, encode_data_base64=False):
        self.built = (minimal, include_ps_hints, encode_data_base64)
        if not minimal:
            self.mask_metrics = self.mm_glyph.master["mask_metrics"]

    def drawPoints(self, pen):
        pen.glyph.log.append(("outline", self))

    def drawPointsMask(self, pen):
        pen.glyph.log.append(("mask", self))
        if self.mm_glyph.has_mask:
            pen.glyph.contours.append(self)


class SomeMMGlyph:
    def __init__(self, name, note, master, has_mask):
        self.name, self.note, self.master, self.has_mask = name, note, master, has_mask


class SomeLayer:
    def __init__(self, name):
        self.name = name
        self.glyphs = []

    def addGlyph(self, glyph):
        self.glyphs.append(glyph)


class SomeLayers:
    def __init__(self):
        self.all = []

    def newLayer(self, name):
        layer = SomeLayer(name)
        self.all.append(layer)
        return layer


class SomeFont:
    def __init__(self, **parts):
        self.parts = parts
        self.glyphs = []
        self.layers = SomeLayers()

    def newGlyph(self, name):
        glyph = SomeGlyph(name)
        self.glyphs.append(glyph)
        return glyph

    def __iter__(self):
        return self.glyphs


class SomeHashPen:
    """the hash is taken of the glyph that is drawn"""

    def __init__(self, width, glyphSet):
        self.made = (width, glyphSet)
        self.drawn = None
        self.hash = self


class SomeSpace:
    """a designspace document"""

    def __init__(self):
        self.axes = []
        self.sources = []
        self.instances = []

    def addSourceDescriptor(self, **kw):
        self.sources.append(kw)

    def addInstanceDescriptor(self, **kw):
        self.instances.append(kw)


class SomeFeatures:
    """feature code, or a font info without data of its own for the lib"""

    def __init__(self):
        self.text = ""
        self.lib = {}


class SomeFile:
    """something that can be written to a file"""

    def __init__(self, exists):
        self.log = []

    def save(self, path, formatVersion=3, structure=None, overwrite=False, validate=True):
        self.log.append(("ufo", path, overwrite, structure))

    def json_dump(self, path, indent=2, sort_keys=False):
        self.log.append(("json", path, True, None))

    def write(self, path):
        self.log.append(("designspace", path, True, None))


class SomePath:
    def __init__(self, suffix, exist):
        self.suffix, self.exist = suffix, exist

    def with_suffix(self, suffix):
        return SomePath(suffix, self.exist)

    def exists(self):
        return self.exist

    def __str__(self):
        return "path" + self.suffix
