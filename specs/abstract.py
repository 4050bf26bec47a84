"""An entry type about which nothing is known: the callers of parsers and compilers are
checked against these."""
from vfbLib.compilers.base import BaseCompiler
from vfbLib.parsers.base import BaseParser


class Datum:
    """a decompiled structure"""


class SomeParser(BaseParser):
    def parse(self, stream, size, vfb):
        """a function of the bytes, or an exception"""


class SomeCompiler(BaseCompiler):
    def compile(self, data, vfb):
        """a function of the structure"""

    @classmethod
    def merge(cls, masters_data, data):
        """changes the structure"""


class PrefixParser(BaseParser):
    def _parse(self):
        """reads some of the bytes"""


class Failed(Exception):
    """any exception of a parser"""


class Map:
    """a dict about which nothing is known"""

    def __contains__(self, key):
        """is there an entry for the key"""

    def __getitem__(self, key):
        """the entry of the key, KeyError"""

    def get(self, key, default=None):
        """the entry of the key, or the default"""


class Labels:
    """the labels of the points, by number of the node"""

    def get(self, index, default=None):
        """the label, if the point has one"""


class Log:
    """a dict of which only the assignments count, in their order"""

    def __setitem__(self, key, value):
        self.log.append((key, value))


class Names:
    """a dict with texts as keys of which it is not known which keys it has; the assignments
    since are logged"""

    def known(self, key):
        """was there such a key at first"""

    def __contains__(self, key):
        return self.known(key)

    def __setitem__(self, key, value):
        self.log.append((key, value))

    def __getitem__(self, key):
        """the value of the last key"""

    def __len__(self):
        """their number"""


class NameSet(Names):
    """the same for a set: what is added is logged"""

    def add(self, name):
        self.log.append((name, None))

    def update(self, names):
        """adds names"""

    def __ior__(self, names):
        self.update(names)
        return self


class Record:
    """an element of a list, which is a dict that may be changed; the changes are logged in the
    list"""

    def __getitem__(self, key):
        """the value at first"""

    def __setitem__(self, key, value):
        """logs the change"""

    def items(self):
        """the keys and values at first"""


class AnyDict:
    """a dict which is only changed"""

    def __setitem__(self, key, value):
        pass

    def __delitem__(self, key):
        pass

    def update(self, other):
        pass

    def setdefault(self, key, default=None):
        return AnyDict()


class SomeEntry:
    """an entry that holds data"""

    def decompile(self):
        """its data stay the same"""


class SomeDate:
    """a date"""

    def strftime(self, form):
        """the date as text"""


class Match:
    """a match of a regular expression"""

    def groups(self):
        return self.parts

    def group(self, i=0):
        if i == 0:
            raise NotImplementedError
        return self.parts[i - 1]

    def __getitem__(self, i):
        return self.group(i)


class Spot:
    """a dict, seen at one key (which is any key): is there an entry, and its value. What it has
    for other keys is not known"""

    def __contains__(self, key):
        """is there an entry"""

    def __getitem__(self, key):
        """the entry, KeyError"""

    def __setitem__(self, key, value):
        """now there is an entry"""

    def get(self, key, default=None):
        """the entry, or the default"""

    def setdefault(self, key, default=None):
        """the entry, which is made if there is none"""

    def __len__(self):
        """their number"""


class Flags(Map):
    """flags of kerning classes"""

    def __contains__(self, key):
        """has the class flags"""

    def __getitem__(self, key):
        """the flags of the class, and a number"""

    def get(self, key, default=None):
        """the flags of the class"""


class Missing:
    """names of glyphs, of which only it is known which are missing from the font"""

    def __contains__(self, glyph):
        """is the glyph missing"""

    def __len__(self):
        """their number"""


class TextSet:
    """a set of texts of unknown size"""


class GlyphOrder:
    """the glyphs of a font, of which only it is known which there are"""

    def __contains__(self, glyph):
        """is there such a glyph"""
