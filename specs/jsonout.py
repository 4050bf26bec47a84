"""JSON export: what is written for an entry; stand-ins for font and file"""


class SomeVfb:
    """a font that logs what is done to it"""

    def __init__(self, vfb_path=None, timing=True, minimal=False, drop_keys=None, only_header=False,
                 unicode_strings=False):
        self.log = [("read", vfb_path, minimal, drop_keys, only_header, unicode_strings)]

    def decompile(self):
        self.log.append(("decompile",))

    def compile(self):
        self.log.append(("compile",))

    def as_dict(self):
        self.log.append(("as_dict",))
        return self


class SomeOutput:
    """a file"""

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.log = []

    def __enter__(self):
        self.log.append(("open",))
        return self

    def __exit__(self, *args):
        self.log.append(("close",))

    def write(self, data):
        self.log.append(("write", data))


def entry_dict(key, data, size):
    """size, text: of an entry that is held as bytes, else None"""
    d = {"key": key}
    if size is not None:
        d["size"] = size
    d["decompiled"] = data
    return d


def plain(x):
    """data as JSON gives it back: lists for tuples, texts for keys"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def pairs_of(dicts):
    """the dicts of entries, as lists of keys and values in their order"""
    return [[(k, v) for k, v in d.items()] for d in dicts]


class SomeFile:
    """a file that is open as a stream"""

    def __init__(self, stream, path, mode="r"):
        self.stream, self.path, self.mode = stream, path, mode
        self.log = []

    def __enter__(self):
        self.log.append("open")
        return self.stream

    def __exit__(self, *args):
        self.log.append("close")
