"""Stand-ins for the proofs of the commands: argument parser, font, exporter"""


class SomeArguments:
    """values for the arguments that were declared"""


class SomeArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, **kw):
        self.description = description
        self.declared = []

    def add_argument(self, *flags, **how):
        self.declared.append((flags, how))

    def parse_args(self):
        """arbitrary values"""

    def print_help(self):
        pass


class SomeFont:
    """logs what is done to it"""

    def __init__(self, vfb_path=None, timing=True, minimal=False, drop_keys=None, only_header=False,
                 unicode_strings=False):
        self.log = [("read", vfb_path, minimal, drop_keys, only_header, unicode_strings)]

    def read(self):
        self.log.append("read")

    def as_dict(self):
        self.log.append("as_dict")

    def decompile(self):
        self.log.append("decompile")

    def get_masters(self):
        return ["a master", "another master"]

    def write(self, out_path):
        self.log.append(("write", out_path))


class SomeExporter:
    def __init__(self, vfb, minimal=False, base64=False, pshints=True, add_kerning_groups=False,
                 move_groups=True, normalize=True, **more):
        self.options = (vfb, minimal, base64, pshints, add_kerning_groups, move_groups, normalize, more)
        self.log = []

    def write(self, out_path, overwrite=False, silent=False, ufoz=False, json=False):
        self.log.append((out_path, overwrite, silent, ufoz, json))


class SomePage:
    def make_file(self, *args, **kw):
        """compares"""
