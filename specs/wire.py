"""The documented byte layouts: an independent concrete writer and reader.

`W` is used by the layout functions in specs/entries.py.  The symbolic engine replaces
its methods by token constructors; here they produce real bytes."""
import struct


class W:
    def __init__(self):
        self.b = bytearray()

    def V(self, x):
        """encoded number, signed"""
        self._v(x, True)

    def VU(self, x):
        """encoded number, unsigned"""
        self._v(x, False)

    def _v(self, x, signed):
        if -107 <= x <= 107:
            self.b.append(x + 139)
        elif 108 <= x <= 1131:
            x -= 108
            self.b += bytes([247 + x // 256, x % 256])
        elif -1131 <= x <= -108:
            x = -x - 108
            self.b += bytes([251 + x // 256, x % 256])
        else:
            self.VL(x, signed)

    def VL(self, x, signed=True):
        if signed:
            assert -(2**31) <= x < 2**31
        else:
            assert 0 <= x < 2**32
        self.b.append(255)
        x %= 2**32
        self.b += bytes([x >> 24, (x >> 16) % 256, (x >> 8) % 256, x % 256])

    def _int(self, x, n, signed):
        if signed:
            assert -(256**n) // 2 <= x < 256**n // 2
        else:
            assert 0 <= x < 256**n
        x %= 256**n
        for _ in range(n):
            self.b.append(x % 256)
            x //= 256

    def U8(self, x):
        self._int(x, 1, False)

    def S8(self, x):
        self._int(x, 1, True)

    def U16(self, x):
        self._int(x, 2, False)

    def S16(self, x):
        self._int(x, 2, True)

    def U32(self, x):
        self._int(x, 4, False)

    def S32(self, x):
        self._int(x, 4, True)

    def UINT(self, x, n):
        self._int(x, n, False)

    def D(self, f):
        self.b += struct.pack("<d", f)

    def S(self, text, enc="cp1252"):
        """text without length"""
        self.b += text.encode(enc)

    def SV(self, text, enc="cp1252"):
        """text preceded by its byte length as an encoded number"""
        e = text.encode(enc)
        self.V(len(e))
        self.b += e

    def SP(self, text, n, enc="cp1252"):
        """text padded with null bytes to at least n bytes"""
        e = text.encode(enc)
        self.b += e + b"\0" * (n - len(e))

    def HEX(self, h):
        self.b += bytes.fromhex(h)

    def RAW(self, b):
        self.b += b

    def SIZED(self, layout, d, ctx):
        """byte length as an encoded number, then the bytes `layout` produces"""
        w = W()
        layout(w, d, ctx)
        self.V(len(w.b))
        self.b += w.b

    def getvalue(self):
        return bytes(self.b)


def run_wire(layout, d, ctx):
    w = W()
    layout(w, d, ctx)
    return w.getvalue()


class Ctx:
    """what the surrounding file contributes"""

    def __init__(self, M=1, ttv=0, tth=0, platform="macos"):
        self.M, self.ttv, self.tth, self.platform = M, ttv, tth, platform

    def __repr__(self):
        return f"Ctx(M={self.M}, ttv={self.ttv}, tth={self.tth}, platform={self.platform})"
