"""Run-length coding of bitmaps. A chunk is a list: a signed byte s and its bytes; s >= 0:
s + 1 bytes follow, which stand for themselves; s < 0: one byte follows, which stands for
1 - s bytes."""


def write(w, chunks, ctx=None):
    for chunk in chunks:
        w.S8(chunk[0])
        for b in chunk[1:]:
            w.U8(b)


def decoded(chunks):
    out = []
    for chunk in chunks:
        if chunk[0] >= 0:
            out.extend(chunk[1:])
        else:
            out.extend(chunk[1:] * (1 - chunk[0]))
    return out


def size(chunks):
    return sum([len(chunk) for chunk in chunks])


def per_row(width):
    return max(1, (width + 15) // 16) * 2


def wellformed(chunks):
    return all([-127 <= c[0] <= 127 and len(c) == (c[0] + 2 if c[0] >= 0 else 2)
                and all([0 <= b <= 255 for b in c[1:]]) for c in chunks])


def run(value, count):
    return [value] * count


def joined(a, b):
    return a + list(b)


def joined_rows(rows):
    return [b for row in rows for b in row]


def chunks_of(rows):
    """chunks that stand for the bytes of the rows (contract of the encoder)"""
    raise NotImplementedError


def write_data(w, d):
    chunks = chunks_of(d["bitmap"]["data"])
    w.V(size(chunks))
    write(w, chunks)


def write_pair(w, pair):
    w.VU(pair[0])
    w.VU(pair[1])


def background(w, d, ctx):
    w.V(d["origin"][0])
    w.V(d["origin"][1])
    write_pair(w, d["size_units"])
    write_pair(w, d["size_pixels"])
    write_data(w, d)


def glyph_bitmaps(w, data, ctx):
    w.VU(len(data))
    for d in data:
        w.VU(d["ppm"])
        w.V(d["origin"][0])
        w.V(d["origin"][1])
        write_pair(w, d["adv"])
        write_pair(w, d["size_pixels"])
        write_data(w, d)


def inverted(rows):
    return [[255 - b for b in row] for row in rows]


def rows_of(flat, width):
    n = per_row(width)
    return [flat[j:j + n] for j in range(0, len(flat), n)]


def inverted_bytes(flat):
    return [255 - b for b in flat]


def flat_of(rows):
    """the bytes that the chunks of the rows stand for"""
    raise NotImplementedError


def background_data(d):
    rows = rows_of(flat_of(d["bitmap"]["data"]), d["size_pixels"][0])
    return dict(d, bitmap=dict(data=rows))


def glyph_bitmaps_data(data):
    return [background_data(d) for d in data]


def plain(d):
    return dict(d, bitmap=dict(data=d["bitmap"]["data"]))


def without_preview(data, single):
    return plain(data) if single else [plain(d) for d in data]
