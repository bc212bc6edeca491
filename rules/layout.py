"""Bit-level description of the Dustforce files, kept apart from the code it judges.

A Layout is a list of named fields, least significant bit first in little-endian bytes; it can be compared with bytes that
were written and turned into bytes to be read.  Values may be abstract."""

import io
import zlib

CHARS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
TAGS = {"null": 0, "bool": 1, "int": 2, "uint": 3, "float": 4, "string": 5, "vec2": 10, "struct": 14, "array": 15}


class Layout:
    def __init__(self):
        self.fields = []
        self.n = 0

    def put(self, n, v, what):
        self.fields.append((self.n, n, v & ((1 << n) - 1), what))
        self.n += n

    def raw(self, data, what):
        for i in range(len(data)):
            self.put(8, data[i], what + " byte " + str(i))

    def pad(self):
        """up to the next whole byte; the padding itself is not specified (zero when built)"""
        self.n = (self.n + 7) // 8 * 8

    def name(self, text, what):
        self.put(6, len(text), what + ": length")
        for i, ch in enumerate(text):
            self.put(6, CHARS.index(ch), what + ": character " + str(i))

    def fixed(self, ibits, fbits, neg, ipart, fpart, what):
        self.put(1, neg, what + ": sign")
        self.put(ibits - 1, ipart, what + ": whole part")
        self.put(fbits, fpart, what + ": fraction")

    def join(self, other, what=""):
        for pos, n, v, w in other.fields:
            self.fields.append((self.n + pos, n, v, what + w))
        self.n += other.n

    def build(self):
        """the bytes; a field never needs more than its own bytes"""
        out = [0] * ((self.n + 7) // 8)
        for pos, n, v, _ in self.fields:
            at = pos
            left = n
            while left > 0:
                take = min(8 - at % 8, left)
                out[at // 8] = out[at // 8] | ((v >> (n - left)) & ((1 << take) - 1)) << (at % 8)
                at += take
                left -= take
        return bytes(out)

    def check(self, data, where):
        """every field has its value in the data; returns the number of bytes described"""
        size = (self.n + 7) // 8
        require(len(data) >= size, where + ": data is complete", size, len(data))
        for pos, n, v, what in self.fields:
            got = 0
            at = pos
            left = n
            while left > 0:
                take = min(8 - at % 8, left)
                got = got | ((data[at // 8] >> (at % 8)) & ((1 << take) - 1)) << (n - left)
                at += take
                left -= take
            require(got == v, where + ": " + what + " (bit " + str(pos) + ", " + str(n) + " wide)", v, got)
        return size


def le(data, at, n):
    return int.from_bytes(data[at : at + n], "little")


def var_file(header, body, size):
    f = Layout()
    f.raw(header, "mark")
    f.put(16, 1, "version")
    f.put(32, size, "size")
    f.join(body)
    return f


def level_file(variables, regions, shot=b"", version=44, uid=0, meta_version=4, total=None):
    """regions: list of region bytes"""
    f = Layout()
    f.raw(b"DF_LVL", "mark")
    f.put(16, version, "level version")
    size_at = len(f.fields)
    f.put(32, 0, "file size")
    f.put(32, len(regions), "region count")
    f.raw(b"DF_MTD", "metadata mark")
    f.put(16, meta_version, "metadata version")
    f.put(32, 0, "metadata region offset")
    f.put(32, uid, "next id")
    f.put(32, 0, "metadata field 1")
    f.put(32, 0, "metadata field 2")
    f.put(32, 0, "metadata field 3")
    if version > 43:
        f.put(32, len(shot), "screenshot length")
        f.raw(shot, "screenshot")
    f.join(variables)
    off = 0
    for r in regions:
        f.put(32, off, "region offset")
        off += len(r)
    f.pad()
    if total is None:
        total = f.n // 8 + off
    pos, n, _, what = f.fields[size_at]
    f.fields[size_at] = (pos, n, total, what)
    return f


def region_file(x, y, plain, segments, backdrop, version=14):
    packed = zlib.compress(plain)
    f = Layout()
    f.put(32, 17 + len(packed), "region size")
    f.put(32, len(plain), "uncompressed size")
    f.put(16, x, "region x")
    f.put(16, y, "region y")
    f.put(16, version, "region version")
    f.put(16, segments, "segment count")
    f.put(8, backdrop, "backdrop mark")
    return f.build() + packed


def segment(x, y, flags, content, version=8, dust=0, enemies=0, surface=0, blocks=0):
    """a segment in the layout of the given version, with its size filled in"""
    f = Layout()
    f.put(32, 0, "segment size")
    f.put(16, version, "segment version")
    f.put(8, x, "segment x")
    f.put(8, y, "segment y")
    f.put(8, 16, "segment width")
    if version > 4:
        f.put(32, 0, "level id")
        f.put(16, dust, "dust total")
        f.put(16, enemies, "enemy total")
    if version > 5:
        f.put(16, surface, "surface total")
        f.put(16, blocks, "dustblock total")
    f.put(32, flags, "content flags")
    f.join(content)
    f.pad()
    f.fields[0] = (0, 32, f.n // 8, "segment size")
    return f


def tile_bytes(f, t, what):
    """the twelve bytes of a tile: edge bits, join angles, sprite"""
    clockwise = [(0, 1), (1, 0), (1, 0), (0, 1)]  # which end of the edge is stored first, per side
    for side in range(4):
        f.put(1, t.edge_data[side].solid, what + ": solid bit of side " + str(side))
    for side in range(4):
        f.put(1, t.edge_data[side].visible, what + ": visible bit of side " + str(side))
    for side in range(4):
        for end in clockwise[side]:
            f.put(1, t.edge_data[side].caps[end], what + ": cap bit of side " + str(side))
    for side in range(4):
        for end in clockwise[side]:
            f.put(8, t.edge_data[side].angles[end], what + ": angle of side " + str(side))
    f.put(4, t.sprite_set, what + ": sprite set")
    f.put(4, t.sprite_palette, what + ": sprite palette")
    f.put(8, t.sprite_tile, what + ": sprite index")


def dust_bytes(f, t, what):
    clockwise = [(0, 1), (1, 0), (1, 0), (0, 1)]
    for side in range(4):
        f.put(3, t.edge_data[side].filth_sprite_set, what + ": filth set of side " + str(side))
        f.put(1, t.edge_data[side].filth_spike, what + ": spike bit of side " + str(side))
    for side in range(4):
        for end in clockwise[side]:
            f.put(8, t.edge_data[side].filth_angles[end], what + ": filth angle of side " + str(side))
    for side in range(4):
        for end in clockwise[side]:
            f.put(1, t.edge_data[side].filth_caps[end], what + ": filth cap of side " + str(side))
    f.put(8, 0, what + ": last byte")
