"""C01: bit fields survive a write/read cycle at any alignment."""

import io

from dustmaker.bitio import BitIOReader, BitIOWriter

RULE = (
    "For every alignment 0..7 and every field width of the partition, the bits handed to BitIOWriter.write/write_bytes "
    "are traced to the stream and compared, bit for bit and for all field values, with the little-endian layout "
    "'prefix | field << offset | ...'; BitIOReader.read/read_bytes is traced over a fully abstract buffer and must "
    "return exactly the addressed bits (sign-extended iff signed); positions must advance by the width."
)

WIDTHS = list(range(0, 41)) + [47, 48, 63, 64, 65, 96]
if THOROUGH:
    WIDTHS = list(range(0, 131))


@cases(off=range(8), n=WIDTHS)
def case_write_layout(off, n):
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p = u("p", 7) & ((1 << off) - 1)
    v = u("v", n) if n else 0
    t = u("t", 5)
    w.write(off, p)
    require(w.bit_tell() == off, "writer position after prefix")
    w.write(n, v)
    require(w.bit_tell() == off + n, "writer position after field")
    require(w.aligned() == ((off + n) % 8 == 0), "writer alignment after field")
    w.write(5, t)
    require(w.bit_tell() == off + n + 5, "writer position after trailing field")
    w.close()
    total = p | (v << off) | (t << (off + n))
    size = (off + n + 5 + 7) // 8
    require_same(buf.getvalue(), total.to_bytes(size, "little"), "stored bytes")


@cases(off=range(8), n=WIDTHS)
def case_write_negative(off, n):
    if n == 0 or n > 65:
        return
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    v = s("v", n)
    w.write(off, 0)
    w.write(n, v)
    w.close()
    field = v & ((1 << n) - 1)
    require_same(buf.getvalue(), (field << off).to_bytes((off + n + 7) // 8, "little"), "two's complement bytes")
    r = BitIOReader(io.BytesIO(buf.getvalue()))
    r.read(off)
    require(r.read(n, True) == v, "signed value read back")


@cases(off=range(8), n=WIDTHS, signed=[False, True])
def case_read(off, n, signed):
    if n == 0 and signed:
        return
    size = (off + n + 6 + 7) // 8 + 1
    data = sbytes("d", size)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    a = r.read(off)
    require(a == whole & ((1 << off) - 1), "prefix bits")
    require(r.bit_tell() == off, "reader position after prefix")
    v = r.read(n, signed)
    want = (whole >> off) & ((1 << n) - 1)
    if signed and want >> (n - 1):
        want -= 1 << n
    require(v == want, "field value")
    require(r.bit_tell() == off + n, "reader position after field")
    require(r.aligned() == ((off + n) % 8 == 0), "reader alignment after field")
    b = r.read(6)
    require(b == (whole >> (off + n)) & 63, "bits following the field")
    require(r.bit_tell() == off + n + 6, "reader position after trailing field")


@cases(off=range(8), k=range(1, 9), signed=[False, True])
def case_read_buffered(off, k, signed):
    """fields that lie entirely inside already buffered bits"""
    if off + k + 1 > 16:
        return
    data = sbytes("d", 3)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    r.read(off + 1)
    v = r.read(k, signed)
    want = (whole >> (off + 1)) & ((1 << k) - 1)
    if signed and want >> (k - 1):
        want -= 1 << k
    require(v == want, "buffered field value")
    require(r.read(3) == (whole >> (off + 1 + k)) & 7, "bits following a buffered field")


@cases(off=range(8), n=[0, 1, 2, 3, 7, 16], tail=[0, 3, 8])
def case_bytes(off, n, tail):
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p = u("p", 7) & ((1 << off) - 1)
    t = u("t", 8) & ((1 << tail) - 1)
    raw = sbytes("b", n)
    w.write(off, p)
    w.write_bytes(raw)
    require(w.bit_tell() == off + 8 * n, "writer position after bytes")
    w.write(tail, t)
    require(w.bit_tell() == off + 8 * n + tail, "writer position after tail")
    w.close()
    total = p | (int.from_bytes(raw, "little") << off) | (t << (off + 8 * n))
    require_same(buf.getvalue(), total.to_bytes((off + 8 * n + tail + 7) // 8, "little"), "stored bytes")
    r = BitIOReader(io.BytesIO(buf.getvalue()))
    require(r.read(off) == p, "prefix read back")
    require_same(r.read_bytes(n), raw, "bytes read back")
    require(r.bit_tell() == off + 8 * n, "reader position after bytes")
    require(r.read(tail) == t, "tail read back")
    require(r.bit_tell() == off + 8 * n + tail, "reader position after tail")


@cases(off=range(8), n=[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025] + ([2047, 2048, 2049, 4095, 4096, 4097] if THOROUGH else [2048, 4096]))
def case_long_bytes(off, n):
    """byte strings around the sizes at which code likes to divide its work"""
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p, t = u("p", 7) & ((1 << off) - 1), u("t", 3)
    raw = sbytes("b", n)
    w.write(off, p)
    w.write_bytes(raw)
    require(w.bit_tell() == off + 8 * n, "writer position after bytes")
    w.write(3, t)
    w.close()
    cells = [p] + [0] * n + [0]
    for i in range(n):
        cells[i] |= (raw[i] << off) & 255
        cells[i + 1] |= raw[i] >> (8 - off)
    cells[n] |= (t << off) & 255
    cells[n + 1] = t >> (8 - off)
    require_same(buf.getvalue(), bytes(cells)[: (off + 8 * n + 3 + 7) // 8], "stored bytes")
    r = BitIOReader(io.BytesIO(buf.getvalue()))
    require(r.read(off) == p, "prefix read back")
    require_same(r.read_bytes(n), raw, "bytes read back")
    require(r.bit_tell() == off + 8 * n, "reader position after bytes")
    require(r.read(3) == t, "tail read back")


PATTERNS = {
    "zeros": lambda n: bytes(n),
    "ones": lambda n: b"\xff" * n,
    "zero end": lambda n: b"\x5a" * (n - n // 3) + bytes(n // 3),
    "zero start": lambda n: bytes(n // 3) + b"\xa5" * (n - n // 3),
    "top bits": lambda n: b"\x80" * n,
    "marks": lambda n: (b"\x00\xff\r\n\x1a\x7f" * n)[:n],
}


@cases(off=range(8), n=[1, 2, 8, 9, 63, 64, 65, 200, 513, 1100], pattern=list(PATTERNS))
def case_plain_bytes(off, n, pattern):
    """particular contents, so that code which looks at them is followed as well"""
    raw = PATTERNS[pattern](n)
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    w.write(off, 0)
    w.write_bytes(raw)
    w.write(3, 5)
    w.close()
    total = (int.from_bytes(raw, "little") << off) | (5 << (off + 8 * n))
    require(buf.getvalue() == total.to_bytes((off + 8 * n + 10) // 8, "little"), "stored bytes")
    r = BitIOReader(io.BytesIO(buf.getvalue()))
    r.read(off)
    require(r.read_bytes(n) == raw, "bytes read back")
    require(r.bit_tell() == off + 8 * n, "reader position after bytes")
    require(r.read(3) == 5, "tail read back")


SEQS = [
    (1, 1, 1, 1, 1, 1, 1, 1, 1),
    (3, 5, 8, 16, 1),
    (7, 1, 7, 1, 9),
    (2, 14, 3, 13, 5, 11),
    (6, 6, 6, 6),
    (4, 32, 4, 32, 4),
    (17, 3, 33, 1, 10),
    (31, 1, 31, 1),
    (5, 0, 3, 0, 8, 0, 7),
    (12, 20, 4, 4, 24, 7, 1, 5),
]


@cases(seq=SEQS, start=[0, 1, 3], signed=[False, True])
def case_sequence(seq, start, signed):
    """several fields, read back both with the same widths and with the first two merged"""
    under = io.BytesIO(bytes(start))
    under.seek(start)
    w = BitIOWriter(under, noclose=True)
    pos = 8 * start
    require(w.bit_tell() == pos, "initial position is that of the stream")
    vals = []
    i = 0
    for n in seq:
        v = 0
        if n:
            v = s("v" + str(i), n) if signed else u("v" + str(i), n)
        vals.append(v)
        w.write(n, v)
        pos += n
        require(w.bit_tell() == pos, "writer position")
        i += 1
    w.close()
    under.seek(start)
    r = BitIOReader(under, noclose=True)
    pos = 8 * start
    for n, v in zip(seq, vals):
        require(r.read(n, signed and n > 0) == v, "field read back")
        pos += n
        require(r.bit_tell() == pos, "reader position")


@cases(n=[3, 8, 21])
def case_no_tell(n):
    """a stream without a position counts from zero"""

    class NoTell:
        def __init__(self, data):
            self.inner = io.BytesIO(data)

        def read(self, k):
            return self.inner.read(k)

    data = sbytes("d", 4)
    r = BitIOReader(NoTell(data))
    require(r.bit_tell() == 0, "position counts from zero")
    require(r.read(n) == int.from_bytes(data, "little") & ((1 << n) - 1), "value")
    require(r.bit_tell() == n, "position")
