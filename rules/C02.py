"""C02: seek, skip, align and flush land on the exact bit and lose nothing."""

import io

from dustmaker.bitio import BitIOReader, BitIOWriter

RULE = (
    "Reader: after any prefix read and any seek/skip/align combination of the partition, the bits delivered are those "
    "of the abstract buffer at the position reported. Writer: after any pending prefix and any seek/skip/align/flush, "
    "the stored bytes equal the oracle layout (pending bits stored once, zero padded), the position agrees, and "
    "unaligned seeks are refused without effect unless allowed."
)

POS = [0, 1, 3, 7, 8, 9, 12, 15, 16, 17, 22]


def bits(whole, pos, n):
    return (whole >> pos) & ((1 << n) - 1)


@cases(pre=[0, 1, 3, 8, 13], pos=POS, n=[1, 2, 7, 8, 9, 17])
def case_reader_seek(pre, pos, n):
    data = sbytes("d", 8)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    r.read(pre)
    r.bit_seek(pos)
    require(r.bit_tell() == pos, "position after seek")
    require(r.aligned() == (pos % 8 == 0), "alignment after seek")
    require(r.read(n) == bits(whole, pos, n), "bits at the seek target")
    require(r.bit_tell() == pos + n, "position after read")
    require(r.read(4) == bits(whole, pos + n, 4), "bits following")
    require(r.bit_tell() == pos + n + 4, "position after second read")


@cases(pre=[0, 1, 3, 8, 13], k=[0, 1, 4, 7, 8, 11, 16, 21])
def case_reader_skip(pre, k):
    data = sbytes("d", 8)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    r.read(pre)
    r.skip(k)
    require(r.bit_tell() == pre + k, "position after skip")
    require(r.read(9) == bits(whole, pre + k, 9), "bits after the skip")
    r.skip(3)
    require(r.bit_tell() == pre + k + 12, "position after second skip")
    require(r.read(2) == bits(whole, pre + k + 12, 2), "bits after the second skip")


@cases(pos=POS, k=[1, 2, 5, 8], how=["seek", "read"])
def case_reader_skip_after_seek(pos, k, how):
    data = sbytes("d", 8)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    r.bit_seek(pos)
    if how == "read":
        r.read(3)
        pos += 3
    r.skip(k)
    require(r.bit_tell() == pos + k, "position")
    require(r.read(10) == bits(whole, pos + k, 10), "bits after the skip")
    r.skip(-k)
    require(r.bit_tell() == pos + 10, "position after skipping back")
    require(r.read(6) == bits(whole, pos + 10, 6), "bits after skipping back")


@cases(pos=POS, mid=[0, 1, 5, 8, 11], seek=[False, True])
def case_reader_align(pos, mid, seek):
    data = sbytes("d", 8)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(io.BytesIO(data))
    if seek:
        r.bit_seek(pos)
    else:
        r.read(pos)
    if mid:
        r.read(mid)
    r.align()
    at = (pos + mid + 7) // 8 * 8
    require(r.bit_tell() == at, "position after align")
    require(r.aligned(), "aligned after align")
    require(r.read(11) == bits(whole, at, 11), "bits after align")
    r.align()
    at = (at + 11 + 7) // 8 * 8
    require(r.bit_tell() == at, "position after second align")
    require_same(r.read_bytes(1), bytes([bits(whole, at, 8)]), "byte after second align")


def layout(fields, size):
    total = 0
    for pos, v in fields:
        total |= v << pos
    return total.to_bytes(size, "little")


@cases(pre=range(0, 17), how=["align", "flush", "seek", "skip0"], post=[0, 1, 5, 8, 13])
def case_writer_pending(pre, how, post):
    """pending bits are stored once, zero padded, and writing continues at the reported position"""
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p = u("p", pre) if pre else 0
    q = u("q", post) if post else 0
    w.write(pre, p)
    at = (pre + 7) // 8 * 8
    if how == "align":
        w.align()
    elif how == "flush":
        w.flush()
    elif how == "seek":
        w.bit_seek(at)
    else:
        w.skip(at - pre)
    require(w.bit_tell() == at, "position")
    require(w.aligned(), "aligned")
    require_same(buf.getvalue(), layout([(0, p)], at // 8), "pending bits stored once, zero padded")
    w.flush()
    require(w.bit_tell() == at, "flush without pending bits does not move")
    w.write(post, q)
    w.align()
    require_same(buf.getvalue(), layout([(0, p), (at, q)], (at + post + 7) // 8), "bytes after continuing")
    w.close()
    require_same(buf.getvalue(), layout([(0, p), (at, q)], (at + post + 7) // 8), "bytes after close")


@cases(pre=[0, 3, 8, 13, 16], back=[0, 8, 16], n=[8, 12, 16, 5])
def case_writer_rewrite(pre, back, n):
    """seek back over existing data, write, seek to the end, continue"""
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    old = u("old", 40)
    w.write(40, old)
    p = u("p", pre) if pre else 0
    w.write(pre, p)
    end = (40 + pre + 7) // 8 * 8
    w.bit_seek(back)
    require(w.bit_tell() == back, "position after seeking back")
    v = u("v", n)
    w.write(n, v)
    w.bit_seek(end)
    require(w.bit_tell() == end, "position after seeking forward")
    t = u("t", 8)
    w.write(8, t)
    w.close()
    padded = (n + 7) // 8 * 8
    keep = ((1 << 40) - 1) & ~(((1 << padded) - 1) << back)
    want = (old & keep) | (v << back) | (p << 40) | (t << end)
    require_same(buf.getvalue(), want.to_bytes(end // 8 + 1, "little"), "bytes after rewriting")


@cases(pre=[0, 3, 8], pos=[1, 7, 9, 17, 30], skip=[False, True])
def case_writer_refuses_unaligned(pre, pos, skip):
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p = u("p", pre) if pre else 0
    w.write(pre, p)
    if skip and (pre + pos) % 8 == 0:
        return
    refused = False
    try:
        if skip:
            w.skip(pos)
        else:
            w.bit_seek(pos)
    except RuntimeError:
        refused = True
    require(refused, "unaligned seek is refused")
    require(w.bit_tell() == pre, "refused seek does not move")
    t = u("t", 6)
    w.write(6, t)
    w.close()
    require_same(buf.getvalue(), layout([(0, p), (pre, t)], (pre + 6 + 7) // 8), "refused seek has no effect on the data")


@cases(pos=[1, 4, 7, 9, 14], n=[1, 3, 8, 9])
def case_writer_unaligned_allowed(pos, n):
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    old = u("old", 40)
    w.write(40, old)
    w.bit_seek(pos, allow_unaligned=True)
    require(w.bit_tell() == pos, "position after allowed seek")
    v = u("v", n)
    w.write(n, v)
    require(w.bit_tell() == pos + n, "position after write")
    w.bit_seek(40)
    w.close()
    first = pos // 8 * 8
    last = (pos + n + 7) // 8 * 8
    keep = ((1 << 40) - 1) & ~(((1 << (last - first)) - 1) << first)
    require_same(buf.getvalue(), ((old & keep) | (v << pos)).to_bytes(5, "little"), "bytes around the allowed write")


@cases(pos=[1, 4, 7, 9, 14])
def case_writer_align_after_unaligned(pos):
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    old = u("old", 40)
    w.write(40, old)
    w.bit_seek(pos, allow_unaligned=True)
    w.align()
    at = (pos + 7) // 8 * 8
    require(w.bit_tell() == at, "position after align")
    v = u("v", 8)
    w.write(8, v)
    require(w.bit_tell() == at + 8, "position after write")
    w.bit_seek(40)
    w.close()
    keep = ((1 << 40) - 1) & ~(255 << at)
    require_same(buf.getvalue(), ((old & keep) | (v << at)).to_bytes(5, "little"), "bytes after aligned write")


@cases(pre=[0, 5, 8], gap=[1, 2, 5])
def case_writer_gap(pre, gap):
    """seeking past the end leaves zero bytes and later data lands where reported"""
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    p = u("p", pre) if pre else 0
    w.write(pre, p)
    at = ((pre + 7) // 8 + gap) * 8
    w.bit_seek(at)
    v = u("v", 16)
    w.write(16, v)
    w.close()
    require_same(buf.getvalue(), layout([(0, p), (at, v)], at // 8 + 2), "bytes")


@cases(start=[1, 2], pre=[0, 4, 8])
def case_offset_stream(start, pre):
    """a stream that does not begin at zero"""
    buf = io.BytesIO(bytes(start))
    buf.seek(start)
    w = BitIOWriter(buf, noclose=True)
    p = u("p", pre) if pre else 0
    w.write(pre, p)
    w.align()
    at = 8 * start + (pre + 7) // 8 * 8
    require(w.bit_tell() == at, "position")
    w.bit_seek(at + 8)
    v = u("v", 8)
    w.write(8, v)
    w.close()
    data = buf.getvalue()
    require_same(data, layout([(8 * start, p), (at + 8, v)], at // 8 + 2), "bytes")
    r = BitIOReader(io.BytesIO(data))
    r.bit_seek(at + 8)
    require(r.read(8) == v, "value at its position")


class Pipe(io.BytesIO):
    """a stream that can be neither positioned nor asked for its position"""

    def tell(self):
        raise io.UnsupportedOperation("tell")

    def seek(self, pos, whence=0):
        raise io.UnsupportedOperation("seek")


@cases(pre=[0, 1, 3, 7, 8, 13], op=["align", "flush", "both"], n=[1, 5, 8, 11])
def case_writer_unseekable(pre, op, n):
    out = Pipe()
    w = BitIOWriter(out, noclose=True)
    v = u("v", 13)
    x = u("x", 11)
    if pre:
        w.write(pre, v & ((1 << pre) - 1))
    if op in ("align", "both"):
        w.align()
    if op in ("flush", "both"):
        w.flush()
    at = (pre + 7) // 8 * 8
    require(w.bit_tell() == at, "position after the move on an unseekable stream")
    w.write(n, x & ((1 << n) - 1))
    w.align()
    require(w.bit_tell() == at + (n + 7) // 8 * 8, "position after the second move")
    w.close()
    want = (v & ((1 << pre) - 1)) | (x & ((1 << n) - 1)) << at
    require(out.getvalue() == want.to_bytes(at // 8 + (n + 7) // 8, "little"), "bytes stored")


@cases(pre=[0, 1, 3, 7, 8, 13], n=[1, 5, 8, 11])
def case_reader_unseekable(pre, n):
    data = sbytes("d", 6)
    whole = int.from_bytes(data, "little")
    r = BitIOReader(Pipe(data))
    if pre:
        require(r.read(pre) == bits(whole, 0, pre), "bits")
    r.align()
    at = (pre + 7) // 8 * 8
    require(r.bit_tell() == at, "position after align on an unseekable stream")
    require(r.read(n) == bits(whole, at, n), "bits after align")
    require(r.bit_tell() == at + n, "position")


def draw(state, n):
    state[0] = (state[0] * 1103515245 + 12345) % 2147483648
    return (state[0] >> 12) % n


COUNT = 3000 if THOROUGH else 600


@cases(seed=range(COUNT))
def case_reader_program(seed):
    """sequences of reads, seeks, skips and alignments"""
    size = 12
    data = sbytes("d", size)
    whole = int.from_bytes(data, "little")
    st = [seed * 7919 + 17]
    for _ in range(5):
        draw(st, 2)
    start = draw(st, 3)
    under = io.BytesIO(data)
    under.seek(start)
    r = BitIOReader(under)
    pos = 8 * start
    for step in range(9):
        op = draw(st, 8)
        if op <= 2 or pos > 8 * size - 20:
            if pos > 8 * size - 20:
                pos = draw(st, 40)
                r.bit_seek(pos)
                require(r.bit_tell() == pos, "position after seek")
            n = draw(st, 18) if op else draw(st, 3)
            if pos + n > 8 * size:
                n = 8 * size - pos
            signed = op == 1 and n > 0
            want = bits(whole, pos, n)
            if signed:
                want = want - (((want >> (n - 1)) & 1) << n)
            require(r.read(n, signed) == want, "bits at the position", pos, n)
            pos += n
        elif op == 3:
            k = draw(st, 4)
            if pos + 8 * k <= 8 * size:
                require(r.read_bytes(k) == bits(whole, pos, 8 * k).to_bytes(k, "little"), "bytes at the position", pos, k)
                pos += 8 * k
        elif op == 4:
            pos = draw(st, 8 * size - 20)
            r.bit_seek(pos)
        elif op == 5:
            k = draw(st, 19) - 6
            if 0 <= pos + k <= 8 * size - 8:
                r.skip(k)
                pos += k
        elif op == 6:
            r.align()
            pos = (pos + 7) // 8 * 8
        else:
            pos = draw(st, size) * 8
            r.bit_seek(pos)
        require(r.bit_tell() == pos, "position", step)
        require(r.aligned() == (pos % 8 == 0), "alignment", step)
    if pos + 5 <= 8 * size:
        require(r.read(5) == bits(whole, pos, 5), "bits at the end", pos)


class Model:
    """the stored bytes and the bits waiting for the rest of their byte"""

    def __init__(self):
        self.mem = []
        self.at = 0
        self.pend = []
        self.dirty = False

    def store(self, byte):
        while len(self.mem) <= self.at:
            self.mem.append(0)
        total = 0
        for i, b in enumerate(byte):
            total = total | (b << i)
        self.mem[self.at] = total
        self.at += 1

    def write(self, n, v):
        for i in range(n):
            self.pend.append((v >> i) & 1)
            self.dirty = True
            if len(self.pend) == 8:
                self.store(self.pend)
                self.pend = []
                self.dirty = False

    def flush(self):
        if self.dirty:
            self.store(self.pend)
            self.pend = []
            self.dirty = False

    def tell(self):
        return self.at * 8 + len(self.pend)

    def seek(self, pos):
        self.flush()
        self.at, self.pend, self.dirty = pos // 8, [0] * (pos % 8), False


@cases(seed=range(COUNT))
def case_writer_program(seed):
    """sequences of writes, seeks, skips, alignments and flushes"""
    st = [seed * 6007 + 29]
    for _ in range(5):
        draw(st, 2)
    buf = io.BytesIO()
    w = BitIOWriter(buf, noclose=True)
    m = Model()
    for step in range(9):
        op = draw(st, 9)
        if op <= 3:
            n = draw(st, 20) if op else 1 + draw(st, 4)
            if m.pend and not m.dirty and n == 0:
                n = 3
            v = u("v" + str(step), n) if n else 0
            w.write(n, v)
            m.write(n, v)
        elif op == 4:
            k = draw(st, 4)
            if m.pend and not m.dirty and k == 0:
                k = 1
            data = sbytes("b" + str(step), k)
            w.write_bytes(data)
            for x in data:
                m.write(8, x)
        elif op == 5:
            w.align()
            if m.dirty:
                m.flush()
            elif m.pend:
                m.at, m.pend = m.at + 1, []
        elif op == 6:
            w.flush()
            m.flush()
        elif op == 7:
            pos = 8 * draw(st, len(m.mem) + 2)
            w.bit_seek(pos)
            m.seek(pos)
        else:
            pos = draw(st, 8 * len(m.mem) + 9)
            if draw(st, 2):
                w.bit_seek(pos, allow_unaligned=True)
                m.seek(pos)
            elif pos % 8:
                before = buf.getvalue()
                refused = False
                try:
                    w.bit_seek(pos)
                except RuntimeError:
                    refused = True
                require(refused, "an unaligned seek is refused", pos)
                require_same(buf.getvalue(), before, "a refused seek stores nothing")
            else:
                d = pos - m.tell()
                w.skip(d)
                m.seek(pos)
        require(w.bit_tell() == m.tell(), "position", step)
        require(w.aligned() == (m.tell() % 8 == 0), "alignment", step)
        require_same(buf.getvalue(), bytes(m.mem), "stored bytes")
    w.close()
    m.flush()
    require_same(buf.getvalue(), bytes(m.mem), "bytes after closing")
