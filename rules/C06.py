"""C06: fixed-point numbers round-trip exactly and round down otherwise."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter

RULE = (
    "For every format width pair of the partition the number is an abstract dyadic rational (all multiples of 2**-f "
    "inside the range, both signs): tracing write_float and read_float over it must give the number itself when the "
    "format resolves it, and otherwise its floor to the format's resolution, at every alignment; abstract raw fields "
    "decode as sign, magnitude and binary fraction."
)

FORMATS = [(32, 32), (32, 8), (28, 4), (8, 8), (16, 2), (4, 6)]
if THOROUGH:
    FORMATS = FORMATS + [(i, f) for i in [2, 5, 9, 17, 24, 31, 40] for f in [2, 3, 5, 9, 16, 24]]


def trip(ibits, fbits, val, off=0):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write(off, 0)
    w.write_float(ibits, fbits, val)
    require(w.bit_tell() == off + ibits + fbits, "field width", w.bit_tell())
    w.write(3, 5)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    r.read(off)
    back = r.read_float(ibits, fbits)
    require(r.read(3) == 5, "data after the number is intact")
    return back


@cases(fmt=FORMATS, sign=[1, -1, 0], off=[0, 3, 7])
def case_exact(fmt, sign, off):
    """all numbers with fbits - 1 fraction bits"""
    ibits, fbits = fmt
    frac = fbits - 1
    if ibits - 1 + frac > 53:
        ibits_used = 53 - frac  # a double holds 53 bits
    else:
        ibits_used = ibits - 1
    n = ibits_used + frac
    if sign == 1:
        x = dyadic("x", n, frac, False)
    elif sign == -1:
        x = -dyadic("x", n - 1, frac, False)
    else:
        x = dyadic("x", n, frac, True)
    back = trip(ibits, fbits, x, off)
    require(back == x, "representable number read back exactly", x, back)


@cases(fmt=FORMATS, ival=[0, 1, 2, 1000, 2**20, 2**21 + 1, 2**22 - 1, -1, -2, -1000, -(2**20), -(2**21) - 3, -(2**22)])
def case_exact_full(fmt, ival):
    """numbers next to whole numbers, at full fraction width"""
    ibits, fbits = fmt
    if abs(ival) >= 1 << (ibits - 2):
        return
    frac = fbits - 1
    x = ival + dyadic("f", frac, frac, False)
    require(trip(ibits, fbits, x) == x, "representable number read back exactly", x)


@cases(fmt=FORMATS, extra=[1, 2, 5])
def case_round_down(fmt, extra):
    """numbers between two representable ones"""
    ibits, fbits = fmt
    frac = fbits - 1
    n = min(ibits - 2, 12) + frac + extra
    if n > 53:
        n = 53
    x = dyadic("x", n, frac + extra, True)
    back = trip(ibits, fbits, x)
    require(back <= x, "never rounds up", x, back)
    require(x - back < 1.0 / (1 << frac), "largest representable number not above the value", x, back)
    scaled = back * (1 << frac)
    require(scaled == int(scaled), "representable result", back)


@cases(fmt=FORMATS)
def case_whole(fmt):
    """all whole numbers, given as int or float"""
    ibits, fbits = fmt
    n = min(ibits - 1, 31)
    x = s("i", n, None, None)
    require(trip(ibits, fbits, x) == x, "whole number read back exactly", x)
    require(trip(ibits, fbits, float(x)) == x, "whole float read back exactly", x)


@cases(fmt=FORMATS)
def case_decode(fmt):
    """abstract stored fields"""
    ibits, fbits = fmt
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    sg = u("sg", 1)
    ip = u("ip", min(ibits - 1, 20))
    fp = u("fp", min(fbits - 1, 31))
    w.write(1, sg)
    w.write(ibits - 1, ip)
    w.write(fbits, fp)
    w.close()
    back = DFReader(io.BytesIO(buf.getvalue())).read_float(ibits, fbits)
    whole = -ip if sg == 1 else ip
    require(back == whole + fp / (1 << (fbits - 1)), "decoded number", back)


@cases(fmt=FORMATS, x=[0.0, 0.5, -0.5, -0.25, -1.0, 1.5, -1.5, -2.75, 3.0, 5.984375, -5.984375])
def case_layout(fmt, x):
    """stored layout: sign, magnitude of the floor, fraction above the floor"""
    ibits, fbits = fmt
    if abs(x) > 4 and ibits < 6:
        return
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_float(ibits, fbits, x)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    low = int(x)
    if low > x:
        low -= 1
    require(r.read(1) == (1 if x < 0 else 0), "sign field")
    require(r.read(ibits - 1) == abs(low), "integer field")
    require(r.read(fbits) == int((x - low) * (1 << (fbits - 1))), "fraction field")
