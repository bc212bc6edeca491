"""C03: closing a bit stream stores the pending bits once and honours ownership."""

import io

from dustmaker.bitio import BitIOReader, BitIOWriter
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter

RULE = (
    "For every number of pending bits, every way of closing (close, with block, exception leaving the with block, "
    "second close) and every ownership setting (default, noclose, release) the data held by the underlying stream and "
    "its open/closed state are derived by abstract interpretation and compared with the rule; a stream whose write "
    "fails must still be closed."
)


class Sink(io.BytesIO):
    """stream that keeps its data after being closed"""

    def __init__(self):
        super().__init__()
        self.final = None
        self.closes = 0

    def close(self):
        self.closes += 1
        if self.final is None:
            self.final = self.getvalue()
        super().close()


class Boom(Exception):
    pass


@cases(n=range(0, 18), how=["close", "with", "raise"], own=["default", "noclose", "release", "release_late"], cls=[BitIOWriter, DFWriter])
def case_writer(n, how, own, cls):
    sink = Sink()
    v = u("v", n) if n else 0
    w = cls(sink, noclose=(own == "noclose"))
    if own == "release":
        w.release()
    if how == "close":
        w.write(n, v)
        if own == "release_late":
            w.release()
        w.close()
    elif how == "with":
        with w as inner:
            require(inner is w, "with yields the writer itself")
            w.write(n, v)
            if own == "release_late":
                w.release()
    else:
        caught = False
        try:
            with w:
                w.write(n, v)
                if own == "release_late":
                    w.release()
                raise Boom()
        except Boom:
            caught = True
        require(caught, "exception leaves the with block")
    want = v.to_bytes((n + 7) // 8, "little")
    if own == "default":
        require(sink.closed, "owned stream is closed")
        require(sink.closes >= 1, "owned stream is closed")
        require_same(sink.final, want, "data stored before closing")
    else:
        require(not sink.closed, "stream that is not owned stays open")
        require(sink.closes == 0, "stream that is not owned is not closed")
        require_same(sink.getvalue(), want, "stream that is not owned holds the complete data")


@cases(n=[0, 3, 8, 11], flushes=[1, 2], own=["noclose", "release"])
def case_writer_twice(n, flushes, own):
    """flushing or closing again stores nothing more"""
    sink = Sink()
    v = u("v", n) if n else 0
    w = BitIOWriter(sink, noclose=(own == "noclose"))
    if own == "release":
        w.release()
    w.write(n, v)
    for _ in range(flushes):
        w.flush()
    w.close()
    require_same(sink.getvalue(), v.to_bytes((n + 7) // 8, "little"), "pending bits stored exactly once")
    w.close()
    require_same(sink.getvalue(), v.to_bytes((n + 7) // 8, "little"), "closing again stores nothing more")
    require(not sink.closed, "stream stays open")


class Failing(io.BytesIO):
    def __init__(self):
        super().__init__()
        self.armed = False
        self.closes = 0

    def write(self, data):
        if self.armed:
            raise OSError("disk full")
        return super().write(data)

    def close(self):
        self.closes += 1
        super().close()


@cases(n=[3, 11, 15], how=["close", "with", "raise"], own=["default", "noclose"], cls=[BitIOWriter, DFWriter])
def case_writer_failing(n, how, own, cls):
    sink = Failing()
    v = u("v", n)
    w = cls(sink, noclose=(own == "noclose"))
    failed = False
    try:
        if how == "close":
            w.write(n, v)
            sink.armed = True
            w.close()
        else:
            with w:
                w.write(n, v)
                sink.armed = True
                if how == "raise":
                    raise Boom()
    except OSError:
        failed = True
    require(failed, "failure to store the last bits is reported")
    if own == "default":
        require(sink.closes >= 1 and sink.closed, "stream is closed although storing the last bits failed")
    else:
        require(sink.closes == 0, "stream that is not owned is left open")


@cases(n=[0, 3, 8], how=["close", "with", "raise"], own=["default", "noclose", "release"], cls=[BitIOReader, DFReader])
def case_reader(n, how, own, cls):
    src = Sink()
    data = sbytes("d", 3)
    src.write(data)
    src.seek(0)
    r = cls(src, noclose=(own == "noclose"))
    if own == "release":
        r.release()
    if how == "close":
        r.read(n)
        r.close()
    elif how == "with":
        with r as inner:
            require(inner is r, "with yields the reader itself")
            r.read(n)
    else:
        caught = False
        try:
            with r:
                r.read(n)
                raise Boom()
        except Boom:
            caught = True
        require(caught, "exception leaves the with block")
    if own == "default":
        require(src.closed and src.closes >= 1, "owned stream is closed")
    else:
        require(not src.closed and src.closes == 0, "stream that is not owned stays open")
        require_same(src.getvalue(), data, "reader does not change the data")


class Quit(BaseException):
    pass


CAUSES = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
    "StopIteration": StopIteration,
    "EOFError": EOFError,
    "OSError": OSError,
    "ValueError": ValueError,
    "AssertionError": AssertionError,
    "RuntimeError": RuntimeError,
    "MemoryError": MemoryError,
    "Quit": Quit,
}


@cases(n=[3, 11], cause=list(CAUSES), own=["default", "noclose"], cls=[BitIOWriter, DFWriter, DFReader])
def case_any_exception(n, cause, own, cls):
    """whatever the exception is"""
    sink = Sink()
    data = sbytes("d", 3)
    if cls is DFReader:
        sink.write(data)
        sink.seek(0)
    w = cls(sink, noclose=(own == "noclose"))
    v = u("v", n)
    caught = False
    try:
        with w:
            if cls is DFReader:
                w.read(n)
            else:
                w.write(n, v)
            raise CAUSES[cause]()
    except BaseException as e:
        caught = type(e) is CAUSES[cause]
    require(caught, "the exception leaves the with block")
    want = data if cls is DFReader else v.to_bytes((n + 7) // 8, "little")
    require(sink.closed == (own == "default"), "stream is closed exactly when owned")
    require_same(sink.final if own == "default" else sink.getvalue(), want, "data stored before closing")


@cases(n=[0, 5, 8, 20])
def case_file(n):
    """a file opened for writing holds everything once the writer is closed"""
    v = u("v", n) if n else 0
    with BitIOWriter(open("out.bin", "wb")) as w:
        w.write(n, v)
    require_same(get_file("out.bin"), v.to_bytes((n + 7) // 8, "little"), "file content")
    with BitIOReader(open("out.bin", "rb")) as r:
        require(r.read(n) == v, "read back from the file")


class Raw(io.RawIOBase):
    """unbuffered sink"""

    def __init__(self):
        self.got = b""

    def writable(self):
        return True

    def write(self, b):
        self.got += bytes(b)
        return len(b)


@cases(n=[5, 8, 20], how=["close", "with", "raise"], own=["default", "noclose", "release"])
def case_raw(n, how, own):
    """an unbuffered stream gets the data as well"""
    raw = Raw()
    v = u("v", n)
    w = BitIOWriter(raw, noclose=(own == "noclose"))
    if own == "release":
        w.release()
    try:
        if how == "close":
            w.write(n, v)
            w.close()
        else:
            with w:
                w.write(n, v)
                if how == "raise":
                    raise Boom()
    except Boom:
        pass
    require_same(raw.got, v.to_bytes((n + 7) // 8, "little"), "unbuffered stream holds the complete data")
    require(raw.closed == (own == "default"), "unbuffered stream is closed exactly when owned")
