"""Input kinds and faulty streams."""
import io


class Fault(OSError):
    pass


class Plain:
    """the minimal seekable file-like object: read, seek, tell"""

    def __init__(self, data, pos=0):
        self.d, self.p = bytes(data), pos
        self.calls = 0

    def read(self, n=-1):
        self.calls += 1
        if n is None or n < 0:
            n = max(0, len(self.d) - self.p)
        out = self.d[self.p:self.p + n]
        self.p += len(out)
        return out

    def seek(self, off, whence=0):
        base = (0, self.p, len(self.d))[whence]
        if base + off < 0:
            raise ValueError("negative seek")
        self.p = base + off
        return self.p

    def tell(self):
        return self.p


class Short(Plain):
    """the k-th read delivers `lack` bytes less than it should"""

    def __init__(self, data, k, lack):
        super().__init__(data)
        self.k, self.lack, self.hit = k, lack, False

    def read(self, n=-1):
        k = self.calls
        p = self.p
        out = super().read(n)
        if k == self.k and out:
            keep = max(0, len(out) - self.lack)
            self.hit = True
            self.p = p + keep
            return out[:keep]
        return out


class Raising(Plain):
    """the k-th call (of the given kind) raises"""

    def __init__(self, data, k, kind, exc):
        super().__init__(data)
        self.k, self.kind, self.exc, self.n, self.hit = k, kind, exc, 0, False

    def _tick(self, kind):
        if self.kind in (kind, "any"):
            if self.n == self.k:
                self.n += 1
                self.hit = True
                raise self.exc("injected")
            self.n += 1

    def read(self, n=-1):
        self._tick("read")
        return super().read(n)

    def seek(self, off, whence=0):
        self._tick("seek")
        return super().seek(off, whence)

    def tell(self):
        self._tick("tell")
        return super().tell()
