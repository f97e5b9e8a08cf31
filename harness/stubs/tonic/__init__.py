# Stand-in for the missing dependency `tonic`, with the behaviour bglib's own tests and callers document.


class BitsArray(object):
    """n bits; endian '<': bit i of the packed form is bit i%8 of byte i//8, and an integer's low bit comes first."""
    def __init__(self, size=0, binary=None, endian='<', bits=None):
        assert endian == '<'
        self.endian = endian
        if bits is not None:
            self._bits = list(bits)
        else:
            self._bits = [0] * size
            if binary is not None:
                for i in range(min(size, len(binary) * 8)):
                    self._bits[i] = (ord(binary[i // 8]) >> (i % 8)) & 1

    size = property(lambda self: len(self._bits))

    def __len__(self):
        return len(self._bits)

    def __iter__(self):
        return iter(self._bits)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return BitsArray(bits=self._bits[k])
        return self._bits[k]

    def __getslice__(self, i, j):
        return BitsArray(bits=self._bits[i:j])

    def __setitem__(self, k, v):
        self._bits[k] = int(bool(v))

    def __int__(self):
        return sum(b << i for i, b in enumerate(self._bits))

    def __nonzero__(self):
        return any(self._bits)

    def set_shiftable(self, value, begin, end):
        value = int(value)
        if value < 0 or value >= 1 << (end - begin):
            raise ValueError("%d does not fit in %d bits" % (value, end - begin))
        for i in range(begin, end):
            self._bits[i] = (value >> (i - begin)) & 1

    @property
    def binary(self):
        out = []
        for k in range(0, len(self._bits), 8):
            out.append(chr(sum(b << i for i, b in enumerate(self._bits[k:k + 8]))))
        return ''.join(out)
