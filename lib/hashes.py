"""The hash functions of the implementation's tables, only used to choose keys that collide (a different function makes the choice less interesting, not wrong)."""
import struct

M64 = (1 << 64) - 1


def hash_bits(h):
    h &= M64
    h = (~h + (h << 18)) & M64
    h ^= h >> 31
    h = (h * 21) & M64
    h ^= h >> 11
    h = (h + (h << 6)) & M64
    h ^= h >> 22
    return h & 0x3fffffff


def hash_num(x):
    return hash_bits(struct.unpack("<Q", struct.pack("<d", float(x)))[0])


def hash_str(s):
    h = 2166136261
    for b in s.encode():
        h = ((h ^ b) * 16777619) & 0xffffffff
    return h


def colliding(n, mask, want=None, kind="num", start=1):
    """The first n numbers (or strings) whose hashes agree under the mask."""
    f = hash_num if kind == "num" else hash_str
    out, i = [], start
    while len(out) < n:
        k = i if kind == "num" else "k%d" % i
        h = f(k) & mask
        if want is None:
            want = h
        if h == want:
            out.append(k)
        i += 1
    return out
