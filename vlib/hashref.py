"""Independent implementations of the hashes thinc documents."""
M64 = (1 << 64) - 1


def _rotl(x, r):
    return ((x << r) | (x >> (64 - r))) & M64


def _fmix(k):
    k ^= k >> 33
    k = (k * 0xFF51AFD7ED558CCD) & M64
    k ^= k >> 33
    k = (k * 0xC4CEB9FE1A85EC53) & M64
    k ^= k >> 33
    return k


def murmur3_128_u64(val, seed):
    """MurmurHash3 x64_128 of one little-endian 64-bit value -> 4 x uint32."""
    val &= M64
    h1 = h2 = seed & 0xFFFFFFFF
    k1 = (val * 0x87C37B91114253D5) & M64
    k1 = _rotl(k1, 31)
    k1 = (k1 * 0x4CF5AD432745937F) & M64
    h1 ^= k1
    h1 ^= 8
    h2 ^= 8
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    h1, h2 = _fmix(h1), _fmix(h2)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    return [h1 & 0xFFFFFFFF, h1 >> 32, h2 & 0xFFFFFFFF, h2 >> 32]


def murmur64a(data, seed=0):
    """MurmurHash64A of bytes."""
    m, r = 0xC6A4A7935BD1E995, 47
    h = (seed ^ (len(data) * m)) & M64
    n = len(data) // 8
    for i in range(n):
        k = int.from_bytes(data[8 * i : 8 * i + 8], "little")
        k = (k * m) & M64
        k ^= k >> r
        k = (k * m) & M64
        h ^= k
        h = (h * m) & M64
    tail = data[8 * n :]
    if tail:
        h ^= int.from_bytes(tail, "little")
        h = (h * m) & M64
    h ^= h >> r
    h = (h * m) & M64
    h ^= h >> r
    return h


def _rotl32(x,r): return ((x<<r)|(x>>(32-r)))&0xffffffff
def murmur3_32(data, seed=0):
    """MurmurHash3_x86_32 of bytes."""
    h=seed; n=len(data)//4
    for i in range(n):
        k=int.from_bytes(data[4*i:4*i+4],'little')
        k=k*0xcc9e2d51&0xffffffff;k=_rotl32(k,15);k=k*0x1b873593&0xffffffff
        h^=k;h=_rotl32(h,13);h=(h*5+0xe6546b64)&0xffffffff
    t=data[4*n:]
    k=0
    for i,b in enumerate(t): k|=b<<(8*i)
    if t:
        k=k*0xcc9e2d51&0xffffffff;k=_rotl32(k,15);k=k*0x1b873593&0xffffffff;h^=k
    h^=len(data)
    h^=h>>16;h=h*0x85ebca6b&0xffffffff;h^=h>>13;h=h*0xc2b2ae35&0xffffffff;h^=h>>16
    return h
