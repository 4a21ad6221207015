"""Reference definition of the generation 5 initial seed."""
from spec.generators import M32, M64


def bswap(v):
    return ((v & 0xFF) << 24) | ((v & 0xFF00) << 8) | ((v >> 8) & 0xFF00) | ((v >> 24) & 0xFF)


def rotl(v, k):
    return ((v << k) | (v >> (32 - k))) & M32


def bcd(v):
    return (v // 10) * 16 + v % 10


def message(nazo, vcount, timer0, mac, soft_reset, vframe, gx, date, time, button, three_ds):
    w = [nazo[0], nazo[1], nazo[2], nazo[3], nazo[4]]
    w.append(bswap((vcount << 16) | timer0))
    low = mac & 0xFFFF
    if soft_reset:
        low = low ^ 0x01000000
    w.append(low)
    w.append((mac >> 16) ^ (vframe << 24) ^ gx)
    w.append((bcd(date[0] - 2000) << 24) | (bcd(date[1]) << 16) | (bcd(date[2]) << 8) | date[3])
    hour = bcd(time[0])
    if time[0] >= 12 and not three_ds:
        hour = hour + 0x40
    w.append((hour << 24) | (bcd(time[1]) << 16) | (bcd(time[2]) << 8))
    w.append(0)
    w.append(0)
    w.append(button)
    w.append(0x80000000)
    w.append(0)
    w.append(0x1A0)
    return w


def compress(w):
    """first two words of SHA-1 of a one-block message (without padding: the block is given)"""
    w = list(w)
    for i in range(16, 80):
        w.append(rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1))
    a = 0x67452301
    b = 0xEFCDAB89
    c = 0x98BADCFE
    d = 0x10325476
    e = 0xC3D2E1F0
    for i in range(80):
        if i < 20:
            f = (b & c) | ((b ^ M32) & d)
            k = 0x5A827999
        elif i < 40:
            f = b ^ c ^ d
            k = 0x6ED9EBA1
        elif i < 60:
            f = (b & c) | (b & d) | (c & d)
            k = 0x8F1BBCDC
        else:
            f = b ^ c ^ d
            k = 0xCA62C1D6
        t = (rotl(a, 5) + f + e + k + w[i]) & M32
        e = d
        d = c
        c = rotl(b, 30)
        b = a
        a = t
    return (a + 0x67452301) & M32, (b + 0xEFCDAB89) & M32


def seed_of(w):
    h0, h1 = compress(w)
    seed = (bswap(h1) << 32) | bswap(h0)
    return (seed * 0x5D588B656C078965 + 0x269EC3) & M64


def nazo_bw(n):
    a, b, c = bswap(n & M32), bswap((n + 0xFC) & M32), bswap((n + 0xFC + 0x4C) & M32)
    return [a, b, b, c, c]


def nazo_bw2(n, n0, n1):
    c = bswap((n + 0x54) & M32)
    return [bswap(n0), bswap(n1), bswap(n), c, c]
