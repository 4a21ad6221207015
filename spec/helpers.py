"""Reference definitions of the hash and integer helpers."""

M64 = 0xFFFFFFFFFFFFFFFF
PRIME = 0x100000001B3
BASIS = 0xCBF29CE484222645
DIGITS = "0123456789ABCDEF"


def fnv1(text):
    h = BASIS
    for c in text:
        h = (h * PRIME) & M64
        h = h ^ ord(c)
    return h


def fnv1a(text):
    h = BASIS
    for c in text:
        h = h ^ ord(c)
        h = (h * PRIME) & M64
    return h


def bswap32(v):
    return (v & 0xFF) * 0x1000000 + ((v >> 8) & 0xFF) * 0x10000 + ((v >> 16) & 0xFF) * 0x100 + ((v >> 24) & 0xFF)


def rotl(v, k, bits):
    return ((v << k) | (v >> (bits - k))) & ((1 << bits) - 1)


def rotr(v, k, bits):
    return ((v >> k) | (v << (bits - k))) & ((1 << bits) - 1)


# natures are numbered 5 * raised + lowered in the order attack, defense, speed, special attack, special defense;
# stats are numbered attack 1, defense 2, special attack 3, special defense 4, speed 5
ORDER = [1, 2, 5, 3, 4]


def stat(value, nature, index):
    up = ORDER[nature // 5] == index
    down = ORDER[nature % 5] == index
    if up and not down:
        return value * 110 // 100
    if down and not up:
        return value * 90 // 100
    return value


def hex32(v):
    pairs = [DIGITS[i // 16] + DIGITS[i % 16] for i in range(256)]
    return pairs[v >> 24] + pairs[(v >> 16) & 0xFF] + pairs[(v >> 8) & 0xFF] + pairs[v & 0xFF]
