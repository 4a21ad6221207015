"""Reference definitions of the pseudo random number generators (exact integers)."""

M32 = 0xFFFFFFFF
M64 = 0xFFFFFFFFFFFFFFFF


# ---- linear congruential generators
def lcg(seed, mult, add, bits):
    return (seed * mult + add) & ((1 << bits) - 1)


def lcg_compose(seed, adv, table, mask):
    """the same map as lcg_jump, composed before it is applied (affine maps compose)"""
    k = 0
    m = 1
    a = 0
    for mult, add in table:
        if (adv >> k) & 1:
            m = (m * mult) & mask
            a = (a * mult + add) & mask
        k += 1
    return (seed * m + a) & mask


def lcg_jump(seed, adv, table, mask):
    """apply f^(2^k) for every set bit k of adv; table[k] = (mult, add) of f^(2^k)"""
    k = 0
    for mult, add in table:
        if (adv >> k) & 1:
            seed = (seed * mult + add) & mask
        k += 1
    return seed


def lcg_advance(seed, adv, mult, add, mask):
    for _ in range(adv):
        seed = (seed * mult + add) & mask
    return seed


def modulo16(value, maximum):
    return value % maximum


def reciprocal16(value, maximum):
    return value // ((0xFFFF // maximum) + 1)


def mulshift32(value, maximum):
    return (value * maximum) >> 32


# ---- MT19937
def mt_init(seed):
    state = [seed]
    for i in range(1, 624):
        seed = (0x6C078965 * (seed ^ (seed >> 30)) + i) & M32
        state.append(seed)
    return state


def mt_shuffle(state):
    for i in range(624):
        y = (state[i] & 0x80000000) | (state[(i + 1) % 624] & 0x7FFFFFFF)
        v = state[(i + 397) % 624] ^ (y >> 1)
        if y & 1:
            v = v ^ 0x9908B0DF
        state[i] = v
    return state


def mt_temper(y):
    y = y ^ (y >> 11)
    y = y ^ ((y << 7) & 0x9D2C5680)
    y = y ^ ((y << 15) & 0xEFC60000)
    return y ^ (y >> 18)


def mt_next(state, index):
    if index == 624:
        mt_shuffle(state)
        index = 0
    return mt_temper(state[index]), index + 1


# ---- SFMT19937
def sfmt_init(seed):
    state = mt_init(seed)
    parity = (1, 0, 0, 0x13C9E684)
    inner = 0
    for i in range(4):
        inner = inner ^ (state[i] & parity[i])
    for i in (16, 8, 4, 2, 1):
        inner = inner ^ (inner >> i)
    if inner & 1 == 0:
        state[0] = state[0] ^ 1
    return state


def sfmt_shuffle(state):
    mask = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)
    for i in range(156):
        a = 4 * i
        b = 4 * ((i + 122) % 156)
        c = 4 * ((i + 154) % 156)
        d = 4 * ((i + 155) % 156)
        big_a = state[a] | (state[a + 1] << 32) | (state[a + 2] << 64) | (state[a + 3] << 96)
        big_c = state[c] | (state[c + 1] << 32) | (state[c + 2] << 64) | (state[c + 3] << 96)
        x = (big_a << 8) & ((1 << 128) - 1)
        y = big_c >> 8
        new = []
        for j in range(4):
            new.append(state[a + j] ^ ((x >> (32 * j)) & M32) ^ ((state[b + j] >> 11) & mask[j])
                       ^ ((y >> (32 * j)) & M32) ^ ((state[d + j] << 18) & M32))
        for j in range(4):
            state[a + j] = new[j]
    return state


def sfmt_next(state, index):
    if index == 624:
        sfmt_shuffle(state)
        index = 0
    return state[index] | (state[index + 1] << 32), index + 2


# ---- TinyMT
def tinymt_step(state):
    y = state[3]
    x = (state[0] & 0x7FFFFFFF) ^ state[1] ^ state[2]
    x = x ^ ((x << 1) & M32)
    y = y ^ (y >> 1) ^ x
    s1 = state[2]
    s2 = x ^ ((y << 10) & M32)
    if y & 1:
        s1 = s1 ^ 0x8F7011EE
        s2 = s2 ^ 0xFC78FF1F
    return [state[1], s1, s2, y]


def tinymt_temper(state):
    t0 = state[3]
    t1 = (state[0] + (state[2] >> 8)) & M32
    t0 = t0 ^ t1
    if t1 & 1:
        t0 = t0 ^ 0x3793FDFF
    return t0


def tinymt_init(seed):
    state = [seed, 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF]
    for i in range(1, 8):
        prev = state[(i - 1) & 3]
        state[i & 3] = state[i & 3] ^ ((0x6C078965 * (prev ^ (prev >> 30)) + i) & M32)
    if state[0] & 0x7FFFFFFF == 0 and state[1] == 0 and state[2] == 0 and state[3] == 0:
        state = [0x54, 0x49, 0x4E, 0x59]
    for _ in range(8):
        state = tinymt_step(state)
    return state


# ---- xorshift / xoroshiro
def xorshift128_next(state):
    t = state[0]
    t = t ^ ((t << 11) & M32)
    t = t ^ (t >> 8)
    s = state[3]
    t = t ^ s ^ (s >> 19)
    return t, [state[1], state[2], state[3], t]


def rotl64(v, k):
    return ((v << k) | (v >> (64 - k))) & M64


def xoroshiro_next(state):
    s0 = state[0]
    s1 = state[1]
    result = (s0 + s1) & M64
    s1 = s1 ^ s0
    return result, [rotl64(s0, 24) ^ s1 ^ ((s1 << 16) & M64), rotl64(s1, 37)]


def splitmix(seed, inc):
    z = (seed + inc) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def splitmix_init(seed):
    return [splitmix(seed, 0x9E3779B97F4A7C15), splitmix(seed, (0x9E3779B97F4A7C15 * 2) & M64)]


def bit_mask(maximum):
    """all bits up to the most significant bit of maximum - 1"""
    v = maximum - 1
    for k in (1, 2, 4, 8, 16, 32):
        v = v | (v >> k)
    return v


def xoroshiro_reject(state, maximum):
    mask = bit_mask(maximum)
    result, new = xoroshiro_next(state)
    state[0] = new[0]
    state[1] = new[1]
    value = result & mask
    while value >= maximum:
        result, new = xoroshiro_next(state)
        state[0] = new[0]
        state[1] = new[1]
        value = result & mask
    return value, state


# ---- advancing
def mt_advance(state, index, adv):
    """state and index after adv draws, brought to the form in which a full block is regenerated"""
    total = index + adv
    while total >= 624:
        mt_shuffle(state)
        total -= 624
    return total


def sfmt_advance(state, index, adv):
    total = index + 2 * adv
    while total >= 624:
        sfmt_shuffle(state)
        total -= 624
    return total


def tinymt_advance(state, adv):
    for _ in range(adv):
        new = tinymt_step(state)
        for i in range(4):
            state[i] = new[i]
    return state


def xorshift128_advance(state, adv):
    for _ in range(adv):
        new = xorshift128_next(state)[1]
        for i in range(4):
            state[i] = new[i]
    return state


def xoroshiro_advance(state, adv):
    for _ in range(adv):
        new = xoroshiro_next(state)[1]
        for i in range(2):
            state[i] = new[i]
    return state


# ---- bounded draws
def offset_range(value, low, high):
    """[low, high) as an unsigned 32-bit number"""
    return (value % ((high - low) & M32) + low) & M32


def offset_range_0(value, low, high):
    width = (high - low) & M32
    rest = 0
    if width != 0:
        rest = value % width
    return (rest + low) & M32


# ---- stepping back
def xoroshiro_previous(state):
    s1 = rotl64(state[1], 64 - 37)
    s0 = rotl64(state[0] ^ s1 ^ ((s1 << 16) & M64), 64 - 24)
    s1 = s1 ^ s0
    return (s0 + s1) & M64, [s0, s1]
