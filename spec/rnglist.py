"""Reference model of a cached window of generator outputs, kept in a ring."""


def read(buf, size, pointer):
    return buf[pointer], (pointer + 1) % size


def slide(buf, size, head, value):
    """forget the oldest output, append the next one, read from the new oldest"""
    buf[head] = value
    head = (head + 1) % size
    return head, head


def lcg_stream_slide(buf, size, head, pointer, seed, mult, add, mask, shift, adv):
    for _ in range(adv):
        seed = (seed * mult + add) & mask
        buf[head] = seed >> shift
        head = (head + 1) % size
        pointer = head
    return head, pointer, seed
