"""Reference reader of serialized tables, one slot of the vtable at a time."""
import flatbuffers


def table(buf, off):
    return flatbuffers.table.Table(buf, off)


def scalar(buf, off, slot, kind, default):
    t = table(buf, off)
    at = t.Offset(4 + 2 * slot)
    if at == 0:
        return default
    return t.Get(kind, off + at)


def flag(buf, off, slot, kind, default):
    t = table(buf, off)
    at = t.Offset(4 + 2 * slot)
    if at == 0:
        return default
    return t.Get(kind, off + at) != 0


def place(buf, off, slot):
    """where the object of a slot is"""
    t = table(buf, off)
    return t.Indirect(off + t.Offset(4 + 2 * slot))


def present(buf, off, slot):
    return table(buf, off).Offset(4 + 2 * slot) != 0


def element(buf, off, slot, k):
    """where element k of the vector of a slot is"""
    t = table(buf, off)
    return t.Indirect(t.Vector(t.Offset(4 + 2 * slot)) + 4 * k)


def text(buf, off, slot, default):
    t = table(buf, off)
    at = t.Offset(4 + 2 * slot)
    if at == 0:
        return default
    start = t.Vector(at)
    return t.Bytes[start:start + t.VectorLen(at)].decode("utf-8")


def root(buf):
    return flatbuffers.encode.Get(flatbuffers.packer.uoffset, buf, 0)


def need(found):
    if not found:
        raise KeyError(0)


def truth_type():
    return bool
