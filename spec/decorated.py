"""Functions and classes decorated in every form the library's decorators accept; run under both settings of the option."""
from __future__ import annotations
from typing import Type
import numpy as np
from numba_pokemon_prngs.compilation import (
    optional_njit, optional_jitclass, return_type, array_type, unituple_type, TypedDict, TypedList, convert_to_numba,
)


# ---------------------------------------------------------------- functions
@optional_njit
def bare(a, b=3):
    """doc"""
    return a ^ (b << 1)


@optional_njit()
def called(a, b=3):
    return a ^ (b << 1)


@optional_njit(return_type(np.uint32, (np.uint32, np.uint32)))
def signed_off(a, b):
    return (a ^ (b << np.uint32(1))) & np.uint32(0xFFFFFFFF)


@optional_njit(signature_or_function=return_type(np.uint32, (np.uint32, np.uint32)))
def by_keyword(a, b):
    return (a ^ (b << np.uint32(1))) & np.uint32(0xFFFFFFFF)


@optional_njit(return_type(np.uint32, (np.uint32,)), locals={"x": np.uint8})
def with_locals(a):
    x = a
    x = x & np.uint32(0xFFFF)
    return x


@optional_njit(locals={"x": np.uint8})
def only_locals(a):
    x = a
    return x


@optional_njit(inline="always")
def with_option(a, b=3):
    return a ^ (b << 1)


@optional_njit(return_type(np.uint16, (np.uint32,)), locals={"x": np.uint32}, cache=True, nogil=True)
def with_everything(a):
    x = a >> np.uint32(3)
    return x


def later(a, b=3):
    return a ^ (b << 1)


@optional_njit(return_type(unituple_type(np.uint32, 2), (np.uint32, np.uint32)))
def pair(a, b):
    return b, a


@optional_njit(return_type(array_type(np.uint32), (array_type(np.uint32),)))
def first_two(a):
    a[0] = a[0] ^ a[1]
    return a


@optional_njit(return_type(array_type(np.uint32, readonly=True), (array_type(np.uint32, ndim=2), np.uint8)))
def row(a, i):
    return a[i]


@optional_njit(return_type(np.void, (array_type(np.uint32), np.uint32)))
def store(a, x):
    a[1] = x


@optional_njit
def calls_others(a):
    return with_locals(a) ^ called(a, 5) ^ bare(a)


functional = optional_njit(later)
functional_sig = optional_njit(return_type(np.uint32, (np.uint32, np.uint32)))(later)
functional_locals = optional_njit(locals={"a": np.uint32, "b": np.uint32})(later)


# references
def ref_shift(a, b):
    return a ^ (b << 1)


def ref_all(a, compiled):
    m = 0xFF if compiled else 0xFFFF
    return (a & m) ^ (a ^ 10) ^ (a ^ 6)


# ---------------------------------------------------------------- classes
class Base:
    """fields and methods inherited by compiled classes"""

    seed: np.uint32
    twin: np.uint64

    def twice(self):
        """two steps"""
        self.step()
        return self.step()

    def reseed(self, seed=np.uint32(7), twin=np.uint64(9)):
        """both fields"""
        self.seed = seed
        self.twin = twin


@optional_jitclass
class Bare(Base):
    """no specification"""

    words: array_type(np.uint32)

    def __init__(self, seed):
        self.seed = seed
        self.twin = np.uint64(1)
        self.words = np.zeros(3, np.uint32)

    def step(self):
        """one step"""
        self.words[0] = self.seed
        self.seed = self.seed * np.uint32(5) + np.uint32(1)
        self.twin = self.twin + np.uint64(1)
        return self.seed


@optional_jitclass()
class Called(Base):
    """empty call"""

    def __init__(self, seed):
        self.seed = seed
        self.twin = np.uint64(1)

    def step(self):
        """one step"""
        self.seed = self.seed * np.uint32(5) + np.uint32(1)
        self.twin = self.twin + np.uint64(1)
        return self.seed

    @staticmethod
    def plus(a, b=2):
        """no instance"""
        return a + b


@optional_jitclass({"seed": np.uint32, "twin": np.uint64, "extra": array_type(np.uint16)})
class Positional:
    """specification given first"""

    def __init__(self, seed):
        self.seed = seed
        self.twin = np.uint64(1)
        self.extra = np.zeros(2, np.uint16)

    def step(self):
        """one step"""
        self.seed = self.seed * np.uint32(5) + np.uint32(1)
        self.twin = self.twin + np.uint64(1)
        self.extra[1] = np.uint16(self.seed & np.uint32(0xFFFF))
        return self.seed

    def twice(self):
        """two steps"""
        self.step()
        return self.step()


@optional_jitclass(spec={"seed": np.uint32, "twin": np.uint64})
class Keyword:
    """specification given by keyword"""

    def __init__(self, seed):
        self.seed = seed
        self.twin = np.uint64(1)

    def step(self):
        """one step"""
        self.seed = self.seed * np.uint32(5) + np.uint32(1)
        self.twin = self.twin + np.uint64(1)
        return self.seed

    def twice(self):
        """two steps"""
        self.step()
        return self.step()


class Later:
    """decorated by a call with a specification; one field is only annotated"""

    twin: np.uint64

    def __init__(self, seed):
        self.seed = seed
        self.twin = np.uint64(1)

    def step(self):
        """one step"""
        self.seed = self.seed * np.uint32(5) + np.uint32(1)
        self.twin = self.twin + np.uint64(1)
        return self.seed

    def twice(self):
        """two steps"""
        self.step()
        return self.step()


Functional = optional_jitclass(Later, {"seed": np.uint32})


@optional_jitclass
class Private:
    """private fields and methods"""

    _seed: np.uint32
    _twin: np.uint64

    def __init__(self, seed):
        self._seed = seed
        self._twin = np.uint64(1)

    def _both(self):
        return self._seed ^ np.uint32(1), self._twin

    def both(self):
        """reads both"""
        return self._both()


@optional_jitclass
class Holder:
    """an instance of another decorated class as a field"""

    inner: Bare
    count: np.int64

    def __init__(self, seed):
        self.inner = Bare(seed)
        self.count = 0

    def step(self):
        """one step of the inner one"""
        self.count += 1
        return self.inner.step()


def fresh_spec():
    """a class made inside a function, with a type only known there"""
    word = np.uint16

    @optional_jitclass({"inner": Bare, "value": word})
    class Local:
        """dynamic field types"""

        def __init__(self, seed):
            self.inner = Bare(seed)
            self.value = word(0)

        def step(self):
            """low half"""
            self.value = word(self.inner.step() & np.uint32(0xFFFF))
            return self.value
    return Local


LocalClass = fresh_spec()


def ref_run(seed, k):
    """seed after k steps"""
    for _ in range(k):
        seed = (seed * 5 + 1) & 0xFFFFFFFF
    return seed


def drive(cls, seed):
    """a run over one class"""
    o = cls(seed)
    a = o.step()
    b = o.twice()
    return a, b, o.seed, o.twin


def drive_base(cls, seed, other):
    """inherited methods with keyword arguments and defaults"""
    o = cls(seed)
    o.reseed()
    a, b = o.seed, o.twin
    o.reseed(twin=np.uint64(5), seed=other)
    return a, b, o.seed, o.twin, o.twice(), o.twin


def ref_base(seed, other):
    return 7, 9, other, 5, ref_run(other, 2), 7


def ref_drive(seed):
    return ref_run(seed, 1), ref_run(seed, 3), ref_run(seed, 3), 4


# ---------------------------------------------------------------- containers
@optional_njit
def fill_list(a, b):
    out = TypedList()
    out.append(a)
    out.append(b)
    return out


def use_list(a, b):
    out = fill_list(a, b)
    return len(out), out[0], out[1]


def use_dict(a, b, key):
    d = TypedDict(np.uint32, np.uint64)
    d[np.uint32(5)] = a
    d[np.uint32(6)] = b
    d[np.uint32(5)] = b
    return len(d), d[np.uint32(5)], d[np.uint32(6)], np.uint32(key) in d


def two_dicts(a):
    d = TypedDict(np.uint32, np.uint64)
    e = TypedDict(np.uint32, np.uint64)
    d[np.uint32(5)] = a
    return len(d), len(e)


def two_lists(a):
    d = TypedList()
    e = TypedList()
    d.append(a)
    e.append(a)
    e.append(a)
    return len(d), len(e)
