"""Shared models built once per run."""
from engine import Interp
from iomodel import Reader, Writer, hook_records, new_ctx

_cache = {}


def interp():
    if "I" not in _cache:
        I = Interp()
        hook_records(I)
        new_ctx(I)
        _cache["I"] = I
    return _cache["I"]


def nd_interp():
    if "N" not in _cache:
        from nd import NdInterp
        I = NdInterp()
        new_ctx(I)
        _cache["N"] = I
    return _cache["N"]


def writer(mode="all"):
    k = ("W", mode)
    if k not in _cache:
        _cache[k] = Writer(interp(), mode)
    return _cache[k]


def reader():
    if "R" not in _cache:
        _cache["R"] = Reader(interp(), writer().headers())
    return _cache["R"]


def analysed(rep):
    names = set()
    for k in ("I", "N"):
        I = _cache.get(k)
        if I:
            rep.analysed["modules"] = len(I.repo.modules)
            names |= I.inlined
    rep.analysed["functions interpreted"] = len(names)


def text_interp():
    """A fresh interpreter following texts and files."""
    from tx import TextInterp
    I = TextInterp()
    new_ctx(I)
    _cache.setdefault("X", []).append(I)
    return I
