"""Make torch and numpy talk to each other in this sandbox.

The sandbox has torch 2.0.1 (built against numpy's C API 0x10) next to
numpy 1.22.0 (C API 0xf); torch then refuses to initialise its numpy bridge and
`tensor.numpy()`, `torch.from_numpy` and friends raise.  The two APIs are
compatible for what torch uses, so the version torch reads is answered with
0x10 once, while torch initialises, and put back afterwards.  Where numpy is
recent enough this does nothing.  Nothing of /repo is touched.
"""
import ctypes

_keep = None


def enable():
    global _keep
    import numpy  # noqa: F401
    try:
        from numpy.core import _multiarray_umath as m
    except ImportError:
        return
    get = ctypes.pythonapi.PyCapsule_GetPointer
    get.restype = ctypes.c_void_p
    get.argtypes = [ctypes.py_object, ctypes.c_char_p]
    table = ctypes.cast(get(m._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    version_fn = ctypes.CFUNCTYPE(ctypes.c_uint)
    if version_fn(table[211])() != 0xF:
        return
    _keep = version_fn(lambda: 0x10)
    page = (ctypes.addressof(table.contents) + 211 * 8) & ~4095
    ctypes.CDLL(None).mprotect(ctypes.c_void_p(page), 8192, 3)
    original = table[211]
    table[211] = ctypes.cast(_keep, ctypes.c_void_p).value
    try:
        import torch
        torch.ones(2).numpy()
    finally:
        table[211] = original
