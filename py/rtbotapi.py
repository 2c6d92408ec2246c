# Stand-in for the compiled module: the functions rtbot.cpp exposes, through the same table.
import ctypes
import json
import os

_lib = ctypes.CDLL(os.path.join(os.path.dirname(os.path.abspath(__file__)), "libhost.so"))
_lib.host_call.restype = ctypes.c_char_p
_lib.host_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
live = set()  # ids of the programs the engine holds
calls = []


def _call(name, args):
    for a in args:
        if not isinstance(a, (str, int, float)):
            raise TypeError("%s(): incompatible function arguments: %r" % (name, args))
    if name == "addToMessageBuffer" and (not isinstance(args[2], int) or args[2] < 0 or isinstance(args[3], str)):
        raise TypeError("addToMessageBuffer(): incompatible function arguments: %r" % (args,))
    r = json.loads(_lib.host_call(name.encode(), json.dumps(list(args)).encode()))
    if "error" in r:
        raise RuntimeError(r["error"])
    if name == "createProgram" and r["ok"] == "":
        live.add(args[0])
    if name == "deleteProgram":
        live.discard(args[0])
    return r["ok"]


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    return lambda *args: _call(name, args)
