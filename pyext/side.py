"""Serves the Python module to the harness: one line of commands in, one line of answers out."""
import importlib.util, os, struct, sys, time

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
spec = importlib.util.spec_from_file_location("ms_toollib", sys.argv[1])
ms = importlib.util.module_from_spec(spec)
spec.loader.exec_module(ms)
import json


def dec(x):
    if isinstance(x, str):
        k, r = x.split(":", 1)
        if k == "s":
            return bytes.fromhex(r).decode()
        return struct.unpack(">d", bytes.fromhex(r))[0]
    if isinstance(x, list):
        if x and x[0] == "t:":
            return tuple(dec(y) for y in x[1:])
        return [dec(y) for y in x]
    return x


def enc(x):
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, float):
        return "f:" + struct.pack(">d", x).hex()
    if isinstance(x, str):
        return "s:" + x.encode().hex()
    if isinstance(x, (list, tuple, bytes)):
        return [enc(y) for y in x]
    return "o:" + type(x).__name__


slots = {}


def nest(x):
    """what a loop over x meets"""
    return [nest(y) for y in x] if type(x).__name__ in ("SafeBoard", "SafeBoardRow") else x


def one(c):
    op = c[0]
    if op == "x":
        slots.clear()
        return None
    if op == "f":
        r = getattr(ms, c[1])(*c[2:])
    elif op == "n":
        r = getattr(ms, c[2])(*c[3:])
        slots[c[1]] = r
    elif op == "z":
        time.sleep(c[1] / 1000)
        return None
    elif op == "m":
        r = getattr(slots[c[1]], c[2])(*c[3:])
    elif op == "i":
        r = slots[c[1]][c[2]]
    elif op == "l":
        r = nest(slots[c[1]])
    elif op == "g":
        r = getattr(slots[c[1]], c[2])
    elif op == "s":
        r = setattr(slots[c[1]], c[2], c[3])
    if type(r).__name__ in ("GameBoard", "SafeBoard", "SafeBoardRow"):
        slots[99 if type(r).__name__ != "SafeBoardRow" else 98] = r
    return r


out.write("ready\n")
out.flush()
for line in sys.stdin:
    ans = []
    for c in json.loads(line):
        try:
            ans.append(enc(one(dec(c))))
        except BaseException as e:
            ans.append("e:" + type(e).__name__)
    out.write(json.dumps(ans) + "\n")
    out.flush()
