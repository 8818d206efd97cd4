#!/usr/bin/env python3
"""show.py TRACE CHUNK EVENT [N]: print the last N events up to EVENT of a recorded history, bytes as text."""
import sys, json

def txt(x, name=None):
    if isinstance(x, dict):
        if "t" in x and set(x) <= {"t", "kv", "el", "s", "i", "f", "d", "b", "x"}:
            t = x["t"]
            if t == "obj": return "{" + ", ".join(repr(bytes(m["k"]))[1:] + ":" + txt(m["v"]) for m in x["kv"]) + "}"
            if t == "arr": return "[" + ", ".join(txt(m) for m in x["el"]) + "]"
            if t == "str": return repr(bytes(x["s"]))[1:]
            if t in ("int", "tsp"): return t + str(int.from_bytes(bytes(x["i"]), "big", signed=True))
            if t in ("dbl", "dt"):
                import struct
                return t + repr(struct.unpack(">d", bytes(x["d"]))[0])
            if t == "flt":
                import struct
                return t + repr(struct.unpack(">f", bytes(x["f"]))[0])
            return t + (str(x.get("x", "")) + bytes(x["b"]).hex() if "b" in x else "")
        return "{" + ", ".join(k + "=" + txt(v, k) for k, v in x.items()) + "}"
    if isinstance(x, list):
        if x and all(isinstance(c, int) for c in x): return repr(bytes(x))
        return "[" + ", ".join(txt(v) for v in x) + "]"
    return repr(x)

if __name__ == "__main__":
    f, c, l = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    ch = json.loads(open(f).read().split("\n")[c - 1])
    for i in range(max(1, l - n + 1), l + 1):
        e = ch["ev"][i - 1]
        print(i, txt(e)[:3000])
        if e.get("op") == "dec" and e.get("fmt") == "yaml": print(bytes(e["in"]).decode(errors="replace"))
