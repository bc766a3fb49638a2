"""Executes scenarios sent by pyref (one JSON document per line) on the dess_pyo3 module and reports what was seen."""
import copy, json, struct, sys
import dess_pyo3 as M

schema = json.loads(sys.stdin.readline())


def see(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, float):
        return ["f", struct.pack(">d", v).hex() if v == v else "7ff8000000000000"]
    if isinstance(v, int):
        return ["i", str(v)]
    if isinstance(v, (bytes, bytearray)):
        return ["b", bytes(v).hex()]
    if isinstance(v, (list, tuple)):
        return ["l"] + [see(x) for x in v]
    n = type(v).__name__
    return ["o", n, {a: see(getattr(v, a)) for a in schema[n]}]


def run(ops):
    slots, out = {}, []

    def arg(a):
        if isinstance(a, dict):
            if "slot" in a:
                return slots[a["slot"]]
            if "f" in a:
                return struct.unpack(">d", bytes.fromhex(a["f"]))[0]
            if "b" in a:
                return bytes.fromhex(a["b"])
            if "l" in a:
                return [arg(x) for x in a["l"]]
        return a

    for op in ops:
        try:
            k = op["op"]
            a = [arg(x) for x in op.get("args", [])]
            kw = {n: arg(x) for n, x in op.get("kw", {}).items()}
            if k == "new":
                v = getattr(M, op["class"])(*a, **kw)
            elif k == "cls":
                v = getattr(getattr(M, op["class"]), op["method"])(*a, **kw)
            elif k == "call":
                v = getattr(slots[op["slot"]], op["method"])(*a, **kw)
            elif k == "get":
                v = getattr(slots[op["slot"]], op["attr"])
            elif k == "copy":
                v = copy.copy(slots[op["slot"]])
            elif k == "deepcopy":
                v = copy.deepcopy(slots[op["slot"]])
            elif k == "deepcopy in a list":
                v = copy.deepcopy([slots[op["slot"]]])[0]
            elif k == "view":
                v = slots[op["slot"]]
            if "to" in op:
                slots[op["to"]] = v
                out.append({"ok": None})
            else:
                out.append({"ok": see(v)})
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            out.append({"exc": type(e).__name__, "ordinary": isinstance(e, Exception), "text": str(e)[:200]})
    return out


for line in sys.stdin:
    print(json.dumps(run(json.loads(line))), flush=True)
