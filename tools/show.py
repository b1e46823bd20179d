"""show.py violation.json [N]: print the items of a violation file readably"""
import json, sys
v = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
print("total", v["total"])
B = lambda x: bytes(y for y in x if y < 256)
for it in v["items"][:n]:
    t, s = it["trace"], it["scenario"]
    print("=====", {k: x for k, x in it["deviation"].items() if k != "dev"})
    if s is None or t is None:
        continue
    print("  beh", s.get("beh"), "exp", s.get("exp"))
    for c in s["cfgs"]:
        print("  cfg", c["regk"], c["regs"], c["cb"], [(o["op"], o["p"], B(o["v"]), o["k"], o["kv"] and "kv", [(B(u["user"]), u["iter"]) for u in o["users"]], o["e"]) for o in c["script"]], [(o["op"], o["t"], B(o["v"]), o["ctx"]) for o in c["val"]])
    for c in s["sess"]:
        print("  sess", {k: (x if k != "pcb" else [(n, B(d)) for n, d in x]) for k, x in c.items()})
    for i, e in enumerate(t["ev"]):
        if e["e"] == "step":
            print("  %2d %d %s %s %s/%s IN %s OUT %s wref=%s" % (i + 1, e["s"], e["via"], e["res"], e["ek"], B(e["en"]), B(e["in"][0]) if e["in"] else None, B(e["out"]), e["wref"]))
            for c in e["cbs"]:
                print("       cb", c["is"], [(n, B(d)) for n, d in c["ctx"]], [(o["r"], B(o["n"]), o["called"], [B(a) for a in o["act"]]) for o in c["ops"]])
            for c in e["vals"]:
                print("       val", [(n, B(d)) for n, d in c["ctx"]], c["isa"], c["isb"])
        else:
            print("  %2d" % (i + 1), {k: (B(x) if k in ("in", "out", "text") else x) for k, x in e.items()})
