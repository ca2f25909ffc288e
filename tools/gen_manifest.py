"""Writes /verif/MANIFEST.json from the table of checks and the property list."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, "mc/checks/__init__.py")).read()
for node in ast.parse(src).body:
    if isinstance(node, ast.Assign) and node.targets[0].id == "TABLE":
        TABLE = ast.literal_eval(node.value)

ENUM = "exhaustive bounded enumeration of inputs against an independent reference codec"
SCHED = "stateless model checking of the real code: exhaustive, deviation-bounded exploration of network events, faults and orders under a controlled event loop"
ZKS = "stateless model checking of the real code over a modelled ZooKeeper: exhaustive, deviation-bounded exploration of operation, session and notification orders"
THR = "stateless model checking of real threads under a controlled scheduler with a preemption bound"
BFS = "exhaustive enumeration of small instances against a reference model"

TECH = {"P01": ENUM, "P02": ENUM, "P03": ENUM, "P04": ENUM, "P05": ENUM, "P24": BFS}
HIST = "exhaustive enumeration of bounded histories on the real client, against a reference model of the brokers"
for p in ("P18", "P19"):
    TECH[p] = HIST
for p in ("P25", "P27"):
    TECH[p] = ZKS
for p in ("P26", "P28", "P29"):
    TECH[p] = THR

NOTE = {
    "exploration": "Every case within the stated alphabets and sizes is executed on the real code; nothing is claimed outside them. The oracle is an independent implementation of the Kafka v0 format (mc/kspec.py).",
    "model_checking": "Every execution within the deviation (or preemption) bound of the listed scenarios is executed on the real code; the network/broker/ZooKeeper side is a model whose every choice the explorer owns. Nothing is claimed beyond the bound or the scenarios' alphabets.",
}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in TABLE:
        level = TABLE[pid][2]
        checks.append({
            "property": pid,
            "quick_cmd": "./run.py %s --tier quick" % pid,
            "thorough_cmd": "./run.py %s --tier thorough" % pid,
            "technique": TECH.get(pid, SCHED),
            "level": level,
            "level_note": NOTE[level],
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import tornado, kazoo, snappy, six'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks replace socket.socket and kazoo.client.KazooClient at run time, in their own process.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
