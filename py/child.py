# Executes scenarios against the python package: one JSON line in, one JSON line out on descriptor 3.
import json
import os
import random
import sys

sys.path.insert(0, sys.argv[1])
import rtbot
from rtbot import operators, rtbotapi

out = os.fdopen(3, "w")


def plain(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def step(s, progs, ops):
    k = s["do"]
    if k == "program":
        progs.append(None)
        progs[-1] = rtbot.Program(**s["args"])
        return None
    if k == "parse":
        progs.append(None)
        progs[-1] = rtbot.parse(s["text"])
        return None
    if k == "operator":
        ops.append(None)
        ops[-1] = getattr(operators, s["type"])(*s["args"], **s["named"])
        return dict(ops[-1])
    p = progs[s["p"]]
    if k == "add":
        r = p.addOperator(ops[s["op"]])
        return r is p
    if k == "set":
        p.entryOperator = s["entry"]
        return None
    if k == "connect":
        r = p.addConnection(*s["args"], **s["named"])
        return r is p
    if k == "json":
        return p.toJson()
    if k == "validate":
        return p.validate()
    if k == "mermaid":
        return p.toMermaidJs()
    if k == "run":
        return plain(rtbot.Run(p, s["data"]).exec())
    raise KeyError(k)


for line in sys.stdin:
    scenario = json.loads(line)
    random.seed(scenario["seed"])
    for x in list(rtbotapi.live):
        rtbotapi.deleteProgram(x)
    progs, ops, answers = [], [], []
    for s in scenario["steps"]:
        try:
            a = {"ok": step(s, progs, ops)}
        except Exception as e:
            a = {"error": str(e), "kind": type(e).__name__}
        a["live"] = len(rtbotapi.live)
        answers.append(a)
    out.write(json.dumps(answers) + "\n")
    out.flush()
