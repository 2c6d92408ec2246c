# Loads a generated Python module and builds operators with it: one JSON line in, one JSON line out on descriptor 3.
import inspect
import json
import os
import sys
import types

import jsonschema

out = os.fdopen(3, "w")
schemas = {}


def validate_operator(kind, text):
    if kind not in schemas:
        return json.dumps({"valid": False, "error": "Unknown operator type: " + kind})
    e = next(iter(schemas[kind].iter_errors(json.loads(text))), None)
    return json.dumps({"valid": True} if e is None else {"valid": False, "error": e.message})


api = types.ModuleType("rtbotapi")
api.validateOperator = validate_operator
package = types.ModuleType("rtbot")
package.rtbotapi = api
sys.modules["rtbot"] = package
sys.modules["rtbot.rtbotapi"] = api

def usage(page):
    """The arguments the Python usage of a page passes to its operator."""
    class Program:
        def addOperator(self, op):
            self.__class__.op = op

    class Any:
        def __getattr__(self, kind):
            return Program if kind == "Program" else lambda *a: (kind, a)

    try:
        body = page[page.rindex("## Usage"):].split("```python\n")[1].split("```")[0]
        head = "import rtbot as rb\n"
        if not body.startswith(head):
            return {"error": "the usage does not import rtbot"}
        exec(body[len(head):], {"rb": Any()})
        kind, args = Program.op
        op = json.loads(page[page.rindex("## Usage"):].split("```json\n")[1].split("```")[0])["operators"][0]
        return {"args": args, "valid": json.loads(validate_operator(kind, json.dumps(op)))["valid"]}
    except Exception as e:
        return {"error": type(e).__name__ + ": " + str(e)}


for line in sys.stdin:
    q = json.loads(line)
    schemas.clear()
    for s in q["schema"]["properties"]["operators"]["items"]["oneOf"]:
        schemas[s["properties"]["type"]["enum"][0]] = jsonschema.Draft7Validator(s)
    r = {}
    try:
        space = {"__name__": "generated"}
        exec(compile(q["text"], "generated.py", "exec"), space)
        r["classes"] = sorted(k for k, v in space.items() if inspect.isclass(v) and k != "Operator")
        r["made"] = []
        for m in q["make"]:
            try:
                r["made"].append({"ok": json.loads(json.dumps(space[m["type"]](*m["args"], **m["named"])))})
            except Exception as e:
                r["made"].append({"error": type(e).__name__ + ": " + str(e)})
    except Exception as e:
        r["broken"] = type(e).__name__ + ": " + str(e)
    r["usage"] = {k: usage(v) for k, v in q["pages"].items() if k.endswith(".mdx")}
    out.write(json.dumps(r) + "\n")
    out.flush()
