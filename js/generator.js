// Runs the repository's code generator over documents: one JSON line in, one JSON line out on descriptor 3.
const fs = require("fs");
const os = require("os");
const path = require("path");
const readline = require("readline");
const esbuild = require("esbuild");
const { z } = require("zod/v3");

const generator = path.join(__dirname, "generator", "src", "index.js");
const OUTPUT = { jsonschema: "jsonschema.json", cpp: "jsonschema.hpp", python: "jsonschema.py", typescript: "index.ts" };
let rejected = null;
process.on("unhandledRejection", (e) => (rejected = String((e && e.message) || e)));
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const tick = () => new Promise((r) => setImmediate(r));

async function generate(dir, target, sources, wanted) {
  rejected = null;
  const out = path.join(dir, "out-" + target);
  fs.mkdirSync(out);
  process.argv = ["node", generator, "--output", out, "--target", target, "--sources", ...sources];
  for (const k of Object.keys(require.cache)) if (k === generator) delete require.cache[k];
  require(generator);
  const files = target === "markdown" ? wanted : [OUTPUT[target]];
  const there = () => files.every((f) => fs.existsSync(path.join(out, f)) && fs.statSync(path.join(out, f)).size > 0);
  for (let i = 0; i < 400 && !rejected && !there(); i++) await (i < 50 ? tick() : sleep(5));
  for (let i = 0; i < 3; i++) await tick();
  const r = {};
  for (const f of fs.readdirSync(out)) r[f] = fs.readFileSync(path.join(out, f)).toString();
  if (rejected) r.error = rejected;
  return r;
}

function load(text) {
  const code = esbuild.transformSync(text, {
    loader: "ts",
    format: "cjs",
    tsconfigRaw: { compilerOptions: { target: "ESNext", useDefineForClassFields: true } },
  }).code;
  class Operator {
    constructor(id) {
      this.id = id;
    }
  }
  const module = { exports: {} };
  new Function("require", "module", "exports", code)((m) => (m === "zod" ? { z } : { Operator }), module, module.exports);
  return module.exports;
}

// the arguments the JavaScript usage of a page passes to its operator
function usage(page) {
  try {
    const [, imported, body] = /```js\nimport \{ Program, (\w+) \} from "@rtbot-dev\/rtbot";\n([^]*?)```/.exec(page.slice(page.lastIndexOf("## Usage")));
    let args = null;
    class Program {
      addOperator(o) {
        args = o.args;
      }
    }
    class Op {
      constructor(...a) {
        this.args = a;
      }
    }
    new Function("Program", imported, body)(Program, Op);
    const yaml = require("js-yaml").load(page.slice(page.lastIndexOf("## Usage")).split("```yaml\n")[1].split("```")[0]);
    return { args, yaml };
  } catch (e) {
    return { error: String(e) };
  }
}

async function answer(q) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vp-generator-"));
  try {
    const files = q.docs.map((d) => {
      const f = path.join(dir, d.name);
      fs.writeFileSync(f, d.text);
      return f;
    });
    const sources = q.joined ? [files.join(" ")] : files;
    const r = {};
    for (const t of q.targets) r[t] = await generate(dir, t, sources, q.wanted);
    r.usage = {};
    for (const f of Object.keys(r.markdown || {})) if (f.endsWith(".mdx")) r.usage[f] = usage(r.markdown[f]);
    if (r.typescript && r.typescript["index.ts"]) {
      let api;
      try {
        api = load(r.typescript["index.ts"]);
      } catch (e) {
        r.broken = String((e && e.message) || e);
        return r;
      }
      r.exports = Object.keys(api).sort();
      r.made = q.make.map((m) => {
        try {
          const op = new api[m.type](...m.args);
          return { ok: JSON.parse(JSON.stringify(op)) };
        } catch (e) {
          return { error: String((e && e.name) || e) };
        }
      });
      r.programs = q.programs.map((p) => api.programSchema.safeParse(p).success);
    }
    return r;
  } finally {
    fs.rmSync(dir, { recursive: true, force: true });
  }
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    let r;
    try {
      r = await answer(JSON.parse(line));
    } catch (e) {
      r = { failed: String((e && e.stack) || e) };
    }
    const buf = Buffer.from(JSON.stringify(r) + "\n");
    let at = 0;
    while (at < buf.length) at += fs.writeSync(3, buf, at);
  }
})();
