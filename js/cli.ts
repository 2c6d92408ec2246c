// Executes the debug command and key strokes in its screen: one JSON line in, one JSON line out on descriptor 3.
import { Command } from "commander";
import { registerDebug } from "./cli/commands/debug";
const { live } = require("@rtbot-dev/wasm");
const { files } = require("fs");
const { reset } = require("zustand/vanilla");
const blessed = require("blessed");
const fs = require("node:fs");
const readline = require("node:readline");

class Exit extends Error {}

// time passes when a scenario says so
let clock = 0;
let timers: any[] = [];
let count = 0;
const timer = (f: any, every: number, again: boolean, args: any[]) => {
  const t = { id: ++count, at: clock + Math.max(1, every || 1), every: Math.max(1, every || 1), again, f, args };
  timers.push(t);
  return t;
};
const stop = (t: any) => {
  timers = timers.filter((x) => x !== t);
};
const pass = (ms: number) => {
  const end = clock + ms;
  for (;;) {
    const next = timers.filter((t) => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!next) break;
    clock = next.at;
    if (next.again) next.at += next.every;
    else stop(next);
    next.f(...next.args);
  }
  clock = end;
};

async function scenario(q: any) {
  reset();
  blessed.reset();
  files.clear();
  timers = [];
  for (const [k, v] of Object.entries(q.files)) files.set(k, v as string);
  const lines: string[] = [];
  const real = { log: console.log, error: console.error, exit: process.exit, st: setTimeout, si: setInterval, ct: clearTimeout, ci: clearInterval };
  const g = globalThis as any;
  console.log = (...a: any[]) => void lines.push(a.map((x) => (typeof x === "string" ? x : JSON.stringify(x))).join(" "));
  console.error = () => {};
  (process as any).exit = (code: number) => {
    throw new Exit(String(code ?? 0));
  };
  g.setTimeout = (f: any, ms: number, ...a: any[]) => timer(f, ms, false, a);
  g.setInterval = (f: any, ms: number, ...a: any[]) => timer(f, ms, true, a);
  g.clearTimeout = g.clearInterval = stop;
  const answer: any = { exit: 0, views: [] };
  try {
    try {
      const program = new Command();
      program.exitOverride();
      program.configureOutput({ writeErr: () => {}, writeOut: () => {} });
      registerDebug(program);
      await program.parseAsync(q.args, { from: "user" });
    } catch (e: any) {
      answer.exit = e instanceof Exit ? Number(e.message) : 1;
      answer.error = String((e && e.message) ?? e);
    }
    for (const k of q.keys ?? []) {
      let box = "";
      try {
        if (k.press) for (const s of blessed.seen.screens) s.press(k.press);
        if (k.mark !== undefined) {
          const same = blessed.seen.boxes.filter((b: any) => b.options.text === k.text);
          box = same.length ? "" : "no such box";
          if (same.length) same[k.first ? 0 : same.length - 1].mark(k.mark);
        }
        if (k.wait) pass(k.wait);
      } catch (e: any) {
        answer.views.push({ error: String((e && e.message) ?? e), exited: e instanceof Exit });
        continue;
      }
      const last: any = {};
      for (const b of blessed.seen.boxes) last[b.options.text] = b.checked;
      answer.views.push({ table: blessed.seen.tables.map((t: any) => t.data), boxes: last, shown: blessed.seen.screens.map((s: any) => s.shown), box });
    }
  } finally {
    console.log = real.log;
    console.error = real.error;
    process.exit = real.exit;
    g.setTimeout = real.st;
    g.setInterval = real.si;
    g.clearTimeout = real.ct;
    g.clearInterval = real.ci;
  }
  answer.lines = lines;
  answer.files = Object.fromEntries(files);
  answer.live = live.size;
  return answer;
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    let a: any;
    try {
      a = await scenario(JSON.parse(line));
    } catch (e: any) {
      a = { harness: String((e && e.stack) ?? e) };
    }
    const buf = Buffer.from(JSON.stringify(a) + "\n");
    let at = 0;
    while (at < buf.length) at += fs.writeSync(3, buf, at);
  }
})();
