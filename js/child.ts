// Executes scenarios against the javascript package: one JSON line in, one JSON line out on descriptor 3.
import * as api from "./package";
import { live } from "@rtbot-dev/wasm";
const fs = require("fs");
const readline = require("readline");

const plain = (x: any) => JSON.parse(JSON.stringify(x ?? null));

async function step(s: any, progs: any[], ops: any[]): Promise<any> {
  switch (s.do) {
    case "program":
      progs.push(null);
      progs[progs.length - 1] = new api.Program(...(s.args.map((x: any) => x ?? undefined) as []));
      return null;
    case "parse":
      progs.push(null);
      progs[progs.length - 1] = api.Program.toInstance(JSON.parse(s.text));
      return null;
    case "checkValid":
      api.Program.checkValid(s.text);
      return null;
    case "operator":
      ops.push(null);
      ops[ops.length - 1] = new (api as any)[s.type](...s.args.map((x: any) => (x && x.omitted ? undefined : x)));
      return plain(ops[ops.length - 1]);
  }
  const p = progs[s.p];
  switch (s.do) {
    case "add":
      p.addOperator(ops[s.op]);
      return null;
    case "connect":
      p.addConnection({ id: s.from }, { id: s.to }, ...s.ports);
      return null;
    case "disconnect":
      p.deleteConnection(...s.args);
      return null;
    case "remove":
      p.deleteOperator(s.id);
      return null;
    case "set":
      p.entryOperator = s.entry;
      return null;
    case "json":
      return { json: plain(p), plain: plain(p.toPlain()) };
    case "validate": {
      let threw = false;
      try {
        p.validate();
      } catch (e) {
        threw = true;
      }
      return { threw, success: p.safeValidate().success };
    }
    case "run": {
      const progress: number[] = [];
      const format = s.extended ? api.RtBotRunOutputFormat.EXTENDED : api.RtBotRunOutputFormat.COLLAPSED;
      const run = new api.RtBotRun(s.text ? JSON.stringify(p) : p, s.data, format, (x: number) => progress.push(x), s.verbose);
      await run.run();
      return { out: plain(run.getOutputs()), progress };
    }
    case "start":
      await p.start();
      return null;
    case "send":
      return plain(await p[s.debug ? "processMessageDebug" : "processMessage"](s.time, s.value, s.port ?? undefined));
    case "burst": {
      // sent without waiting for the answers; each answer belongs to its message
      const all = s.messages.map((m: any) => p[m.debug ? "processMessageDebug" : "processMessage"](m.time, m.value, m.port ?? undefined));
      const done = await Promise.allSettled(all);
      return done.map((d: any) => (d.status === "fulfilled" ? { ok: plain(d.value) } : { error: String(d.reason?.message ?? d.reason) || "error" }));
    }
    case "stop":
      await p.stop();
      return null;
  }
  throw new Error(s.do);
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    for (const x of [...live]) await api.RtBot.getInstance().deleteProgram(x as string);
    const progs: any[] = [];
    const ops: any[] = [];
    const answers: any[] = [];
    for (const s of JSON.parse(line).steps) {
      let a: any;
      try {
        a = { ok: await step(s, progs, ops) };
      } catch (e: any) {
        a = { error: String((e && e.message) ?? e), kind: (e && e.name) ?? "" };
      }
      a.live = live.size;
      answers.push(a);
    }
    let text = JSON.stringify(answers) + "\n";
    let buf = Buffer.from(text);
    let at = 0;
    while (at < buf.length) at += fs.writeSync(3, buf, at);
  }
})();
