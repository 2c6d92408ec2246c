// stand-in for "@rtbot-dev/wasm": the functions the embind glue registers, called in the native addon
const engine = require(process.argv[2]);
const call =
  (name) =>
  (...args) => {
    const r = JSON.parse(engine.call(name, JSON.stringify(args)));
    if (r.error !== undefined) throw new Error(r.error);
    if (name === "createProgram" && r.ok === "") live.add(args[0]);
    if (name === "deleteProgram") live.delete(args[0]);
    return r.ok;
  };
const live = new Set();
const engineModule = new Proxy({}, { get: (_, name) => (name === "then" ? undefined : call(name)) });
module.exports = () => Promise.resolve(engineModule);
module.exports.default = module.exports;
module.exports.live = live;
