// stand-in for "fs" in the command line interface: files in memory
const files = new Map();
module.exports = {
  files,
  readFileSync: (name, options) => {
    if (!files.has(name)) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${name}'`), { code: "ENOENT" });
    return options && (options.encoding || typeof options === "string") ? files.get(name) : Buffer.from(files.get(name));
  },
  writeFileSync: (name, data) => void files.set(name, String(data)),
  existsSync: (name) => files.has(name),
};
