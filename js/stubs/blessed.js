// stand-in for "blessed": elements that remember what they were given, keys and marks that a scenario triggers
const seen = { boxes: [], tables: [], screens: [] };
class Element {
  constructor(kind, options = {}) {
    this.kind = kind;
    this.options = options;
    this.checked = !!options.checked;
    this.handlers = {};
    this.keys = {};
    this.renders = 0;
    if (kind === "checkbox") seen.boxes.push(this);
    if (kind === "listtable") seen.tables.push(this);
    if (kind === "screen") seen.screens.push(this);
  }
  append() {}
  log() {}
  on(event, f) {
    (this.handlers[event] = this.handlers[event] || []).push(f);
  }
  key(names, f) {
    for (const n of [].concat(names)) (this.keys[n] = this.keys[n] || []).push(f);
  }
  press(name) {
    for (const f of this.keys[name] || []) f.call(this, name, { name });
  }
  mark(checked) {
    this.checked = checked;
    for (const f of this.handlers[checked ? "check" : "uncheck"] || []) f.call(this);
  }
  setData(rows) {
    this.data = rows;
  }
  render() {
    this.renders++;
    this.shown = seen.tables.map((t) => t.data);
  }
}
module.exports = { seen, reset: () => (seen.boxes.length = seen.tables.length = seen.screens.length = 0) };
for (const k of ["screen", "box", "listtable", "form", "checkbox"]) module.exports[k] = (o) => new Element(k, o);
