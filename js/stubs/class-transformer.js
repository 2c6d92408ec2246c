// stand-in for "class-transformer" (0.5): what plainToInstance, instanceToPlain and @Exclude do without type metadata
const excluded = new Map();
module.exports.Exclude = () => (target, key) => {
  if (!excluded.has(target)) excluded.set(target, new Set());
  excluded.get(target).add(key);
};
const hidden = (type, key) => {
  for (let p = type && type.prototype; p; p = Object.getPrototypeOf(p)) if (excluded.has(p) && excluded.get(p).has(key)) return true;
  return false;
};
const copy = (value, type, make, path) => {
  if (Array.isArray(value)) return value.filter((x) => !path.includes(x)).map((x) => copy(x, undefined, make, path));
  if (value === null || typeof value !== "object") return value;
  if (value instanceof Date) return new Date(value.valueOf());
  if (!type && value.constructor !== Object) type = value.constructor;
  const r = make && type ? new type() : {};
  for (const k of Object.keys(value)) {
    if (k === "__proto__" || k === "constructor" || hidden(type, k)) continue;
    const v = value[k];
    if (typeof v === "function") continue;
    if (make && typeof r[k] === "function") continue;
    if (v !== null && typeof v === "object" && path.includes(v)) continue;
    const n = copy(v, undefined, make, [...path, value]);
    if (n !== undefined) r[k] = n;
  }
  return r;
};
module.exports.plainToInstance = (type, plain) => (Array.isArray(plain) ? plain.map((x) => copy(x, type, true, [])) : copy(plain, type, true, []));
module.exports.instanceToPlain = (x) => copy(x, undefined, false, []);
