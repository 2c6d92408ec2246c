// stand-in for "immer": produce on plain data; the result is frozen, an untouched value is returned as it is
const freeze = (x) => {
  if (x && typeof x === "object" && !Object.isFrozen(x)) Object.values(Object.freeze(x)).forEach(freeze);
  return x;
};
module.exports.produce = (base, recipe) => {
  const draft = structuredClone(base);
  const r = recipe(draft);
  const next = r === undefined ? draft : r;
  return JSON.stringify(next) === JSON.stringify(base) ? base : freeze(next);
};
