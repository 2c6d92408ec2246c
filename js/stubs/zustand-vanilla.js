// stand-in for "zustand/vanilla" (4): a store with set, get and listeners
const stores = [];
module.exports.createStore = (init) => {
  let state;
  let listeners = new Set();
  const get = () => state;
  const set = (partial, replace) => {
    const next = typeof partial === "function" ? partial(state) : partial;
    if (Object.is(next, state)) return;
    const previous = state;
    state = replace || typeof next !== "object" || next === null ? next : Object.assign({}, state, next);
    for (const l of [...listeners]) l(state, previous);
  };
  const api = { getState: get, setState: set, subscribe: (l) => (listeners.add(l), () => listeners.delete(l)) };
  state = init(set, get, api);
  const first = state;
  stores.push(() => {
    state = first;
    listeners = new Set();
  });
  return api;
};
// a process of the command line interface starts with fresh stores
module.exports.reset = () => stores.forEach((f) => f());
