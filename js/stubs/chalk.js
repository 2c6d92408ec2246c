const same = (s) => s;
module.exports = { cyan: same, yellow: same, red: same, default: { cyan: same, yellow: same, red: same } };
