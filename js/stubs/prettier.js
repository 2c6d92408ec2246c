// stand-in for "prettier": formatting does not matter here
module.exports.format = async (s) => s;
