// stand-in for the "yaml" package
const yaml = require("js-yaml");
module.exports.parse = (s) => yaml.load(s);
