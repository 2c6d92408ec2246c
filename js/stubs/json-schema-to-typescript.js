// stand-in for "json-schema-to-typescript": an interface of the shape that package prints
const ts = (s) => {
  if (s.enum) return s.enum.map((e) => JSON.stringify(e)).join(" | ");
  if (s.type === "integer" || s.type === "number") return "number";
  if (s.type === "string") return "string";
  if (s.type === "boolean") return "boolean";
  if (s.type === "array") return s.items ? `(${ts(s.items)})[]` : "any[]";
  return "any";
};
const comment = (s) => (s.description ? `  /**\n   * ${s.description.replace(/\*\//g, "*\\/")}\n   */\n` : "");
module.exports.compile = async (schema, name) =>
  `/* tslint:disable */\n\nexport interface ${name} {\n` +
  Object.entries(schema.properties)
    .map(([k, v]) => `${comment(v)}  ${k}${(schema.required || []).includes(k) ? "" : "?"}: ${ts(v)};\n`)
    .join("") +
  "  [k: string]: unknown;\n}\n";
