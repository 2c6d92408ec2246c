// stand-in for "json-schema-to-zod" (0.6): the expression that package prints for the schemas used here
const parseSchema = (s) => {
  let r = base(s);
  if (s.default !== undefined) r += `.default(${JSON.stringify(s.default)})`;
  return r;
};
const base = (s) => {
  if (s.enum) return s.enum.length === 1 ? `z.literal(${JSON.stringify(s.enum[0])})` : `z.enum(${JSON.stringify(s.enum)})`;
  switch (s.type) {
    case "string":
      return "z.string()";
    case "boolean":
      return "z.boolean()";
    case "integer":
    case "number": {
      let r = "z.number()";
      if (s.type === "integer") r += ".int()";
      if (s.minimum !== undefined) r += `.gte(${s.minimum})`;
      if (s.exclusiveMinimum !== undefined) r += `.gt(${s.exclusiveMinimum})`;
      if (s.maximum !== undefined) r += `.lte(${s.maximum})`;
      return r;
    }
    case "array": {
      if (Array.isArray(s.items)) return `z.tuple([${s.items.map(parseSchema).join(",")}])`;
      let r = `z.array(${s.items ? parseSchema(s.items) : "z.any()"})`;
      if (s.minItems !== undefined) r += `.min(${s.minItems})`;
      if (s.maxItems !== undefined) r += `.max(${s.maxItems})`;
      return r;
    }
    case "object":
      return `z.object({${Object.entries(s.properties || {})
        .map(([k, v]) => {
          const optional = !(s.required || []).includes(k) && v.default === undefined;
          return `${JSON.stringify(k)}:${parseSchema(v)}${optional ? ".optional()" : ""}`;
        })
        .join(",")}})`;
  }
  return "z.any()";
};
module.exports.parseSchema = parseSchema;
