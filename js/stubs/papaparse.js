// stand-in for "papaparse" (5): comma separated text to rows of strings, quoted fields, any newline
const rows = (text) => {
  const newline = /\r\n/.test(text) ? "\r\n" : /\n/.test(text) ? "\n" : /\r/.test(text) ? "\r" : "\n";
  const data = [];
  let row = [],
    i = 0;
  if (text === "") return data;
  for (;;) {
    let field = "";
    if (text[i] === '"') {
      i++;
      while (i < text.length && !(text[i] === '"' && text[i + 1] !== '"')) {
        if (text[i] === '"') i++;
        field += text[i++];
      }
      i++;
    } else while (i < text.length && text[i] !== "," && !text.startsWith(newline, i)) field += text[i++];
    row.push(field);
    if (i >= text.length) break;
    if (text[i] === ",") i++;
    else {
      i += newline.length;
      data.push(row);
      row = [];
    }
  }
  data.push(row);
  return data;
};
const parse = (text, config) => {
  if (text.charCodeAt(0) === 0xfeff) text = text.slice(1);
  const result = { data: rows(text), errors: [], meta: { delimiter: ",", aborted: false, truncated: false } };
  if (config && config.complete) config.complete(result);
  return config && config.worker ? undefined : result;
};
module.exports = { parse, default: { parse } };
