// Loads the WebAssembly module once and makes the calls of a file, one after another.
const fs = require("fs");
const [exec, wasm, calls, answers] = process.argv.slice(2);
// As in a browser, there is no file system: the loader's own stand-in logs what is written.
require(exec);
const go = new Go();
const out = fs.openSync(answers, "w");
WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject).then(async (r) => {
  let gone = false;
  go.run(r.instance).then(() => { gone = true; });
  for (let i = 0; i < 200 && !globalThis.parseKuneiform; i++) await new Promise((f) => setTimeout(f, 5));
  if (!globalThis.parseKuneiform) { console.error("exit code: the function was not exported"); process.exit(5); }
  let n = 0;
  const held = []; // results of earlier calls, as a caller may keep them
  for (const line of fs.readFileSync(calls, "utf8").split("\n")) {
    if (line === "") continue;
    const c = JSON.parse(line);
    let a = {};
    if (c.half) c.args[0] = c.args[0].replace("\ue000", String.fromCharCode(c.half));
    try {
      const v = c.this ? globalThis.parseKuneiform.apply({ x: 1 }, c.args) : globalThis.parseKuneiform(...c.args);
      a.type = typeof v;
      if (v !== null && a.type === "object") {
        a.keys = Object.keys(v).sort();
        if (typeof v.json === "string") a.json = v.json;
        if (v.error !== undefined) a.error = String(v.error);
      } else a.value = v === undefined ? null : v;
      for (const h of held)
        if (h.v.json !== h.json || h.v.error !== h.error) { a.earlier = "the result of call " + h.n; h.json = h.v.json; h.error = h.v.error; }
      if (v !== null && a.type === "object") {
        if (n % 4 === 3) { v.json = "changed by the caller"; v.error = "changed by the caller"; }
        if (held.length === 6) held[n % 6] = { n: n + 1, v, json: v.json, error: v.error };
        else held.push({ n: n + 1, v, json: v.json, error: v.error });
      }
    } catch (e) { a.throw = String(e); }
    fs.writeSync(out, JSON.stringify(a) + "\n");
    if (++n % 16 === 0) await new Promise((f) => setTimeout(f, 0));
    if (gone) { console.error("exit code: the module ended"); process.exit(6); }
  }
  process.exit(0);
}).catch((e) => { console.error("exit code: " + e); process.exit(7); });
