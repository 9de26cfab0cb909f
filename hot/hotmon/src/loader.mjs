// Runs loader scripts as a browser would: as ES modules, with the two imports supplied.
// stdin-free: node --experimental-vm-modules loader.mjs IN OUT ; one JSON string per line in IN,
// one JSON array of observations per line in OUT.
import vm from "node:vm";
import fs from "node:fs";
const [, , inp, out] = process.argv;
const res = [];
for (const line of fs.readFileSync(inp, "utf8").split("\n")) {
  if (!line) continue;
  const seen = [];
  try {
    const ctx = vm.createContext({});
    const m = new vm.SourceTextModule(JSON.parse(line), { context: ctx });
    let ready = false;
    await m.link((spec) => {
      seen.push(["import", spec]);
      const s = new vm.SyntheticModule(["default", "start_live_reload"], function () {
        this.setExport("default", async (...a) => {
          seen.push(["init", ...a]);
          await null;
          await null;
          ready = true;
        });
        this.setExport("start_live_reload", (...a) => seen.push([ready ? "start" : "start too early", ...a]));
      }, { context: ctx });
      return s;
    });
    await m.evaluate();
  } catch (e) {
    seen.push(["error", String(e)]);
  }
  res.push(JSON.stringify(seen));
}
fs.writeFileSync(out, res.join("\n") + "\n");
