// Runs the playground as a browser page would: no file system, one function handed over.
// Reads one JSON array of arguments per line and answers with one JSON line.
"use strict";
const fs = require("fs"), readline = require("readline");
const [, , exec, wasm] = process.argv;
console.log = console.warn = console.error = (...a) => fs.writeSync(2, a.join(" ") + "\n");
require(exec);
const go = new Go();
globalThis["xtoproto-service-available"] = (f) => {
	const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
	rl.on("line", (line) => {
		let out;
		try {
			out = { answer: f(...JSON.parse(line)) };
		} catch (e) {
			out = { thrown: String(e) };
		}
		fs.writeSync(1, JSON.stringify(out) + "\n");
	});
	rl.on("close", () => process.exit(0));
	fs.writeSync(1, JSON.stringify({ ready: true }) + "\n");
};
WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject)
	.then((r) => go.run(r.instance))
	.then(() => { fs.writeSync(1, JSON.stringify({ ended: true }) + "\n"); process.exit(7); })
	.catch((e) => { fs.writeSync(2, String(e) + "\n"); process.exit(8); });
