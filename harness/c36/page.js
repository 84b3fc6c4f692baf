// Loads the playground's page into a small stand-in of a browser and plays a user's
// edits on it. Reads one JSON scenario per line and answers with one JSON line:
// scenario = {page, late, prism, steps: [[[id, text], ...], ...], answers: [string, ...], wasm, exec}
// Each step is a burst of edits after which the page settles.
"use strict";
const fs = require("fs"), vm = require("vm"), readline = require("readline");
const compiled = new Map();

function decode(s) {
	return s.replace(/&(lt|gt|amp|quot|#39);/g, (m, n) => ({ lt: "<", gt: ">", amp: "&", quot: '"', "#39": "'" })[n]);
}

// parse finds the scripts and the elements that have an id, in order.
function parse(html) {
	const scripts = [], elements = [];
	const tag = /<!--[\s\S]*?-->|<(script|textarea|style|[a-zA-Z][a-zA-Z0-9-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?)*)\s*\/?>/g;
	let m;
	while ((m = tag.exec(html))) {
		if (!m[1]) continue;
		const name = m[1].toLowerCase(), attrs = {};
		const at = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g;
		let a;
		while ((a = at.exec(m[2] || ""))) attrs[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? "");
		let inner = "";
		if (["script", "textarea", "style", "title"].includes(name)) {
			const end = html.toLowerCase().indexOf("</" + name, tag.lastIndex);
			inner = html.slice(tag.lastIndex, end < 0 ? html.length : end);
			tag.lastIndex = end < 0 ? html.length : end;
		}
		if (name === "script") scripts.push({ src: attrs.src, text: inner, deferred: attrs.type === "module" || "defer" in attrs && "src" in attrs });
		if ("id" in attrs) elements.push({ name, attrs, inner });
	}
	return { scripts, elements };
}

class Target {
	constructor() { this.listeners = {}; }
	addEventListener(type, f) { (this.listeners[type] = this.listeners[type] || []).push(f); }
	removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter((x) => x !== f); }
	dispatchEvent(e) {
		if (!e.target) e.target = this;
		e.currentTarget = this;
		for (const f of (this.listeners[e.type] || []).slice()) typeof f === "function" ? f.call(this, e) : f.handleEvent(e);
		if (typeof this["on" + e.type] === "function") this["on" + e.type](e);
		if (e.bubbles && this.up) { this.up.dispatchEvent(e); }
		return true;
	}
}

class Element extends Target {
	constructor(name, attrs, inner, doc) {
		super();
		this.tagName = this.nodeName = name.toUpperCase();
		this.attrs = attrs;
		this.id = attrs.id;
		this.up = doc;
		this.ownerDocument = doc;
		this.style = {};
		this.hidden = false;
		this.isTextarea = name === "textarea";
		inner = decode(inner.replace(/\r\n?/g, "\n"));
		this._text = this.isTextarea ? inner.replace(/^\n/, "") : "";
		this._value = this._text;
		this.classList = { add() { }, remove() { }, toggle() { }, contains() { return false; } };
		this.parentElement = this.parentNode = attrs.id ? new Element("div", {}, "", doc) : null;
	}
	get textContent() { return this._text; }
	set textContent(v) { this._text = v === null ? "" : String(v); }
	get innerText() { return this._text; }
	set innerText(v) { this.textContent = v; }
	get value() { return this.isTextarea ? this._value : undefined; }
	set value(v) { this._value = (v === null ? "" : String(v)).replace(/\r\n?/g, "\n"); }
	getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
	setAttribute(n, v) { this.attrs[n] = String(v); }
	removeAttribute(n) { delete this.attrs[n]; }
	hasAttribute(n) { return n in this.attrs; }
	replaceChildren(...c) { this.textContent = c.map((x) => typeof x === "string" ? x : x.textContent).join(""); }
	append(...c) { this.textContent = this._text + c.map((x) => typeof x === "string" ? x : x.textContent).join(""); }
	appendChild(c) { this.append(c); return c; }
	querySelector() { return null; }
	querySelectorAll() { return []; }
	focus() { }
	blur() { }
}

const settle = async (n) => { for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r)); };

async function play(sc) {
	const { scripts, elements } = parse(fs.readFileSync(sc.page, "utf8"));
	const doc = new Target();
	const byId = new Map();
	for (const e of elements) if (!byId.has(e.attrs.id)) byId.set(e.attrs.id, new Element(e.name, e.attrs, e.inner, doc));
	doc.readyState = "loading";
	doc.getElementById = (id) => doc.readyState === "loading" ? null : byId.get(String(id)) || null;
	doc.querySelector = (q) => /^#[\w-]+$/.test(q) ? doc.getElementById(q.slice(1)) : null;
	doc.querySelectorAll = (q) => [doc.querySelector(q)].filter((x) => x);
	doc.createTextNode = (s) => ({ textContent: String(s) });
	doc.createElement = (n) => new Element(n, {}, "", doc);
	const log = [], calls = [], thrown = [];
	let count = 0, answered = 0, running = false, dead = false; // calls answered since the page was last looked at; the program offered its function
	const sandbox = {
		document: doc, atob, btoa, TextDecoder, TextEncoder, setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, queueMicrotask, performance, crypto,
		URL, URLSearchParams, Response, console: {}, location: { href: "http://localhost/index.html" }, navigator: { userAgent: "stand-in" },
		Event: class { constructor(t, o) { this.type = t; Object.assign(this, o); } },
	};
	for (const k of ["log", "warn", "error", "info", "debug"]) sandbox.console[k] = (...a) => { if (log.length < 40) log.push(k + ": " + a.map((x) => String(x && x.stack || x)).join(" ").slice(0, 600)); };
	const win = new Target();
	for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) sandbox[k] = win[k].bind(win);
	let handed;
	Object.defineProperty(sandbox, "xtoproto-service-available", {
		configurable: true, enumerable: true,
		get: () => handed,
		set: (take) => { handed = typeof take !== "function" ? take : sc.wasm ? (f) => { running = true; return take(wrap((n, ...a) => f(...a))); } : take; },
	});
	onRejection = (e) => { if (thrown.length < 40) thrown.push("unhandled rejection: " + String(e && e.stack || e).slice(0, 600)); };
	vm.createContext(sandbox);
	vm.runInContext("globalThis.window = globalThis.self = globalThis.top = globalThis;", sandbox);
	let release;
	const gate = new Promise((r) => (release = r)); // opens when the program has been fetched
	sandbox.fetch = (u) => gate.then(() => new URL(String(u), sandbox.location.href).pathname === "/playground.wasm" ? new Response("wasm") : Promise.reject(new Error("not found: " + u)));
	const wrap = (f) => (...a) => { // records the calls of the function handed over
		calls.push(a.map(String));
		const n = count++;
		if (a.length !== 3) throw new Error("the function was called with " + a.length + " arguments");
		const out = f(n, ...a);
		answered++;
		return out;
	};
	if (sc.wasm) {
		const w = vm.runInContext("WebAssembly", sandbox);
		w.instantiateStreaming = (r, imp) => Promise.resolve(r).then(async () => {
			if (!compiled.has(sc.wasm)) compiled.set(sc.wasm, await WebAssembly.compile(fs.readFileSync(sc.wasm)));
			const module = compiled.get(sc.wasm);
			return { module, instance: new w.Instance(module, imp) };
		});
	} else {
		sandbox.WebAssembly = { instantiateStreaming: (r, imp) => Promise.resolve(r).then(() => ({ module: {}, instance: {} })) };
	}
	for (const s of scripts) {
		if (s.deferred) continue;
		try {
			if (s.src === undefined) vm.runInContext(s.text, sandbox);
			else if (/^(\.?\/)?wasm_exec\.js$/.test(s.src)) {
				if (sc.wasm) vm.runInContext(fs.readFileSync(sc.exec, "utf8"), sandbox);
				else sandbox.Go = class {
					constructor() { this.importObject = {}; }
					run() { sandbox.window["xtoproto-service-available"](wrap((n) => sc.answers[n % sc.answers.length])); return new Promise(() => { }); }
				};
			} else if (/prism-core/.test(s.src)) {
				if (sc.prism === "works") sandbox.Prism = { highlightAllUnder() { } };
				if (sc.prism === "throws") sandbox.Prism = { highlightAllUnder() { throw new Error("no grammar"); } };
			}
		} catch (e) { thrown.push(String(e && e.stack || e)); }
		if (sc.late !== "late" && /Go\(\)/.test(s.text)) { release(); if (sc.late === "early") for (let i = 0; i < 2000 && (i < 4 || sc.wasm && !running); i++) await new Promise((r) => setTimeout(r, sc.wasm ? 5 : 0)); }
	}
	doc.readyState = "interactive";
	const fire = (t, type) => { try { t.dispatchEvent({ type, preventDefault() { }, stopPropagation() { } }); } catch (e) { thrown.push(String(e && e.stack || e)); } };
	fire(doc, "DOMContentLoaded");
	fire(win, "DOMContentLoaded");
	doc.readyState = "complete";
	fire(win, "load");
	if (typeof sandbox.onload === "function") fire({ dispatchEvent: sandbox.onload }, "load");
	const show = () => {
		const o = {};
		for (const [id, e] of byId) o[id] = e.isTextarea ? e._value : e._text;
		return o;
	};
	// With the real program, wait until it has answered.
	const quiet = async () => {
		for (let i = 0; sc.wasm && answered === 0 && i < 6000 && !dead; i++) await new Promise((r) => setTimeout(r, 10));
		dead = answered === 0; // do not wait for it again
		answered = 0;
		await settle(8);
	};
	const trace = [];
	const edit = (burst) => {
		for (const [id, text] of burst) {
			const e = byId.get(id);
			if (!e) { thrown.push("no element " + id); continue; }
			e.value = text;
			fire(e, "input");
		}
	};
	let steps = sc.steps || [];
	if (sc.late === "late") { // the user types before the program is there
		await settle(3);
		edit(steps[0] || []);
		steps = steps.slice(1);
		release();
	}
	await quiet();
	trace.push({ state: show(), calls: calls.splice(0) });
	for (const s of steps) {
		edit(s);
		await quiet();
		trace.push({ state: show(), calls: calls.splice(0) });
	}
	return { trace, log, thrown };
}

let onRejection = () => { };
process.on("unhandledRejection", (e) => onRejection(e));
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let chain = Promise.resolve();
rl.on("line", (line) => {
	chain = chain.then(() => play(JSON.parse(line))).then((o) => JSON.stringify(o), (e) => JSON.stringify({ broken: String(e && e.stack || e) })).then((s) => fs.writeSync(1, s + "\n"));
});
rl.on("close", () => chain.then(() => process.exit(0)));
