// Runs the scripts of a page against stand-ins for the DOM. Reads a JSON list
// of {scripts, texts}, prints for each the list of [text before, HTML assigned].
const vm = require("vm");
const input = JSON.parse(require("fs").readFileSync(0, "utf8"));
const escape = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const out = [];
for (const page of input) {
	const assigned = [];
	let sink;
	// absorb stands for anything that is not modelled.
	const absorb = () => new Proxy(function () {}, {
		get: (t, k) => k === Symbol.toPrimitive ? () => "" : k === Symbol.iterator ? function* () {} : k === "length" ? 0 : k === "then" ? undefined : sink,
		set: () => true,
		apply: () => sink,
		construct: () => sink,
	});
	sink = absorb();
	const element = (original) => {
		let text = original;
		const add = (cs) => { for (const c of cs) text += typeof c === "object" && c !== null ? String(c.textContent) : String(c); };
		const known = {
			get textContent() { return text; }, set textContent(s) { text = String(s); },
			get innerText() { return text; }, set innerText(s) { text = String(s); },
			get innerHTML() { return escape(text); }, set innerHTML(s) { assigned.push([original, String(s)]); },
			set outerHTML(s) { assigned.push([original, String(s)]); },
			insertAdjacentHTML: (_, s) => { assigned.push([original, String(s)]); },
			replaceChildren: (...cs) => { text = ""; add(cs); },
			append: (...cs) => add(cs),
			appendChild: (c) => { add([c]); return c; },
			closest: () => null, parentElement: null, parentNode: null,
			hasAttribute: () => false, getAttribute: () => null,
			querySelectorAll: (q) => String(q).includes("searchable") ? all : [],
			querySelector: () => null, getElementsByClassName: () => [], getElementsByTagName: () => [],
		};
		return new Proxy(known, { get: (t, k) => k in t ? t[k] : sink, set: (t, k, v) => { t[k] = v; return true; } });
	};
	const all = page.texts.map(element);
	const document = new Proxy({
		getElementById: () => element(""), createElement: () => element(""), createTextNode: (s) => ({ textContent: String(s) }),
		querySelectorAll: (q) => String(q).includes("searchable") ? all : [], querySelector: () => null,
		getElementsByClassName: (c) => String(c).includes("searchable") ? all : [], getElementsByTagName: () => [],
		write: (s) => assigned.push(["", String(s)]), writeln: (s) => assigned.push(["", String(s)]), body: element(""),
	}, { get: (t, k) => k in t ? t[k] : sink });
	const context = vm.createContext({ document, setInterval() {}, setTimeout() {}, requestAnimationFrame() {}, sessionStorage: sink, localStorage: sink, addEventListener() {}, location: sink, navigator: sink, URLSearchParams, URL, console: sink, alert: () => assigned.push(["", "alert"]) });
	context.window = context;
	let error = "";
	for (const s of page.scripts) {
		try { vm.runInContext(s, context, { timeout: 2000 }); } catch (e) { error = error || String(e); }
	}
	out.push({ assigned, error, texts: all.map((e) => e.textContent) });
}
console.log(JSON.stringify(out));
