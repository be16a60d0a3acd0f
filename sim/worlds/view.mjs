// World "view": one Ignite JSX component whose state *is* its view.  A history of
// arbitrary view trees is rendered by the real renderer; user input, focus,
// composition, re-entrant updates, faults and (dis)connections are interleaved.
// The oracle is a small independent reference renderer plus the identity of the
// real nodes.
import { createEnv, drainMicrotasks } from "../env.mjs";

export const name = "view";

const SVG = "http://www.w3.org/2000/svg";
// the ways a view can spell the handler of an event; a node uses one of them
const SPELLINGS = {
	click: ["onClick", "onClick", "onclick", "on-click"],
	input: ["onInput", "oninput"],
	keydown: ["onKeydown"],
	"item-picked": ["onItemPicked", "onItem_picked", "on-item-picked", "onitem-picked"],
	open: ["on-open", "onOpen"],
	"dom-change": ["onDOMChange"],
	"click-capture": ["onClickCapture"],
	load: ["onLoad"],
	touchstart: ["onTouchstart"],
};
const EVENTS = Object.fromEntries(Object.entries(SPELLINGS).flatMap(([type, keys]) => keys.map((k) => [k, type])));
// further properties and attributes, with values that need no order among them
const MORE = {
	"*": [["lang", "s"], ["dir", ["ltr", "rtl", "", null]], ["role", "s"], ["draggable", "b"], ["accessKey", "s"], ["data-long-name", "s"], ["aria-label", "s"], ["x", "n"], ["spellcheck", ["true", "false", null]]],
	input: [["name", "s"], ["form", "s"], ["readOnly", "b"], ["required", "b"], ["maxLength", "n"], ["min", "s"], ["pattern", "s"], ["autocomplete", ["on", "off", null]], ["size", [5, 7, null]], ["type", ["text", "password", "search", null]]],
	textarea: [["rows", [2, 5, null]], ["cols", [9, 20, null]], ["readOnly", "b"], ["maxLength", "n"], ["name", "s"]],
	li: [["value", [0, 2, null]]],
	progress: [["value", [0, 0.5, 1, null]], ["value", [0, 0.5, null]], ["max", [2, 4, null]]],
	button: [["name", "s"], ["form", "s"], ["value", "s"], ["type", ["button", "submit", null]]],
	a: [["target", "s"], ["rel", "s"], ["download", "s"]],
	"x-leaf": [["open", "b"], ["label", "s"], ["someData", "o"]],
};
const MORE_PROPS = ["lang", "dir", "name", "readOnly", "required", "maxLength", "min", "pattern", "size", "rows", "cols", "target", "rel", "download", "open", "label", "someData", "autocomplete"];

class InjectedFault extends Error {}

// ---------------------------------------------------------------- generation
const HTML_TAGS = ["div", "span", "p", "ul", "section", "b"];
const freshText = (g) => `t${g.n++}`;

function genProps(rng, g, tag) {
	const p = {};
	const put = (prob, k, f) => {
		if (rng.bool(prob)) p[k] = f();
	};
	put(0.25, rng.bool(0.5) ? "class" : "className", () => rng.pick(["a", "a b", "", null, false, `c${g.n++}`]));
	put(0.04, rng.bool(0.5) ? "class" : "className", () => rng.pick(["a", "", null, `c${g.n++}`]));
	put(0.15, "id", () => `i${g.n++}`);
	put(0.15, "title", () => rng.pick([`h${g.n++}`, "", null]));
	put(0.2, "data-k", () => rng.pick([`d${g.n++}`, 0, true, false, null, undefined, ""]));
	put(0.12, "aria-hidden", () => rng.pick(["true", true, false, undefined]));
	put(0.12, "hidden", () => rng.pick([true, true, false, undefined]));
	put(0.1, "tabIndex", () => rng.pick([0, 1, -1]));
	put(0.25, "style", () => genStyle(rng, g));
	put(0.05, "ref", () => ({ r: g.n++ }));
	put(0.06, "data_x-y", () => `d${g.n++}`);
	for (const [type, keys] of Object.entries(SPELLINGS)) put(type.includes("-c") ? 0.04 : 0.14, rng.pick(keys), () => rng.weighted([[{ h: `h${rng.int(4)}` }, 5], [{ h: `h${g.n++}`, once: true }, 4], [null, 1], [false, 1], [rng.pick(["text", true, 0, 7]), 0.5]]));
	if (HTML_TAGS.includes(tag)) put(0.05, rng.pick(["innerHTML", "innerHTML", "textContent"]), () => rng.pick([`<i>${g.n++}</i>`, `<i>${g.n++}</i>x`, "same", "", null]));
	for (const [k, kind] of [...MORE["*"], ...(MORE[tag] ?? [])]) {
		put(g.rich ? 0.12 : 0.01, k, () => (Array.isArray(kind) ? rng.pick(kind) : kind === "b" ? rng.pick([true, false, null, undefined]) : kind === "n" ? rng.pick([0, 3, 8, null]) : kind === "o" ? rng.pick([{ o: g.n++ }, null]) : rng.pick([`s${g.n++}`, "s", null, undefined])));
	}
	switch (tag) {
		case "input":
			if (g.check) put(0.6, "checked", () => rng.pick([true, false, true, false, null, undefined]));
			else put(0.6, "value", () => rng.pick([`v${g.n++}`, `v${g.n++}`, "", "same", 0, 7, null]));
			put(0.3, "disabled", () => rng.bool());
			put(0.2, "placeholder", () => `p${g.n++}`);
			put(0.15, "list", () => rng.pick([`l${g.n++}`, "l", null]));
			if (g.check) p.type = "checkbox";
			break;
		case "textarea":
			put(0.6, "value", () => rng.pick([`v${g.n++}`, `v${g.n++}`, "", "same", 0, null]));
			break;
		case "button":
			put(0.3, "disabled", () => rng.bool());
			break;
		case "a":
			put(0.6, "href", () => `https://x.test/${g.n++}`);
			break;
		case "label":
			put(0.5, "htmlFor", () => rng.pick([`i${rng.int(5)}`, null]));
			break;
		case "x-leaf":
			put(0.6, "data", () => ({ obj: g.n++ }));
			put(0.4, "count", () => rng.pick([0, 1, 2, 3, "0", "1", "2", ""]));
			break;
		default:
	}
	return p;
}

function genStyle(rng, g) {
	if (rng.bool(0.2)) return rng.pick([null, undefined, false, "color: green;", "width: 2px; color: red;"]);
	const s = {};
	if (rng.bool(0.6)) s.color = rng.pick(["red", "blue", null, undefined, "green"]);
	if (rng.bool(0.4)) s[rng.bool(0.8) ? "backgroundColor" : "background-color"] = rng.pick(["red", "blue", null]);
	if (rng.bool(0.4)) s.width = rng.pick(["1px", "2px", null]);
	// a shorthand and one of its parts: the later one wins (in every style
	// of a run: jsdom does not keep the two in step when one of them is taken away)
	if (g.short) {
		const both = [["margin", rng.pick(["1px", "2px"])], ["marginTop", rng.pick(["1px", "3px"])]];
		for (const [k, v] of rng.bool(0.7) ? both : both.reverse()) s[k] = v;
	}
	if (rng.bool(0.2)) s["--x"] = rng.pick([1, "2", null]);
	return s;
}

function genSvgProps(rng, g) {
	const p = {};
	if (rng.bool(0.4)) p.viewBox = `0 0 ${g.n++} 4`;
	if (rng.bool(0.4)) p.strokeWidth = rng.pick([1, 2, null]);
	if (rng.bool(0.4)) p.fill = rng.pick(["red", "none"]);
	if (rng.bool(0.3)) p.className = rng.pick(["s", "t u", null]);
	if (rng.bool(0.2)) p[rng.pick(["preserveAspectRatio", "textLength", "stroke-linecap", "fillOpacity", "xlink:href", "dataKind", "ariaLabel2", "clipPathUnits", "gradientUnits", "startOffset", "lengthAdjust", "strokeLinecap", "text_anchor", "data-Kind"])] = rng.pick([`z${g.n++}`, "z", null, 0]);
	if (rng.bool(0.15)) p.style = genStyle(rng, g);
	if (rng.bool(0.2)) p["aria-label"] = `l${g.n++}`;
	if (rng.bool(0.2)) p.onClick = { h: `h${g.n++}` };
	return p;
}

function genSvg(rng, g, depth) {
	const c = [];
	const n = rng.int(3);
	for (let i = 0; i < n && depth > 0; i++) {
		const k = rng.weighted([["g", 2], ["circle", 3], ["text", 1], ["foreignObject", 1]]);
		if (k === "g") c.push({ t: "el", tag: "g", p: genSvgProps(rng, g), c: genSvg(rng, g, depth - 1).c });
		else if (k === "text") c.push({ t: "el", tag: "text", p: {}, c: [{ t: "text", v: freshText(g) }] });
		else if (k === "foreignObject") c.push({ t: "el", tag: "foreignObject", p: {}, c: [{ t: "el", tag: "div", p: genProps(rng, g, "div"), c: [] }] });
		else c.push({ t: "el", tag: "circle", p: genSvgProps(rng, g), c: [] });
		if (rng.bool(0.2)) c.push({ t: rng.pick(["arr", "frag", "comp"]), c: c.splice(rng.int(c.length)) });
	}
	return { t: "el", tag: "svg", p: genSvgProps(rng, g), c };
}

function genNode(rng, g, depth) {
	const kind = rng.weighted([
		["el", depth > 0 ? 8 : 2], ["text", 5], ["num", 1.5], ["nil", 2], ["arr", depth > 0 ? 1.5 : 0],
		["frag", depth > 0 ? 1 : 0], ["comp", depth > 0 ? 1 : 0], ["form", 2.5], ["svg", depth > 0 ? 0.8 : 0], ["leaf", 1], ["select", depth > 0 ? 1.2 : 0],
	]);
	const kids = (max) => {
		const out = [];
		const n = rng.int(max + 1);
		for (let i = 0; i < n; i++) out.push(genNode(rng, g, depth - 1));
		return out;
	};
	switch (kind) {
		case "text":
			return { t: "text", v: rng.bool(0.85) ? freshText(g) : rng.pick(["same", "", " ", "<b>&"]) };
		case "num":
			return { t: "num", v: rng.pick([0, 1, -1, 3.5]) };
		case "nil":
			return { t: "nil", v: rng.pick(["null", "false", "true", "undefined"]) };
		case "arr":
			return { t: "arr", c: kids(3) };
		case "frag":
			return { t: "frag", c: kids(3) };
		case "comp":
			return { t: "comp", c: kids(2) };
		case "form": {
			const tag = rng.pick(["input", "input", "input", "textarea", "textarea", "button", "a", "label", "progress", "li"]);
			return { t: "el", tag, p: genProps(rng, g, tag), c: ["input", "textarea", "progress"].includes(tag) ? [] : [{ t: "text", v: freshText(g) }] };
		}
		case "leaf":
			return { t: "el", tag: "x-leaf", p: genProps(rng, g, "x-leaf"), c: [] };
		case "svg":
			return genSvg(rng, g, depth);
		case "select": {
			const c = genOptions(rng, g);
			return { t: "el", tag: "select", p: genSelectProps(rng, g, c), c };
		}
		default: {
			if (rng.bool(0.06)) return { t: "el", tag: "slot", p: rng.bool() ? { name: rng.pick(["a", "b"]) } : {}, c: [] };
			const tag = rng.pick(HTML_TAGS);
			return { t: "el", tag, p: genProps(rng, g, tag), c: kids(4) };
		}
	}
}

const option = (v, p = {}) => ({ t: "el", tag: "option", p: { value: v, ...p }, c: [{ t: "text", v: v === "" ? "choose" : v }] });
function genOptions(rng, g) {
	const pool = ["", "o0", "o1", "o2", "o3", "o4"];
	const n = rng.range(1, 4);
	const c = [];
	// often a placeholder ("choose") comes first
	for (let i = 0; i < n; i++) c.push(option(pool.splice(i === 0 && rng.bool(0.25) ? 0 : rng.int(pool.length), 1)[0]));
	if (!g.controlled && rng.bool(0.3)) rng.pick(c).p.selected = true;
	return c;
}
const genSelectProps = (rng, g, c) => (g.controlled && rng.bool(0.93) ? { value: rng.bool(0.8) ? rng.pick(c).p.value : `o${rng.int(6)}` } : {});
// the options of a select: appended to, filtered, reordered, exchanged
function mutateSelect(rng, g, node) {
	const c = node.c;
	const free = ["", "o0", "o1", "o2", "o3", "o4", "o5", "o6"].filter((v) => !c.some((o) => o.p.value === v));
	const op = rng.weighted([["value", 4], ["append", 3], ["remove", 2], ["swap", 2], ["rename", 2], ["fresh", 1], ["select", 1.5]]);
	if (op === "value" || !c.length) {
		if (c.length) node.p = genSelectProps(rng, g, c);
	} else if (op === "append" && free.length) c.push(option(free.includes(node.p.value) && rng.bool() ? node.p.value : rng.pick(free)));
	else if (op === "remove" && c.length > 1) c.splice(rng.int(c.length), 1);
	else if (op === "swap") {
		const i = rng.int(c.length);
		const j = rng.int(c.length);
		[c[i], c[j]] = [c[j], c[i]];
	} else if (op === "rename" && free.length) c[rng.int(c.length)] = option(rng.pick(free));
	else if (op === "fresh") node.c = genOptions(rng, g);
	else if (op === "select" && !g.controlled) {
		for (const o of c) delete o.p.selected;
		if (rng.bool(0.7)) rng.pick(c).p.selected = true;
	}
}

// markup of its own and children exclude each other
function tidy(rng, list) {
	walk({ t: "root", c: list }, (n) => {
		if (!n.p || !("innerHTML" in n.p || "textContent" in n.p)) return;
		if (n.c.length && rng.bool()) n.c = [];
		if (n.c.length || "innerHTML" in n.p) delete n.p.textContent;
		if (n.c.length) delete n.p.innerHTML;
	});
	return list;
}

const clone = (x) => structuredClone(x);
const isSelectish = (n) => n.tag === "select" || n.tag === "option";

function walk(node, f, parent = null, index = 0) {
	f(node, parent, index);
	(node.c ?? []).forEach((c, i) => walk(c, f, node, i));
}

function mutateView(rng, g, view) {
	const next = clone(view);
	const n = rng.range(1, 3);
	for (let k = 0; k < n; k++) {
		const nodes = [];
		const inSvg = new Map(); // is the nearest element around a node's children SVG?
		walk({ t: "root", c: next }, (node, parent, index) => {
			const svg = inSvg.get(parent) ?? false;
			inSvg.set(node, node.t === "el" ? isSvgTag(node.tag) : svg);
			if (parent) nodes.push({ node, parent, index, svg, svgIn: inSvg.get(node) });
		});
		if (!nodes.length) return tidy(rng, [genNode(rng, g, 3)]);
		const at = rng.pick(nodes);
		const list = at.parent.t === "root" ? next : at.parent.c;
		const closed = at.parent.tag === "select" || at.parent.tag === "option" || at.node.tag === "option";
		const op = rng.weighted([
			["text", 4], ["props", 6], ["append", 4], ["grow", 0.3], ["copy", 0.4], ["insert", 2], ["remove", 2], ["swap", 2], ["replace", 2], ["toggle", 1.5], ["one-prop", 4], ["same", 0.5],
		]);
		if (closed && op !== "props") continue;
		switch (op) {
			case "text":
				if (at.node.t === "text") at.node.v = freshText(g);
				break;
			case "props":
				if (at.node.tag === "select") mutateSelect(rng, g, at.node);
				else if (at.node.t === "el" && !closed) at.node.p = isSvgTag(at.node.tag) ? genSvgProps(rng, g) : genProps(rng, g, at.node.tag);
				break;
			case "one-prop":
				if (at.node.t === "el" && !isSelectish(at.node)) {
					const fresh = isSvgTag(at.node.tag) ? genSvgProps(rng, g) : genProps(rng, g, at.node.tag);
					const ks = Object.keys(fresh);
					if (ks.length) {
						const k = rng.pick(ks);
						const p = { ...at.node.p };
						if (k === "class" && "className" in p && rng.bool(0.8)) delete p.className;
						if (k === "className" && "class" in p && rng.bool(0.8)) delete p.class;
						if (k in EVENTS) for (const o of Object.keys(p)) if (EVENTS[o] === EVENTS[k]) delete p[o];
						p[k] = fresh[k];
						at.node.p = p;
					} else if (Object.keys(at.node.p).length) {
						const k = rng.pick(Object.keys(at.node.p).filter((x) => x !== "type"));
						if (k) delete at.node.p[k];
					}
				}
				break;
			case "append":
				if (at.node.tag === "select") mutateSelect(rng, g, at.node);
				else if (at.node.c && !at.svgIn && !["input", "textarea", "progress", "x-leaf", "slot"].includes(at.node.tag)) at.node.c.push(genNode(rng, g, 1));
				else if (at.parent.t === "root") next.push(genNode(rng, g, 2));
				break;
			case "grow":
				if (at.node.t === "el" && HTML_TAGS.includes(at.node.tag)) {
					const tag = rng.pick(["li", "input", "b"]);
					for (let i = rng.bool(0.85) ? rng.range(3, 14) : rng.range(15, 45); i > 0; i--) at.node.c.push({ t: "el", tag, p: tag === "input" ? genProps(rng, g, tag) : { id: `i${g.n++}` }, c: tag === "input" ? [] : [{ t: "text", v: freshText(g) }] });
				}
				break;
			case "copy":
				if (!at.svg || at.node.tag === "circle") list.splice(rng.int(list.length + 1), 0, clone(at.node));
				break;
			case "insert":
				if (!at.svg) list.splice(at.index, 0, genNode(rng, g, 1));
				break;
			case "remove":
				list.splice(at.index, 1);
				break;
			case "swap":
				if (list.length > 1) {
					const j = rng.int(list.length);
					[list[at.index], list[j]] = [list[j], list[at.index]];
				}
				break;
			case "replace":
				if (!at.svg && !isSvgTag(at.node.tag)) list[at.index] = genNode(rng, g, 2);
				break;
			case "toggle":
				if (at.node.t !== "nil" && !at.svg) list[at.index] = { t: "nil", v: rng.pick(["null", "false"]) };
				else if (!at.svg) list[at.index] = genNode(rng, g, 2);
				break;
			default:
		}
	}
	return tidy(rng, next);
}

const isSvgTag = (t) => ["svg", "g", "circle", "text", "foreignObject"].includes(t);

export function generate(rng, profile = {}) {
	const cfg = {
		mode: rng.weighted(profile.modes ?? [["diff", 8], ["replace", 1], ["flag-off", 0.7], ["nodiff", 0.7], ["hydrated", 0.5], ["denylist", 1]]),
		logging: rng.pick([undefined, "off", "warn", "debug"]),
		check: rng.bool(0.35),
		controlled: rng.bool(0.7),
		faults: profile.faults ?? rng.bool(0.3),
		nested: profile.nested ?? rng.bool(0.25),
		hoist: rng.bool(0.2),
		nodeEnv: rng.pick(["development", "development", "production", "page"]),
	};
	if (cfg.mode === "flag-off" && cfg.nodeEnv === "page") cfg.nodeEnv = "production";
	const g = { n: 1, check: cfg.check, controlled: cfg.controlled, rich: rng.bool(0.25), short: rng.bool(0.3) };
	let view = [genNode(rng, g, 3)];
	if (rng.bool(0.5)) view.push(genNode(rng, g, 2));
	tidy(rng, view);
	const steps = [{ op: "render", view: clone(view) }];
	const n = rng.range(4, profile.maxSteps ?? 22);
	for (let i = 0; i < n; i++) {
		const op = rng.weighted([["render", 10], ["type", 4], ["focus", 2], ["compose", 0.7], ["fire", 2], ["toggle", 0.8], ["again", 1], ["boom", cfg.faults ? 1.5 : 0], ["bad", cfg.faults ? 1 : 0], ["setter", cfg.faults ? 1.5 : 0], ["nest", cfg.nested ? 2.5 : 0], ["force", 0.5]]);
		switch (op) {
			case "render":
				view = rng.bool(0.93) ? mutateView(rng, g, view) : tidy(rng, [genNode(rng, g, 3)]);
				steps.push({ op, view: clone(view) });
				break;
			case "again":
				steps.push({ op: "render", view: clone(view) });
				break;
			case "type":
				steps.push({ op, k: rng.int(16), v: `u${g.n++}` });
				break;
			case "focus":
			case "fire":
			case "compose":
				steps.push({ op, k: rng.int(16) });
				break;
			case "boom":
				steps.push({ op, view: mutateView(rng, g, view), at: rng.int(16) });
				break;
			case "bad":
				view = mutateView(rng, g, view);
				steps.push({ op, view: clone(view), at: rng.int(16) });
				break;
			case "nest": {
				const a = mutateView(rng, g, view);
				view = mutateView(rng, g, a);
				steps.push({ op, view: a, then: clone(view), at: rng.pick(["connect", "set", "disconnect", "comp"]) });
				break;
			}
			default:
				steps.push({ op });
		}
	}
	return { world: name, cfg, steps };
}

export function shrinkCfg(cfg) {
	const out = [];
	if (cfg.mode !== "diff") out.push({ ...cfg, mode: "diff" });
	if (cfg.nodeEnv && cfg.nodeEnv !== "development") out.push({ ...cfg, nodeEnv: "development" });
	if (cfg.logging && cfg.logging !== "off") out.push({ ...cfg, logging: "off" });
	return out;
}
export function* shrinkViews(view) {
	for (let i = 0; i < view.length; i++) {
		yield [...view.slice(0, i), ...view.slice(i + 1)];
		const n = view[i];
		if (n.c && n.c.length) {
			for (const c of shrinkViews(n.c)) yield [...view.slice(0, i), { ...n, c }, ...view.slice(i + 1)];
		}
		if (n.p && n.tag !== "select" && n.tag !== "option") {
			for (const k of Object.keys(n.p)) {
				const p = { ...n.p };
				delete p[k];
				yield [...view.slice(0, i), { ...n, p }, ...view.slice(i + 1)];
			}
		}
	}
}
export function shrinkStep(step) {
	const out = [];
	if (step.view) for (const v of shrinkViews(step.view)) out.push({ ...step, view: v });
	if (step.then) for (const v of shrinkViews(step.then)) out.push({ ...step, then: v });
	return out.slice(0, 60);
}

// ------------------------------------------------- reference normal form
// Arrays, fragments and components dissolve into their parent's child list.
function refFlatten(list, ns) {
	const out = [];
	for (const n of list) {
		if (n.t === "arr" || n.t === "frag" || n.t === "comp") out.push(...refFlatten(n.c, ns));
		else if (n.t === "nil") out.push({ k: "c" });
		else if (n.t === "text" || n.t === "num") out.push({ k: "t", v: String(n.v) });
		else if (n.t === "el") {
			const svg = n.tag === "svg" || ns;
			out.push({ k: "e", tag: n.tag, svg, p: n.p, c: refFlatten(n.c ?? [], svg && n.tag !== "foreignObject") });
		}
	}
	return out;
}

const SVG_ATTRS = { strokeWidth: "stroke-width", fillOpacity: "fill-opacity", dataKind: "data-kind", ariaLabel2: "aria-label2", strokeLinecap: "stroke-linecap", text_anchor: "text-anchor" };
const has = (v) => v !== false && v !== null && v !== undefined;
const isHandler = (k) => k in EVENTS;

function refBuild(doc, n) {
	if (n.k === "t") return doc.createTextNode(n.v);
	if (n.k === "c") return doc.createComment("");
	const el = n.svg ? doc.createElementNS(SVG, n.tag) : doc.createElement(n.tag);
	for (const [k, v] of Object.entries(n.p)) {
		if (isHandler(k) || k === "ref") continue;
		if ((k === "class" || k === "className") && !has(v)) el.removeAttribute("class");
		if (!has(v)) continue;
		if (k === "class" || k === "className") {
			if (v !== "") el.setAttribute("class", String(v));
			else el.removeAttribute("class");
		} else if (k === "style") {
			if (typeof v === "object") {
				for (const [s, x] of Object.entries(v)) if (x != null) el.style.setProperty(s.replace(/[A-Z]/g, (m) => `-${m.toLowerCase()}`), String(x));
			} else el.setAttribute("style", v);
		} else if (n.svg) el.setAttribute(SVG_ATTRS[k] ?? k, String(v));
		else if (k in el && k !== "list" && k !== "form") el[k] = v;
		else el.setAttribute(k, String(v));
	}
	for (const c of n.c) el.appendChild(refBuild(doc, c));
	if (n.tag === "select" && has(n.p.value)) el.value = n.p.value;
	return el;
}

const finger = (n) => (n.k === "t" ? `t:${n.v}` : n.k === "c" ? "c" : `e:${n.tag}:${n.c.map(finger).join(",")}`);
const shallow = (n) => (n.k === "e" ? `e:${n.svg ? 1 : 0}:${n.tag}` : n.k);
// the same without what shows nothing (an only child that is null is no child at all)
const visible = (n) => (n.k === "e" ? `e:${n.tag}:${n.c.filter((c) => c.k !== "c").map(visible).join(",")}` : finger(n));
const permuted = (a, b) => permutedBy(finger, a, b) || permutedBy(visible, a, b);
function permutedBy(print, a, b) {
	const x = a.map(print);
	const y = b.map(print);
	return x.join("|") !== y.join("|") && [...x].sort().join("|") === [...y].sort().join("|");
}
const levelKept = (a, b) => b.length >= a.length && a.every((n, i) => shallow(n) === shallow(b[i])) && !(a.length === b.length && a.length > 1 && permuted(a, b));

const alone = (list, i) => (i === 0 || list[i - 1].k === "e") && (i + 1 >= list.length || list[i + 1].k === "e");

// ----------------------------------------------------------------- execution
class ViewWorld {
	constructor(plan, env, ctx) {
		this.plan = plan;
		this.cfg = plan.cfg;
		this.env = env;
		this.ctx = ctx;
		this.calls = [];
		this.handlers = new Map();
		this.dirty = new Map();
		this.injected = [];
		this.leafLog = [];
		this.hoisted = new Map();
	}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(props, kind, detail) {
		for (const p of props) this.ctx.violate(p, kind, detail, this.step);
	}
	handler(spec) {
		if (!spec || typeof spec !== "object") return spec;
		const make = () => (e) => {
			if (this.quiet) return;
			this.calls.push({ id: spec.h, target: e.target });
		};
		if (spec.once) return make(); // a new closure on every render
		if (!this.handlers.has(spec.h)) this.handlers.set(spec.h, make());
		return this.handlers.get(spec.h);
	}
	toJsx(list) {
		const { jsx, Fragment } = this.ig.jsxRuntime;
		return list.map((n) => {
			if (this.cfg.hoist && n.t === "el") {
				// constant parts of a view are often created once and used again
				const key = JSON.stringify(n);
				if (!/"t":"(comp|boom|bad)"/.test(key) && !/"data"|"someData"/.test(key)) {
					if (!this.hoisted.has(key)) this.hoisted.set(key, this.elementJsx(n));
					return this.hoisted.get(key);
				}
			}
			switch (n.t) {
				case "text":
				case "num":
					return n.v;
				case "nil":
					return { null: null, false: false, true: true, undefined: undefined }[n.v];
				case "arr":
					return this.toJsx(n.c);
				case "frag":
					return jsx(Fragment, { children: this.toJsx(n.c) });
				case "comp":
					return jsx(() => {
						this.hook("comp");
						return this.toJsx(n.c);
					}, {});
				case "boom":
					return jsx(() => {
						throw this.boomError;
					}, {});
				case "bad":
					return jsx("bad tag", {});
				default:
					return this.elementJsx(n);
			}
		});
	}
	elementJsx(n) {
		const { jsx, jsxs } = this.ig.jsxRuntime;
		const p = {};
		for (const [k, v] of Object.entries(n.p)) p[k] = isHandler(k) ? this.handler(v) : v;
		if (n.c?.length) p.children = n.c.length === 1 ? this.toJsx(n.c)[0] : this.toJsx(n.c);
		return n.c?.length > 1 ? jsxs(n.tag, p) : jsx(n.tag, p);
	}
	hook(at) {
		if (this.nest && this.nest.at === at) {
			const { then } = this.nest;
			this.nest = null;
			this.nestFired = true;
			this.ctx.fault(`reenter:${at}`);
			this.log("nested", at);
			this.push(then);
		}
		if (at === "set" && this.setterFault) {
			this.setterFault = false;
			const e = new InjectedFault("injected:setter");
			this.injected.push(e);
			this.setterError = e;
			this.ctx.fault("throw:setter");
			throw e;
		}
	}
	async init() {
		const { env, cfg } = this;
		const { window, document } = env;
		const world = this;
		const ig = env.loadIgnite();
		this.ig = ig;
		const conf = {};
		if (cfg.mode === "replace") conf.strategy = "replace";
		if (cfg.logging) conf.logging = cfg.logging;
		if (Object.keys(conf).length) await ig.index.loadIgniteConfig(async () => ({ default: conf }));
		if (cfg.mode === "flag-off") env.process.env.IGNITE_DIFF_ENABLED = "false";
		if (cfg.mode === "denylist") ig.jsxStrategy.registerNoDiffDenylistTag("SECTION");
		window.customElements.define(
			"x-leaf",
			class extends window.HTMLElement {
				get data() {
					return this._data;
				}
				set data(v) {
					if (!world.inRef) world.hook("set");
					this._data = v;
				}
				get count() {
					return this._count;
				}
				set count(v) {
					this._count = v;
				}
				open = undefined;
				label = undefined;
				someData = undefined;
				connectedCallback() {
					if (!world.inRef) world.hook("connect");
				}
				disconnectedCallback() {
					world.leafLog.push(this);
					if (!world.inRef) world.hook("disconnect");
				}
			},
		);
		this.state = { view: this.plan.steps[0]?.view ?? [] };
		this.listeners = new Set();
		const create = () => ({
			subscribe: (l) => {
				this.listeners.add(l);
				l(this.state);
				return { unsubscribe: () => this.listeners.delete(l) };
			},
			send: () => {},
			getState: () => this.state,
			stop: () => this.listeners.clear(),
		});
		const factory = ig.factory.createComponentFactory(create, { scope: "shared", cleanup: false });
		factory("ig-view", ({ state }) => {
			this.log("render");
			this.ctx.count("renders");
			const list = this.toJsx(state.view);
			return list.length === 1 ? list[0] : list;
		});
		// created without attributes when parsed: the opt-out has to be on the tag
		// before the element is upgraded
		const attr = cfg.mode === "nodiff" ? " data-ignite-nodiff" : cfg.mode === "hydrated" ? " data-ignite-hydrated" : "";
		document.body.innerHTML = `<ig-view${attr}></ig-view>`;
		this.el = document.body.firstElementChild;
		this.root = this.el.shadowRoot;
		this.broken = false;
	}
	push(view) {
		this.state = { view };
		for (const l of [...this.listeners]) {
			try {
				l(this.state);
			} catch (error) {
				this.env.errors.push({ where: "listener", error });
			}
		}
	}
	content() {
		// the nodes rendered for the component, wherever the renderer keeps them
		const holder = this.root.querySelector("[data-ignite-jsx-root]") ?? this.root;
		return holder;
	}

	// pair the reference tree with the real nodes
	pairUp(list, parent, out) {
		const real = [...parent.children];
		let i = 0;
		for (const [at, n] of list.entries()) {
			if (n.k === "t") {
				// a text of its own: only elements (or nothing) around it
				if (n.v === "" || (at > 0 && list[at - 1].k !== "e") || (at + 1 < list.length && list[at + 1].k !== "e")) continue;
				const between = [];
				for (let x = i ? real[i - 1]?.nextSibling : parent.firstChild; x && x.nodeType !== 1; x = x.nextSibling) if (x.nodeType === 3 && x.data) between.push(x);
				if (between.length === 1) out.set(n, between[0]);
				continue;
			}
			if (n.k !== "e") continue;
			const node = real[i++] ?? null;
			out.set(n, node);
			if (node) this.pairUp(n.c, node, out);
		}
		return out;
	}

	describe(n) {
		if (!n) return "nothing";
		return n.nodeType === 1 ? n.outerHTML.slice(0, 120) : JSON.stringify(n.textContent);
	}

	compareLevel(want, got, path) {
		// comments are invisible, adjacent texts read as one
		const squash = (nodes) => {
			const out = [];
			for (const n of nodes) {
				if (n.nodeType === 8) continue;
				if (n.nodeType === 3) {
					const last = out[out.length - 1];
					if (typeof last === "string") out[out.length - 1] = last + n.data;
					else out.push(n.data);
				} else out.push(n);
			}
			return out.filter((x) => x !== "");
		};
		const a = squash([...want.childNodes]);
		const b = squash([...got.childNodes]);
		if (a.length !== b.length) return `${path}: ${b.length} children, expected ${a.length}`;
		for (let i = 0; i < a.length; i++) {
			const p = `${path}/${i}`;
			if (typeof a[i] === "string" || typeof b[i] === "string") {
				if (a[i] !== b[i]) return `${p}: ${typeof b[i] === "string" ? JSON.stringify(b[i]) : this.describe(b[i])}, expected ${typeof a[i] === "string" ? JSON.stringify(a[i]) : this.describe(a[i])}`;
				continue;
			}
			const d = this.compareElement(a[i], b[i], p);
			if (d) return d;
		}
		return null;
	}
	compareElement(a, b, p) {
		if (a.localName !== b.localName || a.namespaceURI !== b.namespaceURI) return `${p}: <${b.localName}> in ${b.namespaceURI}, expected <${a.localName}> in ${a.namespaceURI}`;
		const attrs = (e) => {
			const o = {};
			for (const x of e.attributes) {
				if (x.name === "style" || (x.name === "class" && x.value === "")) continue;
				o[x.name] = x.value;
			}
			return o;
		};
		const x = attrs(a);
		const y = attrs(b);
		for (const k of new Set([...Object.keys(x), ...Object.keys(y)])) {
			if (x[k] !== y[k]) return `${p}: attribute ${k}=${JSON.stringify(y[k])}, expected ${JSON.stringify(x[k])}`;
		}
		const css = (e) => (e.style ? Array.from(e.style).filter((k) => k !== "margin").sort().map((k) => `${k}:${e.style.getPropertyValue(k)}`).join(";") : "");
		if (css(a) !== css(b)) return `${p}: style ${JSON.stringify(css(b))}, expected ${JSON.stringify(css(a))}`;
		for (const k of ["disabled", "hidden", "tabIndex", "title", "placeholder", "data", "count", "type", ...MORE_PROPS]) {
			if (a.namespaceURI !== SVG && k in a && a[k] !== b[k]) return `${p}: property ${k} is ${JSON.stringify(b[k])}, expected ${JSON.stringify(a[k])}`;
		}
		if (["input", "textarea", "select"].includes(a.localName)) {
			const k = this.cfg.check && a.localName === "input" ? "checked" : "value";
			const d = this.dirty.get(b);
			const ok = d ? d.any || d.allow.includes(b[k]) : b[k] === a[k];
			if (!ok) return `${p}: ${k} is ${JSON.stringify(b[k])}, expected ${JSON.stringify(d ? d.allow : a[k])}${d ? " (user input)" : ""}`;
		}
		return this.compareLevel(a, b, p);
	}

	// Before a render: what must survive it.
	expectations(prev, next, nodes) {
		const kept = [];
		const go = (a, b) => {
			if (!levelKept(a, b)) return;
			for (let i = 0; i < a.length; i++) {
				const node = nodes.get(a[i]);
				if (!node) continue;
				if (a[i].k === "t" && (b[i].v === "" || !alone(b, i))) continue;
				if (a[i].k === "e" && this.cfg.mode === "denylist" && a[i].tag === "section") continue;
				kept.push({ node, from: a[i], to: b[i], i });
				if (a[i].k === "e") go(a[i].c, b[i].c);
			}
		};
		if (["diff", "denylist"].includes(this.cfg.mode)) go(prev, next);
		return kept;
	}

	checkAfter(flat, kept, focusedBefore, opts = {}) {
		const { document } = this.env;
		this.ctx.count("view-checks");
		const holder = this.content();
		// identity and user input
		const nodes = this.pairUp(flat, holder, new Map());
		if (kept) {
			for (const k of kept) {
				this.ctx.count("identity-checks");
				const now = nodes.get(k.to);
				if (now !== k.node) {
					this.violate(["C09"], "node-replaced", `re-rendering the same structure replaced ${this.describe(k.node)}`);
					break;
				}
			}
			if (focusedBefore && kept.some((k) => k.node === focusedBefore) && !kept.some((k) => k.node === focusedBefore && (k.to.p?.disabled === true || k.to.p.hidden === true || k.to.p.tabIndex !== k.from.p.tabIndex || k.from.p.href !== k.to.p.href))) {
				this.ctx.count("focus-checks");
				if (this.root.activeElement !== focusedBefore) this.violate(["C09"], "focus-lost", `the focus left ${this.describe(focusedBefore)}`);
			}
			for (const n of this.leafLog) {
				if (kept.some((k) => k.node === n)) this.violate(["C09"], "leaf-torn-down", "a nested element that stays in place was disconnected");
			}
		}
		this.leafLog = [];
		// user input of kept nodes
		const keptTo = new Map();
		for (const k of kept ?? []) keptTo.set(k.node, k);
		for (const [node, d] of [...this.dirty]) {
			const k = keptTo.get(node);
			const key = this.cfg.check && node.localName === "input" ? "checked" : "value";
			let ref = null;
			for (const [r, n] of nodes) if (n === node) ref = r;
			if (!ref) {
				this.dirty.delete(node);
				continue;
			}
			const neutral = key === "checked" ? false : "";
			const want = has(ref.p[key]) ? (key === "value" ? String(ref.p[key]) : ref.p[key]) : node.localName === "select" ? null : neutral;
			if (node.localName === "select" && (!k || opts.loose || (JSON.stringify(k.from.c) !== JSON.stringify(k.to.c) && k.from.p.value === k.to.p.value))) {
				d.any = true; // the options changed under the user's choice
				continue;
			}
			if (!k || opts.loose) {
				// the node may or may not be the same one: the new view's value or the
				// user's input are both legitimate
				d.allow = [...new Set([...d.allow, want ?? neutral])];
				continue;
			}
			const before = k.from.p[key];
			const after = k.to.p[key];
			if (before === after || (!has(before) && !has(after))) {
				continue; // still the user's
			}
			if (d.composing) {
				// a value that changes while the user composes must not interrupt them;
				// taking the prop away may clear the field or leave it
				d.allow = key !== "value" ? [want] : has(after) ? d.allow : [...new Set([...d.allow, neutral])];
				// a node that lost the focus in this update is not composed in any more
				if (key === "value" && this.root.activeElement !== node) d.allow = [...new Set([...d.allow, want ?? neutral])];
				continue;
			}
			this.dirty.delete(node);
		}
		// the whole tree against the reference
		this.inRef = true;
		const ref = document.createElement("div");
		for (const n of flat) ref.appendChild(refBuild(document, n));
		this.inRef = false;
		const diff = this.compareLevel(ref, holder, "");
		if (diff) {
			const props = ["C08"];
			if (/user input/.test(diff)) props.push("C09");
			if (opts.recovering || this.injected.length) props.push("C11");
			if (opts.nested) props.push("C12");
			this.violate(props, `wrong-dom:${diff.replace(/^[^:]*: /, "").split(" ")[0]}`, `after the update the DOM differs from the view at ${diff}`);
			return nodes;
		}
		// a user edit that ended up equal to the view is no longer an edit
		return nodes;
	}

	checkHandlers(view) {
		const { window } = this.env;
		const flat = refFlatten(view, false);
		const nodes = this.pairUp(flat, this.content(), new Map());
		for (const [n, node] of nodes) {
			if (n.k !== "e" || !node || node.nodeType !== 1) continue;
			for (const type of Object.keys(SPELLINGS)) {
				const key = Object.keys(n.p).find((k) => EVENTS[k] === type);
				const spec = key && n.p[key];
				if (!key && type !== "click") continue;
				const disabled = node.disabled === true && type === "click";
				if (disabled) continue;
				const before = this.calls.length;
				node.dispatchEvent(new window.CustomEvent(type, { bubbles: false }));
				const got = this.calls.slice(before).map((c) => c.id);
				const want = spec && typeof spec === "object" ? [spec.h] : [];
				this.ctx.count("handler-checks");
				if (got.join() !== want.join()) {
					this.violate(["C10"], "handlers", `a ${type} event on <${n.tag}> ran [${got}], the view binds [${want}]`);
					return;
				}
			}
		}
	}

	surfaced(error) {
		return this.env.errors.some((e) => e.error === error);
	}
	drainErrors(allow) {
		for (; (this.errSeen ?? 0) < this.env.errors.length; ) {
			const { error, where } = this.env.errors[this.errSeen ?? 0];
			this.errSeen = (this.errSeen ?? 0) + 1;
			this.log("error", where, String(error?.message ?? error).slice(0, 60));
			if (error instanceof InjectedFault) continue;
			if (allow) continue;
			this.violate(["C11"], "unexpected-error", `${where}: ${error?.message ?? error}`);
		}
	}

	async pushAndSettle(view) {
		this.leafLog = [];
		this.setterError = null;
		this.push(view);
		await drainMicrotasks();
	}
	/** a browser ends the composition of a field that loses the focus */
	endCompositions() {
		for (const [f, d] of this.dirty) {
			if (!d.composing || this.root.activeElement === f) continue;
			d.composing = false;
			if (f.isComposing) f.isComposing = false;
			else f.dispatchEvent(new this.env.window.CompositionEvent("compositionend", { bubbles: true, composed: true }));
		}
	}

	plant(view, at, what) {
		const bad = structuredClone(view);
		const spots = [];
		walk({ t: "root", c: bad }, (n) => {
			if (n.c && !["select", "option", "input", "textarea", "progress", "x-leaf", "slot"].includes(n.tag)) spots.push(n);
		});
		spots[at % spots.length].c.push({ t: what });
		return bad;
	}

	async run() {
		const { env } = this;
		const { steps } = this.plan;
		if (!steps.length || !steps[0].view) return;
		let view = steps[0].view;
		this.verify(view);
		this.checkHandlers(view);
		for (let i = 1; i < steps.length; i++) {
			const a = steps[i];
			this.step = i;
			this.log("step", i, a.op);
			this.ctx.count(`op:${a.op}`);
			const connected = this.el.isConnected;
			switch (a.op) {
				case "render": {
					const flat = refFlatten(a.view, false);
					const opts = { flat, loose: this.broken, recovering: this.broken };
					if (connected && !this.broken) {
						opts.kept = this.expectations(this.flat, flat, this.nodes);
						opts.focus = this.root.activeElement;
					}
					await this.pushAndSettle(a.view);
					view = a.view;
					if (connected && !this.failedSetter()) this.verify(view, opts);
					break;
				}
				case "nest": {
					this.nest = { at: a.at, then: a.then };
					this.nestFired = false;
					const recovering = this.broken;
					await this.pushAndSettle(a.view);
					this.nest = null;
					view = this.nestFired ? a.then : a.view;
					if (connected && !this.failedSetter()) this.verify(view, { loose: true, nested: true, recovering });
					break;
				}
				case "boom": {
					// a component of the new view throws while the view is evaluated
					const error = new InjectedFault("injected:component");
					this.boomError = error;
					this.injected.push(error);
					this.ctx.fault("throw:component");
					const html = this.root.innerHTML;
					await this.pushAndSettle(this.plant(a.view, a.at, "boom"));
					if (connected) {
						if (this.root.innerHTML !== html) this.violate(["C11"], "half-rendered", "a view that failed to evaluate changed the DOM");
						if (!this.surfaced(error)) this.violate(["C11"], "swallowed-error", "the error of a failing component was swallowed");
					}
					await this.pushAndSettle(view);
					if (connected && !this.failedSetter()) this.verify(view, { recovering: true, loose: true });
					break;
				}
				case "bad": {
					// creating one of the nodes fails in the middle of the update
					this.ctx.fault("invalid-tag");
					const before = env.errors.length;
					await this.pushAndSettle(this.plant(a.view, a.at, "bad"));
					if (connected && env.errors.length === before) this.violate(["C11"], "swallowed-error", "an invalid tag name raised no error");
					this.drainErrors(true);
					await this.pushAndSettle(a.view);
					view = a.view;
					if (connected && !this.failedSetter()) this.verify(view, { recovering: true, loose: true });
					break;
				}
				case "setter":
					this.setterFault = true;
					break;
				case "type": {
					const fields = [...this.root.querySelectorAll("input,textarea,select")];
					const f = fields[a.k % Math.max(1, fields.length)];
					if (!f || this.broken) break;
					const key = this.cfg.check && f.localName === "input" ? "checked" : "value";
					let v = a.v;
					if (key === "checked") v = !f.checked;
					else if (f.localName === "select") v = f.options.length ? f.options[a.k % f.options.length].value : null;
					if (v === null) break;
					f[key] = v;
					this.dirty.set(f, { allow: [v], composing: this.dirty.get(f)?.composing });
					this.log("typed", String(v));
					break;
				}
				case "compose": {
					const fields = this.cfg.check ? [] : [...this.root.querySelectorAll("input,textarea")];
					const f = fields[a.k % Math.max(1, fields.length)];
					if (!f || this.broken) break;
					// elements with a flag of their own, or the events of a browser
					const own = f.isComposing !== undefined;
					const flag = own || (a.k % 4 === 0 && !this.dirty.get(f)?.composing);
					const event = (type) => f.dispatchEvent(new env.window.CompositionEvent(type, { bubbles: true, composed: true }));
					if (this.dirty.get(f)?.composing) {
						if (flag) f.isComposing = false;
						else event("compositionend");
						this.dirty.get(f).composing = false;
					} else {
						f.focus();
						this.endCompositions();
						if (this.root.activeElement !== f) break;
						if (flag) f.isComposing = true;
						else event("compositionstart");
						f.value = `ime${i}`;
						this.dirty.set(f, { allow: [f.value], composing: true });
						this.ctx.fault("ime-composition");
					}
					break;
				}
				case "focus": {
					const fields = [...this.root.querySelectorAll("input,textarea,select,button,a[href]")];
					fields[a.k % Math.max(1, fields.length)]?.focus();
					this.endCompositions();
					break;
				}
				case "force": {
					if (!connected || this.broken) break;
					const opts = { flat: this.flat, kept: this.expectations(this.flat, this.flat, this.nodes), focus: this.root.activeElement };
					this.leafLog = [];
					this.setterError = null;
					env.guard("caller", () => this.el.forceRender());
					await drainMicrotasks();
					if (!this.failedSetter()) this.verify(view, opts);
					break;
				}
				case "toggle":
					if (connected) {
						this.el.remove();
						break;
					}
					this.setterError = null;
					env.document.body.appendChild(this.el);
					await drainMicrotasks();
					if (!this.failedSetter()) this.verify(view, { loose: true, recovering: this.broken });
					break;
				default:
			}
			await drainMicrotasks();
			this.drainErrors(false);
			if (!this.broken && this.el.isConnected && ["render", "nest", "bad", "boom", "fire", "toggle"].includes(a.op)) this.checkHandlers(view);
			this.log("html", this.root.innerHTML);
			if (this.ctx.done()) return;
		}
		// a freshly created element of the same component shows the same page
		this.step = steps.length;
		this.setterFault = false;
		this.dirty.clear();
		const second = env.document.createElement("ig-view");
		env.document.body.appendChild(second);
		await drainMicrotasks();
		const mine = this.el;
		this.el = second;
		this.root = second.shadowRoot;
		this.verify(view);
		this.checkHandlers(view);
		mine.remove();
		second.remove();
		this.drainErrors(false);
	}
	failedSetter() {
		const e = this.setterError;
		if (!e) return false;
		this.drainErrors(false);
		if (!this.surfaced(e)) this.violate(["C11"], "swallowed-error", "the error of a failing property setter was swallowed");
		this.broken = true;
		return true;
	}
	// Compare the page with a view (given or flattened) and remember it.
	verify(view, opts = {}) {
		this.flat = opts.flat ?? refFlatten(view, false);
		this.nodes = this.checkAfter(this.flat, opts.kept ?? null, opts.focus ?? null, opts);
		this.broken = false;
	}
}

export async function execute(plan, ctx) {
	const env = createEnv({ seed: 1, nodeEnv: plan.cfg.nodeEnv });
	const w = new ViewWorld(plan, env, ctx);
	try {
		await w.init();
		await w.run();
	} finally {
		env.dispose();
	}
}
