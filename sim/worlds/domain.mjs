// The little application domain every simulated source implements: a pure
// reducer (also the reference model), wrapped in XState, Redux, MobX or a
// hand-written adapter.
export const initial = () => ({ v: 0, log: [], items: [], mode: 0, tags: {}, deep: { flip: false } });

// What the history records of an event: its id and, when it carries one, its
// detail, so that an event changed on its way shows up.
export const entry = (ev) => ("detail" in ev ? `${ev.id}~${JSON.stringify(ev.detail)}` : ev.id);

const push = (s, ev, extra = {}) => ({ ...s, v: s.v + 1, log: [...s.log, entry(ev)], ...extra });

const partner = new WeakMap();

export function reduce(s, ev) {
	switch (ev.type) {
		case "ADD":
			return push(s, ev, { items: [...s.items, { id: ev.id, n: 0 }] });
		case "DROP":
			return push(s, ev, { items: s.items.slice(0, -1) });
		case "ROT":
			return push(s, ev, { items: [...s.items.slice(1), ...s.items.slice(0, 1)] });
		case "BUMP": {
			if (!s.items.length) return push(s, ev);
			const i = (ev.i ?? 0) % s.items.length;
			return push(s, ev, {
				items: s.items.map((it, k) => (k === i ? { ...it, n: it.n + 1 } : it)),
			});
		}
		case "MODE":
			return push(s, ev, { mode: ev.m });
		case "TAG":
			return push(s, ev, { tags: { ...s.tags, [ev.k]: (s.tags[ev.k] ?? 0) + 1 } });
		case "FLIP": { // changes neither the version nor the history; back and forth
			// between the same two objects
			if (partner.has(s)) return partner.get(s);
			const next = { ...s, deep: { ...s.deep, flip: !s.deep.flip } };
			partner.set(s, next);
			partner.set(next, s);
			return next;
		}
		case "LATER":
		case "ASYNC":
		case "LAZY":
			return push(s, ev);
		case "BATCH": {
			let out = s;
			for (const sub of ev.subs) out = reduce(out, sub);
			return out;
		}
		default:
			return s;
	}
}

export const tagText = (tags) =>
	Object.keys(tags ?? {})
		.sort()
		.map((k) => `${k}=${tags[k]}`)
		.join(";");

export function expectedView(s) {
	return {
		v: String(s.v),
		log: s.log.join(","),
		items: s.items.map((i) => `${i.id}:${i.n}`).join(","),
		mode: String(s.mode),
		tags: tagText(s.tags),
	};
}

export const flipText = (s) => (s.deep?.flip ? "b" : "a");
// XState keeps it in the state's value instead of the context.
export const flipValue = (value) => (typeof value === "string" ? value : value?.on);

// Mutating version of the reducer, for MobX.
const KNOWN = new Set(["ADD", "DROP", "ROT", "BUMP", "MODE", "TAG", "LATER", "ASYNC", "LAZY", "BATCH", "FLIP"]);
export function mutate(s, ev) {
	if (!KNOWN.has(ev.type)) return;
	if (ev.type === "BATCH") {
		for (const sub of ev.subs) mutate(s, sub);
		return;
	}
	if (ev.type === "FLIP") {
		s.deep.flip = !s.deep.flip;
		return;
	}
	s.v += 1;
	s.log.push(entry(ev));
	switch (ev.type) {
		case "ADD":
			s.items.push({ id: ev.id, n: 0 });
			break;
		case "DROP":
			s.items.pop();
			break;
		case "ROT":
			if (s.items.length) s.items.push(s.items.shift());
			break;
		case "BUMP":
			if (s.items.length) s.items[(ev.i ?? 0) % s.items.length].n += 1;
			break;
		case "MODE":
			s.mode = ev.m;
			break;
		case "TAG":
			s.tags[ev.k] = (s.tags[ev.k] ?? 0) + 1;
			break;
		default:
	}
}
