// Sources of application state.  Every source exposes to the simulator:
//   source     what is handed to igniteCore
//   scope      "shared" | "isolated"
//   instances  the live state containers (one for shared, one per element for
//              isolated); each can report the truth and take events directly
//   toEvent    domain event -> the event shape the adapter expects
import { flipText, flipValue, initial, mutate, reduce } from "./domain.mjs";

let uid = 0;
export const resetIds = () => {
	uid = 0;
};

function makeInstance(world, kind, fields) {
	const inst = {
		id: uid++,
		kind,
		expected: [],
		holes: new Set(), // versions inside an atomic change
		timers: [], // {id, at} raised inside the source by itself
		done: false,
		subs: 0,
		lazyUntil: -1,
		flips: 0,
		rejected: new Set(),
		flip: () => flipText(inst.get()),
		...fields,
	};
	world.instances.push(inst);
	return inst;
}

// Count live subscriptions on an object with a subscribe() method.
function countSubscriptions(target, inst, shape) {
	const original = target.subscribe.bind(target);
	target.subscribe = (...args) => {
		const handle = original(...args);
		inst.subs++;
		let open = true;
		const close = () => {
			if (open) {
				open = false;
				inst.subs--;
			}
		};
		if (shape === "function") {
			return () => {
				close();
				return handle();
			};
		}
		return {
			unsubscribe: () => {
				close();
				handle.unsubscribe();
			},
		};
	};
}

function xstateMachine(world) {
	const { createMachine, assign, raise } = world.env.peers.xstate;
	const apply = assign(({ context, event }) => reduce(context, event));
	const simple = {};
	for (const t of ["ADD", "DROP", "ROT", "BUMP", "MODE", "TAG", "BATCH", "LAZY"]) {
		simple[t] = { actions: apply };
	}
	return createMachine({
		context: initial(),
		initial: "on",
		states: {
			on: { initial: "a", states: { a: { on: { FLIP: "b" } }, b: { on: { FLIP: "a" } } } },
			done: { type: "final" },
		},
		on: {
			...simple,
			LATER: {
				actions: [
					apply,
					raise(({ event }) => ({ type: "ADD", id: `${event.id}t` }), {
						delay: ({ event }) => event.d,
						id: ({ event }) => `later-${event.id}`,
					}),
				],
			},
			ASYNC: {
				actions: [
					apply,
					({ self, event }) => world.async(event.id, (ok) => world.selfSend(self, { type: "ADD", id: `${event.id}${ok ? "ok" : "err"}` })),
				],
			},
			CHAIN: { actions: [assign(({ context, event }) => reduce(context, { type: "ASYNC", id: event.id })), raise(({ event }) => ({ type: "ADD", id: `${event.id}c` }))] },
			END: { target: ".done" },
		},
	});
}

function xstateInstance(world, actor) {
	const inst = makeInstance(world, "xstate", {
		raw: actor,
		get: () => actor.getSnapshot().context,
		flip: () => flipValue(actor.getSnapshot().value),
		alive: () => actor.getSnapshot().status === "active",
		send: (ev) => actor.send(ev),
	});
	world.actorInst.set(actor, inst);
	countSubscriptions(actor, inst, "object");
	return inst;
}

export function makeSource(world, kind) {
	const { env } = world;
	const rtk = env.peers["@reduxjs/toolkit"];
	const mobx = env.peers.mobx;
	const plain = (ev) => ev;
	const EVENTS = ["ADD", "DROP", "ROT", "BUMP", "MODE", "TAG", "BATCH", "LATER", "ASYNC", "LAZY", "FLIP"];

	if (kind === "xstate-machine") {
		const machine = xstateMachine(world);
		env.actorHooks.push((actor) => {
			if (actor.logic === machine) world.lastCreated = xstateInstance(world, actor);
		});
		return { kind, adapter: "xstate", scope: "isolated", source: machine, toEvent: plain, pick: (s) => s, instances: [] };
	}
	if (kind === "xstate-actor") {
		const actor = env.peers.xstate.createActor(xstateMachine(world));
		const inst = xstateInstance(world, actor);
		actor.start();
		return { kind, adapter: "xstate", scope: "shared", source: actor, toEvent: plain, pick: (s) => s, inst };
	}
	if (kind === "redux-slice") {
		const reducers = {};
		for (const t of EVENTS) {
			reducers[t] = (s, a) => reduce(rtk.current(s), { ...a.payload, type: t });
		}
		const name = `sim${uid++}`;
		const toEvent = (ev) => {
			if (ev.type === "THUNK") return (dispatch) => dispatch(toEvent({ ...ev, type: "ADD" }));
			const action = { type: `${name}/${ev.type}`, payload: ev };
			if ("detail" in ev) action.detail = ev.detail;
			return action;
		};
		const slice = rtk.createSlice({ name, initialState: initial(), reducers });
		env.storeHooks.push((store) => {
			if (!(name in store.getState())) return;
			const inst = makeInstance(world, "redux", {
				raw: store,
				get: () => store.getState()[name],
				alive: () => true,
				send: (ev) => store.dispatch(toEvent(ev)),
			});
			countSubscriptions(store, inst, "function");
			world.lastCreated = inst;
		});
		return {
			kind,
			adapter: "redux",
			scope: "isolated",
			source: slice,
			toEvent,
			pick: (s) => s[name],
		};
	}
	if (kind === "redux-factory" || kind === "redux-store") {
		const lazy = (ev) => {
			if (ev.type === "THUNK") return (dispatch) => dispatch({ ...ev, type: "ADD" });
			return ev.type === "LAZY" ? { ...ev, meta: { [rtk.SHOULD_AUTOBATCH]: true } } : ev;
		};
		const build = () => {
			const store = rtk.configureStore({ reducer: (s = initial(), a) => reduce(s, a) });
			const inst = makeInstance(world, "redux", {
				raw: store,
				get: () => store.getState(),
				alive: () => true,
				send: (ev) => store.dispatch(lazy(ev)),
			});
			countSubscriptions(store, inst, "function");
			world.lastCreated = inst;
			return { store, inst };
		};
		if (kind === "redux-store") {
			const { store, inst } = build();
			return { kind, adapter: "redux", scope: "shared", source: store, toEvent: lazy, pick: (s) => s, inst };
		}
		return {
			kind,
			adapter: "redux",
			scope: "isolated",
			source: () => {
				world.maybeFault("factory");
				return build().store;
			},
			toEvent: lazy,
			pick: (s) => s,
		};
	}
	if (kind === "mobx-factory" || kind === "mobx-store") {
		const build = () => {
			// `two` marks events that must arrive with a second argument
			const run = (self, t, ev, rest) => mutate(self, { ...ev, type: t, id: ev.two && rest[0] !== ev.id ? `${ev.id}?` : ev.id });
			let store;
			if (world.cfg.mobxShape === "class") {
				class Store {
					constructor() {
						Object.assign(this, initial());
						mobx.makeAutoObservable(this);
					}
					get total() {
						return this.items.length;
					}
				}
				for (const t of EVENTS) {
					Store.prototype[t] = function (ev, ...rest) {
						run(this, t, ev, rest);
					};
				}
				store = new Store();
			} else {
				const base = { ...initial() };
				const annotations = {};
				for (const t of EVENTS) {
					base[t] = function (ev, ...rest) {
						run(this, t, ev, rest);
					};
					annotations[t] = mobx.action;
				}
				store = mobx.observable(base, annotations);
			}
			const inst = makeInstance(world, "mobx", {
				raw: store,
				get: () => mobx.untracked(() => mobx.toJS(store)),
				alive: () => true,
				send: (ev) => store[ev.type]?.(ev),
				observers: () => (mobx.getObserverTree(store, "v").observers ?? []).length,
			});
			world.lastCreated = inst;
			return { store, inst };
		};
		const toEvent = (ev) => {
			const event = { type: ev.type, args: [{ ...ev, two: true }, ev.id] };
			if ("detail" in ev) event.detail = ev.detail;
			return event;
		};
		if (kind === "mobx-store") {
			const { store, inst } = build();
			return { kind, adapter: "mobx", scope: "shared", source: store, toEvent, pick: (s) => s, inst };
		}
		return {
			kind,
			adapter: "mobx",
			scope: "isolated",
			source: () => {
				world.maybeFault("factory");
				return build().store;
			},
			toEvent,
			pick: (s) => s,
		};
	}
	if (kind === "custom-shared" || kind === "custom-isolated") return makeCustom(world, kind);
	throw new Error(`unknown source ${kind}`);
}

// A hand-written adapter over a tiny store, with a configurable delivery
// discipline: the transport between source and elements is the simulator's.
function makeCustom(world, kind) {
	const scope = kind === "custom-shared" ? "shared" : "isolated";
	const mode = world.cfg.delivery ?? "sync";
	const src = { kind, adapter: "custom", scope, toEvent: (e) => e, pick: (s) => s, adapters: [] };

	const buildHub = () => {
		let state = initial();
		const listeners = new Set();
		const inst = makeInstance(world, "custom", {
			get: () => state,
			alive: () => true,
			send: (ev) => {
				const next = reduce(state, ev);
				if (next === state) return;
				state = next;
				for (const l of [...listeners]) l(state);
			},
			hubListeners: listeners,
		});
		world.lastCreated = inst;
		return inst;
	};
	if (scope === "shared") src.inst = buildHub();

	src.createAdapter = () => {
		if (scope === "isolated") world.maybeFault("factory");
		const inst = scope === "shared" ? src.inst : buildHub();
		const rec = { inst, stops: 0, sendsAfterStop: 0, subsAfterStop: 0, live: new Set(), bornAt: world.seq() };
		src.adapters.push(rec);
		const adapter = {
			subscribe(listener) {
				if (rec.stops) rec.subsAfterStop++;
				const sub = { open: true, close: () => {} };
				rec.live.add(sub);
				const deliver = (state, force) => {
					if (force || sub.open) listener(state);
				};
				const onChange = (state) => {
					if (mode === "async" || mode === "late") {
						world.tasks.push({ label: "deliver", run: () => deliver(state, mode === "late") });
						return;
					}
					deliver(state);
					if (mode === "dup" && state === inst.get()) deliver(state);
				};
				inst.hubListeners.add(onChange);
				if (mode !== "noinitial") deliver(inst.get());
				sub.close = () => {
					sub.open = false;
					rec.live.delete(sub);
					inst.hubListeners.delete(onChange);
				};
				return { unsubscribe: sub.close };
			},
			send(ev) {
				if (rec.stops) rec.sendsAfterStop++;
				inst.send(ev);
			},
			getState: () => inst.get(),
			stop() {
				rec.stops++;
				for (const sub of [...rec.live]) sub.close();
			},
		};
		if (scope === "shared" && world.cfg.scopeOn === "adapter") adapter.scope = "shared";
		rec.adapter = adapter;
		return adapter;
	};
	return src;
}
