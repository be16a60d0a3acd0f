From ae81cd4f5e6ba6eebb755f872e0dc0be3ae9441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:17 +0000
Subject: [PATCH 01/34] fix: render primitive falsy states (0, "", false)

renderTemplate treated every falsy state as 'not initialized', so a source
whose state is 0, an empty string or false never rendered. Only null and
undefined mean that there is no state yet.
---
 src/IgniteElement.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..1667f71 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -74,7 +74,11 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (
+			!this._isActive ||
+			this._currentState === undefined ||
+			this._currentState === null
+		) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From 655eb32eafbac7ad92a639156c49e5a682108fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:25 +0000
Subject: [PATCH 02/34] fix: freeze the Redux adapter on the state it was
 stopped at

stop() kept the state of the last event sent through the adapter, so changes
dispatched directly on the store (commands, other code) vanished from
getState() as soon as the adapter stopped. The XState and MobX adapters
already take a final snapshot.
---
 src/adapters/ReduxAdapter.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..279a159 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -99,8 +99,12 @@ const buildAdapter = <
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
-			cleanupSubscriptions();
+			if (isStopped) {
+				return;
+			}
 			isStopped = true;
+			cleanupSubscriptions();
+			lastKnownState = store.getState();
 		},
 		scope,
 	};
-- 
2.43.0


From 831d74d5e956eb357687bfb5033e2f62a884cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 03/34] fix: do not notify Redux listeners that unsubscribed
 during the dispatch

Redux iterates over the listeners present when the dispatch started, so an
element disconnected (or an adapter stopped) by an earlier listener of the
same dispatch was still called afterwards.
---
 src/adapters/ReduxAdapter.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 279a159..d43fa6e 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -69,7 +69,10 @@ const buildAdapter = <
 
 			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// Redux still calls listeners removed while a dispatch is under way.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 03fd6029cc0ee63a13eec1e9f06df605f0f93058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:54 +0000
Subject: [PATCH 04/34] fix: clear a style property when its value becomes null
 or undefined

The style diff only removed properties whose key disappeared, so
style={{ color: active ? 'red' : undefined }} kept the old colour.
---
 src/renderers/jsx/renderer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..4cca59a 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -419,7 +419,7 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		const nextObj = next as Record<string, unknown>;
 
 		for (const key of Object.keys(prevObj)) {
-			if (!(key in nextObj)) {
+			if (nextObj[key] == null) {
 				style.removeProperty(toKebabCase(key));
 			}
 		}
-- 
2.43.0


From 94b351f1f5ee4d23b4cb9caa6b67b9be34217c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:43 +0000
Subject: [PATCH 05/34] fix: do not write "undefined" into the DOM when a prop
 is removed

Removing value/title/htmlFor/... assigned undefined to the DOM property, which
string properties store as the text "undefined" (<input value={null}> showed
"undefined", <label htmlFor> kept for="undefined") and which numeric ones such
as progress.value reject with a TypeError.
---
 src/renderers/jsx/renderer.ts | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 4cca59a..dcc5e4b 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,11 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+// Properties reflected to an attribute of another name.
+const REFLECTED_ATTRIBUTES: Record<string, string | undefined> = {
+	htmlFor: "for",
+};
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -502,17 +507,35 @@ function removeProp(
 		return;
 	}
 
+	const attrName = isSvg
+		? normalizeSvgAttributeName(key)
+		: (REFLECTED_ATTRIBUTES[key] ?? key);
+
 	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
+		resetProperty(element as HTMLElement, key, attrName);
 	}
 
-	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
 	if (element.hasAttribute(attrName)) {
 		element.removeAttribute(attrName);
 	}
 }
 
+// Reset a property to avoid stale values. Assigning undefined to a built-in
+// string property would store the text "undefined", and some reflected numbers
+// reject it; the latter are cleared by removing their attribute.
+function resetProperty(
+	element: HTMLElement,
+	key: string,
+	attrName: string,
+): void {
+	const type = typeof Reflect.get(element, key);
+	const isBuiltIn = !element.localName.includes("-");
+	if (isBuiltIn && type === "number" && element.hasAttribute(attrName)) {
+		return;
+	}
+	Reflect.set(element, key, isBuiltIn && type === "string" ? "" : undefined);
+}
+
 function applyProperty(
 	element: HTMLElement,
 	key: string,
-- 
2.43.0


From 97fac06cb66f2808d229af79f0917a8bf14a32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 06/34] fix: apply the value of a <select> after its options

The value was assigned before the <option> children existed, so a <select> with
a value prop always showed its first option (and so did one whose matching
option was rendered later).
---
 src/renderers/jsx/renderer.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index dcc5e4b..d025e69 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -275,6 +275,13 @@ function patchNode(
 		}
 	}
 
+	if (
+		newNode.props.value !== oldNode.props.value ||
+		newNode.children.length !== oldNode.children.length
+	) {
+		applySelectValue(elementNode, newNode.props);
+	}
+
 	return domNode;
 }
 
@@ -296,6 +303,7 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
 			}
+			applySelectValue(element, node.props);
 			return element;
 		}
 	}
@@ -555,6 +563,15 @@ function applyProperty(
 	}
 }
 
+// A <select> only accepts a value once the matching <option> exists, so the
+// value is applied (again) after the children.
+function applySelectValue(element: Element, props: IgniteJsxProps): void {
+	const { value } = props;
+	if (element.localName === "select" && value != null && value !== false) {
+		applyProperty(element as HTMLElement, "value", value);
+	}
+}
+
 function isComposingInput(element: HTMLElement): boolean {
 	return (
 		"isComposing" in element &&
-- 
2.43.0


From 9b58dcd1abd5fa87b154a26333a41eb774ec82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 07/34] fix: keep late global stylesheets out of the nodes
 lit-html manages

When the config finished loading after an element had rendered with lit-html,
the <link> was appended after the lit marker and silently removed by the next
render that switched templates. Insert it at the start of the shadow root.
---
 src/injectStyles.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 883210d..cc6ccb1 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -88,7 +88,9 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			}
 		}
 
-		shadowRoot.appendChild(linkElement);
+		// Keep the stylesheet ahead of the rendered content: lit-html owns every
+		// node after its marker and would remove a link appended there.
+		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
-- 
2.43.0


From cfe214fc1efd8a827b64897c66c719fc8732e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:09 +0000
Subject: [PATCH 08/34] fix: do not print the new npm token to the log

---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..41d690b 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,7 +17,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
-- 
2.43.0


From 598d6cbd801841e60086731b7b70ac1e372875c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:30 +0000
Subject: [PATCH 09/34] fix: keep shared components usable after their last
 element disconnected

When the last element of a shared component disconnects, its adapter is stopped
for good, but the adapter factories kept handing out that stopped adapter and
existing elements kept pointing at it: moving the only element, or mounting one
later, threw 'Adapter is stopped' (XState, MobX) or froze (Redux). The factories
now create a fresh adapter around the same user-owned source, and an element
picks it up when it connects.
---
 src/IgniteElement.ts          |  9 +++++++
 src/IgniteElementFactory.ts   | 11 +++++++-
 src/adapters/MobxAdapter.ts   | 18 ++++++++-----
 src/adapters/ReduxAdapter.ts  | 48 +++++++++++++++++++----------------
 src/adapters/XStateAdapter.ts | 17 ++++++++++---
 5 files changed, 70 insertions(+), 33 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index 1667f71..ef3726c 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -62,6 +62,15 @@ export default abstract class IgniteElement<
 		}
 	}
 
+	/**
+	 * Points the element at another adapter, which the next connect subscribes to.
+	 */
+	protected rebindAdapter(adapter: IgniteAdapter<State, Event>): void {
+		this._unsubscribe?.();
+		this._unsubscribe = undefined;
+		this._adapter = adapter;
+	}
+
 	protected send<AdapterEvent>(event: AdapterEvent): void {
 		if (!this._isActive || !this._adapter) {
 			console.warn("[IgniteElement] Cannot send events while inactive.");
diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 4479722..12eeca0 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,7 +160,7 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private readonly additionalArgs: AdditionalRenderArgs<
+				private additionalArgs: AdditionalRenderArgs<
 					State,
 					Event,
 					RenderArgs
@@ -174,6 +174,15 @@ export default function igniteElementFactory<
 
 				connectedCallback(): void {
 					sharedInstanceCount += 1;
+
+					// The adapter this element was created with is stopped once every
+					// connected element is gone; pick up its successor.
+					const { adapter } = resolveSharedResources();
+					if (this.adapter !== adapter) {
+						this.rebindAdapter(adapter);
+						this.additionalArgs = resolveSharedAdditionalArgs(this);
+					}
+
 					super.connectedCallback();
 				}
 
diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..ba5d79e 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -42,17 +42,16 @@ type AdapterEntry<State extends object> = {
 	adapter: IgniteAdapter<State, MobxEvent<State>>;
 	snapshot: () => State;
 	store: State;
+	isStopped: () => boolean;
 };
 
 export default function createMobXAdapter<State extends object>(
 	source: (() => State) | State,
 ): MobxAdapterFactory<State> {
 	if (isMobxObservable(source)) {
-		const entry = createAdapterEntryFromStore(
-			source as State,
-			StateScope.Shared,
+		return createSharedFactory(() =>
+			createAdapterEntryFromStore(source as State, StateScope.Shared),
 		);
-		return createSharedFactory(entry);
 	}
 
 	if (typeof source === "function") {
@@ -73,9 +72,15 @@ export default function createMobXAdapter<State extends object>(
 }
 
 function createSharedFactory<State extends object>(
-	entry: AdapterEntry<State>,
+	createEntry: () => AdapterEntry<State>,
 ): MobxAdapterFactory<State> {
-	const factory = (() => entry.adapter) as MobxAdapterFactory<State>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as MobxAdapterFactory<State>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.store;
@@ -229,5 +234,6 @@ function createAdapterEntryFromStore<State extends object>(
 		adapter,
 		snapshot,
 		store,
+		isStopped: () => isStopped,
 	};
 }
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index d43fa6e..4ec36b2 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -116,14 +116,26 @@ const buildAdapter = <
 };
 
 function createSharedFactory<State, Event, Snapshot, Actor>(
-	entry: AdapterEntry<State, Event, Snapshot, Actor>,
+	createEntry: () => AdapterEntry<State, Event, Snapshot, Actor>,
 ): AdapterFactory<State, Event, Snapshot, Actor> {
-	const factory = (() => entry.adapter) as AdapterFactory<
-		State,
-		Event,
-		Snapshot,
-		Actor
-	>;
+	const stopped = new WeakSet<IgniteAdapter<State, Event>>();
+	const createTrackedEntry = () => {
+		const created = createEntry();
+		const { stop } = created.adapter;
+		created.adapter.stop = () => {
+			stopped.add(created.adapter);
+			stop();
+		};
+		return created;
+	};
+
+	let entry = createTrackedEntry();
+	const factory = (() => {
+		if (stopped.has(entry.adapter)) {
+			entry = createTrackedEntry();
+		}
+		return entry.adapter;
+	}) as AdapterFactory<State, Event, Snapshot, Actor>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.actor;
@@ -207,15 +219,6 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreInstance>["State"];
 		type Event = InferStateAndEvent<StoreInstance>["Event"];
 
-		const adapter = adaptEvent<
-			State,
-			Parameters<StoreInstance["dispatch"]>[0],
-			Event
-		>(
-			buildAdapter(store, StateScope.Shared),
-			(event) => event as Parameters<StoreInstance["dispatch"]>[0],
-		);
-
 		const dispatch: ReduxStoreCommandActor<StoreInstance>["dispatch"] = (
 			event,
 		) =>
@@ -230,18 +233,19 @@ export default function createReduxAdapter<
 			) as ReduxStoreCommandActor<StoreInstance>["subscribe"],
 		};
 
-		const entry: AdapterEntry<
+		return createSharedFactory<
 			State,
 			Event,
 			State,
 			ReduxStoreCommandActor<StoreInstance>
-		> = {
-			adapter,
+		>(() => ({
+			adapter: adaptEvent<State, Parameters<StoreInstance["dispatch"]>[0], Event>(
+				buildAdapter(store, StateScope.Shared),
+				(event) => event as Parameters<StoreInstance["dispatch"]>[0],
+			),
 			snapshot: () => store.getState() as State,
 			actor,
-		};
-
-		return createSharedFactory(entry);
+		}));
 	}
 
 	if (isStoreFactory(source)) {
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..9147f23 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -46,6 +46,7 @@ type AdapterEntry<Machine extends AnyStateMachine> = {
 	snapshot: () => StateFrom<Machine>;
 	actor: XStateActorInstance<Machine>;
 	commandActor: XStateCommandActor<Machine>;
+	isStopped: () => boolean;
 };
 
 export default function createXStateAdapter<Machine extends AnyStateMachine>(
@@ -54,8 +55,9 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 	if (isXStateActor(source)) {
 		const actor = source as XStateActorInstance<Machine>;
 		actor.start();
-		const entry = createAdapterEntry(actor, StateScope.Shared, false);
-		return createSharedFactory(entry);
+		return createSharedFactory(() =>
+			createAdapterEntry(actor, StateScope.Shared, false),
+		);
 	}
 
 	const machine = source as Machine;
@@ -67,9 +69,15 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 }
 
 function createSharedFactory<Machine extends AnyStateMachine>(
-	entry: AdapterEntry<Machine>,
+	createEntry: () => AdapterEntry<Machine>,
 ): XStateAdapterFactory<Machine> {
-	const factory = (() => entry.adapter) as XStateAdapterFactory<Machine>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as XStateAdapterFactory<Machine>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.commandActor;
@@ -243,5 +251,6 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 		snapshot,
 		actor,
 		commandActor,
+		isStopped: () => isStopped,
 	};
 }
-- 
2.43.0


From e725c89b569ff6d845f4b24ab75a0a2ed92f7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:05 +0000
Subject: [PATCH 10/34] fix: do not nest a render inside a running render of
 the same element

A state change made while an element renders (a child element that sends an
event from connectedCallback, a handler run by the patch) re-entered the
renderer half-way through a patch: children were appended twice and the outer
pass then overwrote the DOM with the older state. Finish the running pass and
then render the latest state, with a cap that turns an endless loop into an
error.
---
 src/IgniteElement.ts | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index ef3726c..adecee4 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -2,6 +2,8 @@ import type IgniteAdapter from "./IgniteAdapter";
 import { StateScope } from "./IgniteAdapter";
 import type { RenderStrategy } from "./renderers/RenderStrategy";
 
+const MAX_RENDER_PASSES = 100;
+
 export default abstract class IgniteElement<
 	State,
 	Event,
@@ -12,6 +14,8 @@ export default abstract class IgniteElement<
 	private _currentState!: State;
 	private _initialized = false;
 	private _isActive = false;
+	private _isRendering = false;
+	private _renderRequested = false;
 	private _unsubscribe: (() => void) | undefined;
 	private _sendListener: ((event: globalThis.Event) => void) | undefined;
 	private readonly strategy: RenderStrategy<View>;
@@ -92,12 +96,33 @@ export default abstract class IgniteElement<
 			return;
 		}
 
-		this.strategy.render(
-			this.renderView({
-				state: this._currentState,
-				send: (event: Event) => this.send(event),
-			}),
-		);
+		// A render can change the state it is rendering (a child that sends an event
+		// when it connects, for example). Finish the current pass first, then render
+		// the latest state, instead of nesting a second pass inside the first.
+		this._renderRequested = true;
+		if (this._isRendering) {
+			return;
+		}
+
+		this._isRendering = true;
+		try {
+			for (let pass = 1; this._renderRequested && this._isActive; pass++) {
+				if (pass > MAX_RENDER_PASSES) {
+					throw new Error(
+						"[IgniteElement] Too many re-renders: rendering keeps changing the state.",
+					);
+				}
+				this._renderRequested = false;
+				this.strategy.render(
+					this.renderView({
+						state: this._currentState,
+						send: (event: Event) => this.send(event),
+					}),
+				);
+			}
+		} finally {
+			this._isRendering = false;
+		}
 	}
 
 	protected abstract renderView(props: {
-- 
2.43.0


From e42bb512327c2d3902c1fb8e8edbae4ba2e603f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 11/34] fix: a failing render no longer starves the other
 subscribers of the update

An exception thrown by one element's render escaped into the notification loop
of the adapter (or of the Redux store), so sibling elements sharing the source
missed that state change, and a Redux dispatch threw at an unrelated caller.
Report it as an uncaught error instead.
---
 src/IgniteElement.ts | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index adecee4..e64658c 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -4,6 +4,15 @@ import type { RenderStrategy } from "./renderers/RenderStrategy";
 
 const MAX_RENDER_PASSES = 100;
 
+// Surfaces the error of a render caused by a state change as an uncaught error.
+// Throwing it into the source's notification loop would keep the other
+// subscribers from seeing the change.
+function reportRenderError(error: unknown): void {
+	queueMicrotask(() => {
+		throw error;
+	});
+}
+
 export default abstract class IgniteElement<
 	State,
 	Event,
@@ -113,12 +122,20 @@ export default abstract class IgniteElement<
 					);
 				}
 				this._renderRequested = false;
-				this.strategy.render(
-					this.renderView({
-						state: this._currentState,
-						send: (event: Event) => this.send(event),
-					}),
-				);
+				try {
+					this.strategy.render(
+						this.renderView({
+							state: this._currentState,
+							send: (event: Event) => this.send(event),
+						}),
+					);
+				} catch (error) {
+					if (!this._renderRequested) {
+						throw error;
+					}
+					// Superseded by a newer state, which is rendered next.
+					reportRenderError(error);
+				}
 			}
 		} finally {
 			this._isRendering = false;
@@ -183,7 +200,11 @@ export default abstract class IgniteElement<
 		const subscription = this._adapter.subscribe((state) => {
 			this._currentState = state;
 			if (this._isActive) {
-				this.renderTemplate();
+				try {
+					this.renderTemplate();
+				} catch (error) {
+					reportRenderError(error);
+				}
 			}
 		});
 
-- 
2.43.0


From 79a2a591a537065d8773f482a96f88008a1cd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:46 +0000
Subject: [PATCH 12/34] fix: recover from a patch that throws half-way

When a DOM operation threw in the middle of a patch (an invalid tag or attribute
name, a property setter of a child element), the DOM had already been changed
but the previous tree was kept, so the next render appended the same children
again. Mount from scratch after a failed patch.
---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..59d4cf0 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -84,19 +84,18 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 					? "flag-disabled"
 					: null);
 
+		const previousTree = this.previousTree;
+		// Until the patch has completed the DOM matches no known tree; when it throws
+		// half-way the next render mounts from scratch.
+		this.previousTree = null;
 		this.previousTree =
-			this.previousTree === null
+			previousTree === null
 				? mountIgniteJsx(this.contentRoot, view)
-				: renderIgniteJsx(
-						this.contentRoot,
-						view,
-						this.previousTree ?? undefined,
-						{
-							mode,
-							onFallbackReplace: (reason) =>
-								this.logFallback(reason, this.getHostTag()),
-						},
-					);
+				: renderIgniteJsx(this.contentRoot, view, previousTree, {
+						mode,
+						onFallbackReplace: (reason) =>
+							this.logFallback(reason, this.getHostTag()),
+					});
 
 		if (forceReason) {
 			this.logFallback(forceReason, this.getHostTag());
-- 
2.43.0


From 3c1d350ec313524d89b36255ab360df01727924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:54 +0000
Subject: [PATCH 13/34] fix: do not hand an older MobX snapshot to listeners
 added during a notification

---
 src/adapters/MobxAdapter.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index ba5d79e..36830eb 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -138,8 +138,11 @@ function createAdapterEntryFromStore<State extends object>(
 	}
 
 	function notifyListeners(snapshot: State) {
-		for (const listener of listeners) {
-			listener(snapshot);
+		// Listeners added meanwhile already have a state at least this new.
+		for (const listener of [...listeners]) {
+			if (listeners.has(listener)) {
+				listener(snapshot);
+			}
 		}
 	}
 
-- 
2.43.0


From 3c68582b2a97349129b62619ab9470ceb8b53a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:40 +0000
Subject: [PATCH 14/34] fix: reflect props that equal the property's default
 value

---
 src/renderers/jsx/renderer.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index d025e69..77ab3f9 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -557,10 +557,9 @@ function applyProperty(
 		return;
 	}
 
-	const current = Reflect.get(element, key);
-	if (current !== value) {
-		Reflect.set(element, key, value);
-	}
+	// Also when the property already reads as this value: a default (tabIndex -1,
+	// type "text") is not reflected to its attribute until it is assigned.
+	Reflect.set(element, key, value);
 }
 
 // A <select> only accepts a value once the matching <option> exists, so the
-- 
2.43.0


From 7ebc8164b47c4bf6a626b74e7c1caae7b1083e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:02 +0000
Subject: [PATCH 15/34] fix: a rejected config no longer becomes the active one

---
 src/config.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.ts b/src/config.ts
index f221c4f..3f5e54d 100644
--- a/src/config.ts
+++ b/src/config.ts
@@ -72,12 +72,15 @@ function normalizeConfig(config: IgniteConfig): IgniteConfig {
 
 export function defineIgniteConfig(config: IgniteConfig): IgniteConfig {
 	const normalized = normalizeConfig(config);
-	registry[CONFIG_SYMBOL] = normalized;
 
+	// First, because it rejects unsupported styles: a rejected config must not
+	// become the active one.
 	if ("styles" in normalized) {
 		setGlobalStyles(normalized.styles);
 	}
 
+	registry[CONFIG_SYMBOL] = normalized;
+
 	return normalized;
 }
 
-- 
2.43.0


From aae67fa9953cfdda2327f73f104bad8edfbb12ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 16/34] fix: Redux subscribers see what changes during their
 first delivery

---
 src/adapters/ReduxAdapter.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4ec36b2..d865233 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -67,7 +67,12 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
+			const initialState = store.getState();
+			listener(initialState);
+			if (isStopped) {
+				// The listener stopped the adapter while it was handed that state.
+				return { unsubscribe: () => {} };
+			}
 			const storeUnsubscribe = store.subscribe(() => {
 				// Redux still calls listeners removed while a dispatch is under way.
 				if (unsubscribers.has(unsubscribe)) {
@@ -83,6 +88,10 @@ const buildAdapter = <
 			};
 
 			unsubscribers.add(unsubscribe);
+			if (store.getState() !== initialState) {
+				// The listener dispatched before it was subscribed to the store.
+				listener(store.getState());
+			}
 
 			return {
 				unsubscribe,
-- 
2.43.0


From 1231945badcbaa6689d29fbf1b8c0361f9844f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:59 +0000
Subject: [PATCH 17/34] fix: MobX subscribers see what changes during their
 first delivery

---
 src/adapters/MobxAdapter.ts | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 36830eb..aa426dd 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,4 @@
-import type { IReactionDisposer } from "mobx";
-import { autorun, toJS } from "mobx";
+import { reaction, toJS } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -129,7 +128,7 @@ function createAdapterEntryFromStore<State extends object>(
 	scope: StateScope,
 ): AdapterEntry<State> {
 	const listeners = new Set<(state: State) => void>();
-	let disposer: IReactionDisposer | null = null;
+	let disposer: (() => void) | null = null;
 	let isStopped = false;
 	let lastSnapshot: State = cloneState();
 
@@ -146,18 +145,27 @@ function createAdapterEntryFromStore<State extends object>(
 		}
 	}
 
-	function ensureAutorun() {
+	function ensureReaction() {
 		if (disposer) {
 			return;
 		}
-		disposer = autorun(() => {
-			const snapshot = cloneState();
-			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
-		});
+		const dispose = reaction(
+			cloneState,
+			(snapshot, _previous, current) => {
+				// Listeners may subscribe, unsubscribe or stop during the first run,
+				// which happens before reaction() returns.
+				disposer ??= () => current.dispose();
+				lastSnapshot = snapshot;
+				notifyListeners(snapshot);
+			},
+			{ fireImmediately: true },
+		);
+		if (listeners.size) {
+			disposer ??= dispose;
+		}
 	}
 
-	function cleanupAutorun() {
+	function cleanupReaction() {
 		disposer?.();
 		disposer = null;
 	}
@@ -170,10 +178,10 @@ function createAdapterEntryFromStore<State extends object>(
 
 			const wasRunning = disposer !== null;
 			listeners.add(listener);
-			ensureAutorun();
+			ensureReaction();
 
 			if (wasRunning) {
-				listener(lastSnapshot);
+				listener(cloneState());
 			}
 
 			return {
@@ -183,7 +191,7 @@ function createAdapterEntryFromStore<State extends object>(
 					}
 					listeners.delete(listener);
 					if (!listeners.size) {
-						cleanupAutorun();
+						cleanupReaction();
 					}
 				},
 			};
@@ -219,7 +227,7 @@ function createAdapterEntryFromStore<State extends object>(
 				return;
 			}
 			isStopped = true;
-			cleanupAutorun();
+			cleanupReaction();
 			listeners.clear();
 			lastSnapshot = cloneState();
 		},
-- 
2.43.0


From 3da9f348a2f1a7eac000dc4ede12be23d67ab2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:24 +0000
Subject: [PATCH 18/34] fix: a stop during send keeps the state it was stopped
 at

---
 src/adapters/MobxAdapter.ts   | 4 +++-
 src/adapters/ReduxAdapter.ts  | 4 +++-
 src/adapters/XStateAdapter.ts | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index aa426dd..49ad0f5 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -214,7 +214,9 @@ function createAdapterEntryFromStore<State extends object>(
 				} else {
 					action.call(store);
 				}
-				lastSnapshot = cloneState();
+				if (!isStopped) {
+					lastSnapshot = cloneState();
+				}
 			} else {
 				console.warn(`[MobxAdapter] Unknown event type: ${String(event.type)}`);
 			}
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index d865233..ac61a2f 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -105,7 +105,9 @@ const buildAdapter = <
 				return;
 			}
 			store.dispatch(event as Parameters<typeof store.dispatch>[0]);
-			lastKnownState = store.getState();
+			if (!isStopped) {
+				lastKnownState = store.getState();
+			}
 		},
 		getState() {
 			return isStopped ? lastKnownState : store.getState();
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 9147f23..9c78315 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -197,7 +197,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				return;
 			}
 			actor.send(event);
-			lastKnownSnapshot = actor.getSnapshot();
+			if (!isStopped) {
+				lastKnownSnapshot = actor.getSnapshot();
+			}
 		},
 		getState() {
 			const snapshot = isStopped ? lastKnownSnapshot : actor.getSnapshot();
@@ -239,7 +241,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				return;
 			}
 			actor.send(event);
-			lastKnownSnapshot = actor.getSnapshot();
+			if (!isStopped) {
+				lastKnownSnapshot = actor.getSnapshot();
+			}
 		},
 		get state() {
 			return adapter.getState();
-- 
2.43.0


From 4b0850721e65abe9e81e89750b7cef190bb67cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:45 +0000
Subject: [PATCH 19/34] fix: the release script fails when the password prompt
 gets no answer

---
 scripts/release-beta.mjs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 7111524..c9cf012 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -73,13 +73,17 @@ const resolveOtp = async () => {
 	}
 
 	const rl = createInterface({ input: stdin, output: stdout });
-	const answer = (
-		await rl.question(
+	const answer = await new Promise((resolve, reject) => {
+		// Without this the end of the input would end the script with exit code 0.
+		rl.once("close", () =>
+			reject(new Error("No one-time password: the input was closed.")),
+		);
+		rl.question(
 			"[release:beta] Enter npm one-time password (leave blank to skip): ",
-		)
-	).trim();
-	await rl.close();
-	return answer || undefined;
+		).then(resolve, reject);
+	});
+	rl.close();
+	return answer.trim() || undefined;
 };
 
 const main = async () => {
-- 
2.43.0


From 68b67e5b836ee7ed9467b8578cf0d065c9bcc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 20/34] fix: do not quote a malformed GitHub token in the token
 refresh's errors

---
 scripts/refresh-npm-token.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 41d690b..8ff0793 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -32,6 +32,11 @@ export default async function refreshNpmToken() {
 			);
 		}
 
+		// fetch() quotes an invalid header value, token included, in its error
+		if (/[\0\r\n]/.test(githubToken.trim())) {
+			throw new Error("GITHUB_TOKEN contains a line break.");
+		}
+
 		// Update the token in GitHub Secrets
 		console.log("🔄 Updating token in GitHub Secrets...");
 		const response = await fetch(
-- 
2.43.0


From 5d567f8660b0ec4551bab18248e2c21b12d1ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 21/34] fix: leave properties alone that never had a value

---
 src/renderers/jsx/renderer.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 77ab3f9..6d5312d 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -499,6 +499,11 @@ function removeProp(
 	prev: unknown,
 	isSvg: boolean,
 ): void {
+	if (!hasValue(prev) && !isCustomElement(element)) {
+		// Nothing was applied, so there is nothing to reset.
+		return;
+	}
+
 	if (key === "class" || key === "className") {
 		element.removeAttribute("class");
 		return;
@@ -537,13 +542,21 @@ function resetProperty(
 	attrName: string,
 ): void {
 	const type = typeof Reflect.get(element, key);
-	const isBuiltIn = !element.localName.includes("-");
+	const isBuiltIn = !isCustomElement(element);
 	if (isBuiltIn && type === "number" && element.hasAttribute(attrName)) {
 		return;
 	}
 	Reflect.set(element, key, isBuiltIn && type === "string" ? "" : undefined);
 }
 
+function hasValue(value: unknown): boolean {
+	return value !== false && value !== null && value !== undefined;
+}
+
+function isCustomElement(element: Element): boolean {
+	return element.localName.includes("-");
+}
+
 function applyProperty(
 	element: HTMLElement,
 	key: string,
-- 
2.43.0


From 2ddbbaefc7637244315adc6c4cea5bd3c1a8ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 22/34] fix: keep the value of a select when its options change

---
 src/renderers/jsx/renderer.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 6d5312d..c2e6d85 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -258,6 +258,8 @@ function patchNode(
 			: child,
 	);
 
+	const selected = selectedValue(elementNode);
+
 	if (
 		!patchChildren(
 			elementNode,
@@ -277,7 +279,8 @@ function patchNode(
 
 	if (
 		newNode.props.value !== oldNode.props.value ||
-		newNode.children.length !== oldNode.children.length
+		newNode.children.length !== oldNode.children.length ||
+		selectedValue(elementNode) !== selected
 	) {
 		applySelectValue(elementNode, newNode.props);
 	}
@@ -575,6 +578,13 @@ function applyProperty(
 	Reflect.set(element, key, value);
 }
 
+// Changes when the options of a <select> are replaced, reordered or renamed.
+function selectedValue(element: Element): unknown {
+	return element.localName === "select"
+		? Reflect.get(element, "value")
+		: undefined;
+}
+
 // A <select> only accepts a value once the matching <option> exists, so the
 // value is applied (again) after the children.
 function applySelectValue(element: Element, props: IgniteJsxProps): void {
-- 
2.43.0


From f7702f3cf1503b07c4ee829730d58606f85141d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 23/34] fix: select the first option when a select's value is
 taken away

---
 src/renderers/jsx/renderer.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index c2e6d85..f2d4933 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -549,6 +549,11 @@ function resetProperty(
 	if (isBuiltIn && type === "number" && element.hasAttribute(attrName)) {
 		return;
 	}
+	if (key === "value" && element.localName === "select") {
+		// "" would leave the <select> without a selected option.
+		Reflect.set(element, "selectedIndex", 0);
+		return;
+	}
 	Reflect.set(element, key, isBuiltIn && type === "string" ? "" : undefined);
 }
 
-- 
2.43.0


From 11b3e35d45f3a8111a5a671a3884303b7ea3ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:42 +0000
Subject: [PATCH 24/34] fix: select the option that is renamed to a select's
 value

---
 src/renderers/jsx/renderer.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index f2d4933..27445ab 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -280,7 +280,8 @@ function patchNode(
 	if (
 		newNode.props.value !== oldNode.props.value ||
 		newNode.children.length !== oldNode.children.length ||
-		selectedValue(elementNode) !== selected
+		selectedValue(elementNode) !== selected ||
+		Reflect.get(elementNode, "selectedIndex") === -1
 	) {
 		applySelectValue(elementNode, newNode.props);
 	}
-- 
2.43.0


From 9890614eee43e8217633de7a237661a14d7cd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:53 +0000
Subject: [PATCH 25/34] fix: import a config file in a hidden directory by a
 relative path

---
 src/plugins/viteIgniteConfigPlugin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..887b557 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -125,7 +125,7 @@ function getImportSpecifier(
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
 			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${normalized}`;
 		}
 	}
 
-- 
2.43.0


From b6ac93cddce48932d0def63ce86d17dddc2c0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:31 +0000
Subject: [PATCH 26/34] fix: let Vite serve and bundle the injected config
 loader

---
 src/plugins/viteIgniteConfigPlugin.ts | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 887b557..051f5f3 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -1,4 +1,4 @@
-import { relative, resolve, sep } from "node:path";
+import { dirname, isAbsolute, relative, resolve, sep } from "node:path";
 import { resolveConfigFile } from "./configFile";
 
 export interface IgniteConfigVitePluginOptions {
@@ -34,6 +34,7 @@ function toFileSystemPath(path: string): string {
 const DEFAULT_LOAD_HELPER_SPECIFIER = "ignite-element/config/loadIgniteConfig";
 
 type ConfigWithRoot = { root: string };
+type PageContext = { filename: string };
 
 export function igniteConfigVitePlugin(
 	options: IgniteConfigVitePluginOptions = {},
@@ -57,7 +58,7 @@ export function igniteConfigVitePlugin(
 			});
 	};
 
-	const transformIndexHtml = () => {
+	const handler = (_html?: string, page?: PageContext) => {
 		if (!isValidPath(resolvedConfigPath)) {
 			console.warn("[ignite-element:vite-config] no config file found");
 			return;
@@ -65,7 +66,11 @@ export function igniteConfigVitePlugin(
 
 		const injectTo = options.injectTo ?? "head-prepend";
 
-		const importSpecifier = getImportSpecifier(resolvedConfigPath, projectRoot);
+		const importSpecifier = getImportSpecifier(
+			resolvedConfigPath,
+			projectRoot,
+			page && isAbsolute(page.filename) ? dirname(page.filename) : projectRoot,
+		);
 
 		if (!importSpecifier) {
 			console.warn(
@@ -103,6 +108,10 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 
 	const enforce: "pre" = "pre";
 
+	// Before Vite looks at the page: it then serves and bundles the script like
+	// one of the page's own, with imports relative to the page.
+	const transformIndexHtml = { order: enforce, handler };
+
 	const plugin = {
 		name: "ignite-element:vite-config",
 		enforce,
@@ -116,16 +125,17 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 function getImportSpecifier(
 	configPath: string | undefined,
 	root: string | undefined,
+	pageDirectory: string | undefined,
 ): string | undefined {
 	if (!isValidPath(configPath)) {
 		return undefined;
 	}
 
-	if (root) {
+	if (root && pageDirectory) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			const normalized = toPosixPath(relativePath);
-			return `./${normalized}`;
+			const normalized = toPosixPath(relative(pageDirectory, configPath));
+			return normalized.startsWith("../") ? normalized : `./${normalized}`;
 		}
 	}
 
-- 
2.43.0


From 51a3d67c96100f266dc3a74da88eb957cd818b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:28 +0000
Subject: [PATCH 27/34] fix: content set by innerHTML or textContent survives
 the removal of former children

---
 src/renderers/jsx/renderer.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 27445ab..0d093b9 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -245,6 +245,16 @@ function patchNode(
 
 	const elementNode = domNode as Element & ParentNode;
 
+	let oldChildren = oldNode.children;
+	if (oldChildren.length > 0 && newNode.children.length === 0) {
+		// Before the properties: innerHTML or textContent may bring new content.
+		onFallbackReplace?.("child-order-change");
+		while (elementNode.firstChild) {
+			elementNode.removeChild(elementNode.firstChild);
+		}
+		oldChildren = [];
+	}
+
 	patchProps(elementNode, oldNode.props, newNode.props);
 
 	const childNamespace =
@@ -261,12 +271,7 @@ function patchNode(
 	const selected = selectedValue(elementNode);
 
 	if (
-		!patchChildren(
-			elementNode,
-			oldNode.children,
-			mappedChildren,
-			onFallbackReplace,
-		)
+		!patchChildren(elementNode, oldChildren, mappedChildren, onFallbackReplace)
 	) {
 		// fallback replace
 		while (elementNode.firstChild) {
-- 
2.43.0


From 20c46ce2d1f5138d38cfd95e549fe8e6707d6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:31 +0000
Subject: [PATCH 28/34] fix: an empty value of an option and a zero of a
 progress bar are applied

---
 src/renderers/jsx/renderer.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 0d093b9..9085c54 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -577,7 +577,12 @@ function applyProperty(
 	value: unknown,
 ): void {
 	if (key === "value" || key === "checked") {
-		const current = Reflect.get(element, key);
+		// Elsewhere the value is part of the markup: an <option> without one has its
+		// text as value, a <progress> without one is indeterminate.
+		const isField =
+			isCustomElement(element) ||
+			["input", "textarea", "select"].includes(element.localName);
+		const current = isField ? Reflect.get(element, key) : undefined;
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
 			Reflect.set(element, key, value);
 		}
-- 
2.43.0


From 84212cb65d21fb6687dc380aa231d9e2003fe890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:01 +0000
Subject: [PATCH 29/34] fix: a field in composition is recognised by its
 composition events

---
 src/renderers/jsx/renderer.ts | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 9085c54..c61e033 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -308,6 +308,9 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			const element = node.namespace
 				? document.createElementNS(node.namespace, node.tag)
 				: document.createElement(node.tag);
+			if (node.tag === "input" || node.tag === "textarea") {
+				trackComposition(element);
+			}
 			patchProps(element, {}, node.props);
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
@@ -610,10 +613,22 @@ function applySelectValue(element: Element, props: IgniteJsxProps): void {
 	}
 }
 
+// Fields in which the user is composing text: elements have no such property.
+const composing = new WeakSet<Element>();
+
+function trackComposition(element: Element): void {
+	element.addEventListener("compositionstart", () => composing.add(element));
+	for (const end of ["compositionend", "focus", "blur"]) {
+		element.addEventListener(end, () => composing.delete(element));
+	}
+}
+
 function isComposingInput(element: HTMLElement): boolean {
+	const { activeElement } = element.getRootNode() as ShadowRoot;
 	return (
-		"isComposing" in element &&
-		Boolean((element as HTMLElement & { isComposing?: boolean }).isComposing)
+		(composing.has(element) && activeElement === element) ||
+		("isComposing" in element &&
+			Boolean((element as HTMLElement & { isComposing?: boolean }).isComposing))
 	);
 }
 
-- 
2.43.0


From bd4a755052581336c3c05a0a930858832ee5bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:56 +0000
Subject: [PATCH 30/34] fix: let a listener be subscribed to an XState or MobX
 adapter again

The adapters kept listeners by identity, so a second subscription of the same
function was one with the first, and unsubscribing the first again ended it.
---
 src/adapters/MobxAdapter.ts   | 6 ++++--
 src/adapters/XStateAdapter.ts | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 49ad0f5..4850c91 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -177,7 +177,9 @@ function createAdapterEntryFromStore<State extends object>(
 			}
 
 			const wasRunning = disposer !== null;
-			listeners.add(listener);
+			// The same function may be subscribed more than once.
+			const subscriber: typeof listener = (state) => listener(state);
+			listeners.add(subscriber);
 			ensureReaction();
 
 			if (wasRunning) {
@@ -189,7 +191,7 @@ function createAdapterEntryFromStore<State extends object>(
 					if (isStopped) {
 						return;
 					}
-					listeners.delete(listener);
+					listeners.delete(subscriber);
 					if (!listeners.size) {
 						cleanupReaction();
 					}
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 9c78315..16c7eb1 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -173,7 +173,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			listeners.add(listener);
+			// The same function may be subscribed more than once.
+			const subscriber: typeof listener = (state) => listener(state);
+			listeners.add(subscriber);
 			ensureSubscription();
 
 			const snapshot = actor.getSnapshot();
@@ -182,7 +184,7 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 			return {
 				unsubscribe: () => {
-					listeners.delete(listener);
+					listeners.delete(subscriber);
 					if (!listeners.size) {
 						cleanupSubscription();
 					}
-- 
2.43.0


From 3c1ab137c7e6dcc58216bafda5622267b3852ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:56 +0000
Subject: [PATCH 31/34] fix: write an attribute where a DOM property is
 read-only

<input form=...> and the like were dropped silently, because the property
exists but cannot be assigned.
---
 src/renderers/jsx/renderer.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index c61e033..e185b2d 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -593,8 +593,11 @@ function applyProperty(
 	}
 
 	// Also when the property already reads as this value: a default (tabIndex -1,
-	// type "text") is not reflected to its attribute until it is assigned.
-	Reflect.set(element, key, value);
+	// type "text") is not reflected to its attribute until it is assigned. A
+	// property that cannot be assigned (form) only follows its attribute.
+	if (!Reflect.set(element, key, value)) {
+		element.setAttribute(key, String(value));
+	}
 }
 
 // Changes when the options of a <select> are replaced, reordered or renamed.
-- 
2.43.0


From 478fec5c6b453162a1984eb3de0897819afc637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:14 +0000
Subject: [PATCH 32/34] fix: an element that fails to be constructed leaves no
 subscription behind

When the states, commands or class renderer of a component threw, the adapter
had been subscribed to already and was never let go of.
---
 src/IgniteElementFactory.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 12eeca0..748e33a 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -169,7 +169,13 @@ export default function igniteElementFactory<
 				constructor() {
 					const { adapter } = resolveSharedResources();
 					super(adapter, renderStrategyFactory());
-					this.additionalArgs = resolveSharedAdditionalArgs(this);
+					try {
+						this.additionalArgs = resolveSharedAdditionalArgs(this);
+					} catch (error) {
+						// The element never comes to life: let go of the source.
+						super.disconnectedCallback();
+						throw error;
+					}
 				}
 
 				connectedCallback(): void {
@@ -222,8 +228,14 @@ export default function igniteElementFactory<
 				const adapter = createAdapter();
 				adapter.scope ??= StateScope.Isolated;
 				super(adapter, renderStrategyFactory());
-				this.additionalArgs = createAdditionalArgs(adapter, this);
-				this.renderImpl = resolveRenderer(renderer);
+				try {
+					this.additionalArgs = createAdditionalArgs(adapter, this);
+					this.renderImpl = resolveRenderer(renderer);
+				} catch (error) {
+					// The element never comes to life: neither must its source.
+					super.disconnectedCallback();
+					throw error;
+				}
 			}
 
 			private readonly renderImpl: (args: RenderArgs) => View;
-- 
2.43.0


From d54ec38ca5be477851531f0f34d9752f437c091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:17 +0000
Subject: [PATCH 33/34] fix: a shared element recovers from a failing set-up at
 reconnection

The arguments of the view are resolved when it renders, so an error in them
is a render error and the next change renders again, instead of leaving the
element connected but without its source.
---
 src/IgniteElementFactory.ts | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 748e33a..f2fd49f 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,17 +160,11 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private additionalArgs: AdditionalRenderArgs<
-					State,
-					Event,
-					RenderArgs
-				>;
-
 				constructor() {
 					const { adapter } = resolveSharedResources();
 					super(adapter, renderStrategyFactory());
 					try {
-						this.additionalArgs = resolveSharedAdditionalArgs(this);
+						resolveSharedAdditionalArgs(this);
 					} catch (error) {
 						// The element never comes to life: let go of the source.
 						super.disconnectedCallback();
@@ -186,7 +180,6 @@ export default function igniteElementFactory<
 					const { adapter } = resolveSharedResources();
 					if (this.adapter !== adapter) {
 						this.rebindAdapter(adapter);
-						this.additionalArgs = resolveSharedAdditionalArgs(this);
 					}
 
 					super.connectedCallback();
@@ -206,7 +199,7 @@ export default function igniteElementFactory<
 
 				protected renderView(): View {
 					return render({
-						...this.additionalArgs,
+						...resolveSharedAdditionalArgs(this),
 						state: this.currentState,
 						send: (event) => this.send(event),
 					} as RenderArgs);
-- 
2.43.0


From 30f6eb858063778346362a013a527612332512d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:06 +0000
Subject: [PATCH 34/34] fix: an empty crossOrigin (anonymous) reaches the
 stylesheet link

In HTML crossorigin="" means anonymous; it was dropped, and a stylesheet with
an integrity from another origin is then refused.
---
 src/injectStyles.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index cc6ccb1..bbff170 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -83,7 +83,7 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			if (attributes.integrity) {
 				linkElement.integrity = attributes.integrity;
 			}
-			if (attributes.crossOrigin) {
+			if (attributes.crossOrigin != null) {
 				linkElement.crossOrigin = attributes.crossOrigin;
 			}
 		}
-- 
2.43.0

