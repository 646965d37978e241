// Runs a generated TypeScript producer against a recording in-memory transport. Commands come on
// stdin, the record of what happened goes to stdout; vlib/tsmodel.py judges it.
import { Server, Subject, IServerError, IServerReceivedEvent, Options, ConsumerErrorHandelingStrategy, ProducerIdentificationStrategy, records } from "clibri";
import { readFileSync, writeSync } from "fs";
import { T, Values, hex, commands } from "./values";

const out: string[] = [];
function log(s: string) { out.push(s); }
function flush() {
	const b = Buffer.from(out.splice(0, out.length).map((x) => x + "\n").join(""), "utf8");
	let p = 0;
	while (p < b.length) { try { p += writeSync(1, b, p); } catch (e: any) { if (e.code !== "EAGAIN") { throw e; } } }
}
const one = (s: any) => String(s).replace(/\s+/g, " ").slice(0, 300);
const uid = (n: number | string) => { const h = Number(n).toString(16).padStart(32, "0"); return [h.slice(0, 8), h.slice(8, 12), h.slice(12, 16), h.slice(16, 20), h.slice(20)].join("-"); };
const un = (u: any) => { const m = typeof u === "string" ? u.replace(/-/g, "") : "?"; return /^[0-9a-f]{32}$/.test(m) ? String(parseInt(m, 16)) : "?" + one(u); };
const uns = (us: string[]) => us.map(un).map(Number).sort((a, b) => a - b).join(",");
const turn = () => new Promise<void>((r) => setImmediate(r));

class Net extends Server {
	private ev = {
		ready: new Subject<void>(), shutdown: new Subject<void>(), connected: new Subject<string>(), disconnected: new Subject<string>(),
		error: new Subject<IServerError>(), received: new Subject<IServerReceivedEvent>(),
	};
	public live: Set<string> = new Set();
	public failSend: Set<string> = new Set();
	public failDisc: Set<string> = new Set();
	public busy = 0;
	private seed = 7;
	constructor(private goneFails: boolean, private auto: boolean, private failShutdown: boolean, private failListen: boolean, private lag: number) { super(); }
	private async later() {
		this.busy += 1;
		this.seed = (this.seed * 1103515245 + 12345) & 0x7fffffff;
		if (this.lag === 1) { await turn(); }
		if (this.lag === 2) { for (let n = (this.seed >> 8) % 9; n > 0; n -= 1) { await undefined; } }
		if (this.lag === 3) { for (let n = (this.seed >> 8) % 4; n > 0; n -= 1) { await turn(); } }
		this.busy -= 1;
	}
	public getEvents() { return this.ev; }
	public async listen() {
		log("T listen");
		await this.later();
		if (this.failListen) { throw new Error("no listen"); }
	}
	public async send(buffer: ArrayBufferLike, uuid: string): Promise<void> {
		const fail = this.failSend.has(uuid) || (this.goneFails && !this.live.has(uuid));
		log(`${fail ? "SF" : "S"} ${un(uuid)} x${hex(buffer)}`);
		await this.later();
		if (fail) { throw new Error("no send"); }
	}
	public async disconnect(uuid: string): Promise<void> {
		const fail = this.failDisc.has(uuid);
		log(`${fail ? "DF" : "D"} ${un(uuid)}`);
		if (!fail && this.auto && this.live.has(uuid)) {
			this.busy += 1;
			setImmediate(() => { this.busy -= 1; if (this.live.has(uuid)) { this.fire("disc", uuid); } });
		}
		await this.later();
		if (fail) { throw new Error("no disconnect"); }
	}
	public async shutdown(): Promise<void> {
		log("T shutdown");
		await this.later();
		if (this.failShutdown) { throw new Error("no shutdown"); }
	}
	public fire(k: string, a?: string, b?: string) {
		const n = a === undefined ? "" : " " + (k === "err" ? (a === "-" ? a : String(Number(a))) : un(a));
		h.emission(`${k}${n}${k === "data" ? " " + b : ""}`, () => {
			switch (k) {
				case "ready": this.ev.ready.emit(); break;
				case "down": this.ev.shutdown.emit(); break;
				case "conn": this.live.add(a as string); this.ev.connected.emit(a as string); break;
				case "disc": this.live.delete(a as string); this.ev.disconnected.emit(a as string); break;
				case "err": this.ev.error.emit({ uuid: a === "-" ? undefined : uid(a as string), error: new Error("transport") }); break;
				case "data": {
					const raw = Buffer.from((b as string).slice(1), "hex");
					// ways a transport may hand bytes over
					const src: any = raw.length % 3 === 0 ? new Uint8Array(raw).buffer : raw.length % 3 === 1 ? raw : new Uint8Array(raw);
					this.ev.received.emit({ uuid: a as string, buffer: src });
					break;
				}
			}
		});
	}
}

class Harness {
	public v!: Values;
	public net!: Net;
	public producer: any;
	private calls = 0;
	private decisions: Map<string, string[]> = new Map();
	private gates: Map<number, () => void> = new Map();
	private open: Set<number> = new Set();
	private k = ""; private a = "";
	public events: Array<{ name: string; ref: string }> = [];

	public init(v: Values, k: string, a: string, events: Array<{ name: string; ref: string }>) { this.v = v; this.k = k; this.a = a; this.events = events; }
	public reset() { this.decisions.clear(); this.open.clear(); this.gates.clear(); }
	public decide(name: string, d: string) { const l = this.decisions.get(name); if (l) { l.push(d); } else { this.decisions.set(name, [d]); } }
	public opened(g: number) { this.open.add(g); const f = this.gates.get(g); if (f) { this.gates.delete(g); f(); } }
	public emission(what: string, f: () => void) {
		log("E " + what);
		try { f(); } catch (e: any) { log("THROWN " + one(e && e.stack || e)); }
		log("e");
	}
	public log(s: string) { log(s); }
	public appEvent(i: number, toks: T) {
		const e = this.events[i];
		const v = this.v.get(toks, e.ref);
		this.emission(`app ${i} ${this.v.put(v, e.ref)}`, () => this.producer.events[e.name].emit(v));
	}
	// every third call misuses its answer: broadcasts that are not described for it, or a second time
	public again(): boolean { return this.calls % 3 === 0; }
	public misuse(r: any, name: string, m: any) { if (this.again()) { try { r.broadcast([uid(1), uid(2), uid(3)])[name](m); } catch (_) { /* refused */ } } }
	public uuids(s: string): string[] { return s === "-" ? [] : s.split(",").map(uid); }
	private ident(u: any): string {
		if (u === undefined) { return "- K[ none ] A[ none ]"; }
		const k = u.getKey(); const a = u.getAssigned();
		return `${un(u.uuid())} K[ ${k === undefined ? "none" : this.v.put(k, this.k)} ] A[ ${a === undefined ? "none" : this.v.put(a, this.a)} ]`;
	}
	private filters(f: any, me: string): string {
		return [f.all(), f.except(me), f.exclude([me, uid(1), uid(3)]), f.exclude([]), f.filter((x: any) => x.getKey() !== undefined),
			f.filter((x: any) => x.getAssigned() !== undefined && x.uuid() !== uid(2))].map(uns).join("|");
	}
	// what every handler does: reports its call, then what its decision says; the outcome stays in the tokens
	public async enter(name: string, consumer: any, filter: any, producer: any, scope: any, value?: any, ref?: string): Promise<T> {
		const c = ++this.calls;
		log(`H ${c} ${name} ${this.ident(consumer)} F[ ${this.filters(filter, consumer === undefined ? uid(1) : consumer.uuid())} ] V ${ref === undefined ? "" : this.v.put(value, ref)}`);
		const d = (this.decisions.get(name) || []).shift();
		if (d === undefined) { log(`NODEC ${c}`); return new Promise(() => undefined); }
		const t = new T(d);
		const g = t.n();
		if (g !== 0 && !this.open.has(g)) { await new Promise<void>((r) => this.gates.set(g, r)); }
		if (t.n() === 1 && scope !== undefined) { scope.deferred(() => log(`Q ${c}`)); }
		for (let n = t.n(); n > 0; n -= 1) {
			const k = t.s();
			switch (k) {
				case "k": { const ov = t.n() === 1; const v = this.v.get(t, this.k); log(`O ${c} k ${ov ? 1 : 0} ${this.v.put(v, this.k)}`); consumer.key(v, ov); break; }
				case "a": { const ov = t.n() === 1; const v = this.v.get(t, this.a); log(`O ${c} a ${ov ? 1 : 0} ${this.v.put(v, this.a)}`); consumer.assign(v, ov); break; }
				case "D": { const u = t.n(); log(`O ${c} D ${u}`); producer.disconnect(uid(u)).catch(() => undefined); break; }
				case "S": { const u = t.n(); const x = t.s(); log(`O ${c} S ${u} ${x}`); producer.send(uid(u), Buffer.from(x.slice(1), "hex")).catch(() => undefined); break; }
				case "V": { const e = t.n(); log(`O ${c} V ${e}`); this.appEvent(e, t); break; }
				default: throw new Error("driver: operation " + k);
			}
		}
		log(`C ${c}`);
		return t;
	}
	public error(e: any, consumer: any, filter: any): Promise<void> {
		const type = typeof e.getErrType === "function" ? e.getErrType() : "transport" + (e.uuid === undefined ? "-" : un(e.uuid));
		log(`X ${consumer === undefined ? "-" : un(consumer.uuid())} ${type} ${filter === undefined ? "-" : uns(filter.all())} ${one(e.message)}`);
		return Promise.resolve();
	}
}
export const h = new Harness();

export function main(...a: any[]) {
	(run as any)(...a).catch((e: any) => { flush(); process.stderr.write(String(e && e.stack || e) + "\n"); process.exit(3); });
}
async function run(P: any, Producer: any, Context: any, schema: string, k: string, a: string, events: Array<{ name: string; ref: string }>) {
	h.init(new Values(P, JSON.parse(readFileSync(schema, "utf8"))), k, a, events);
	process.on("unhandledRejection", (e: any) => log("UNHANDLED " + one(e && e.stack || e)));
	process.on("uncaughtException", (e: any) => log("UNCAUGHT " + one(e && e.stack || e)));
	let i = -1;
	for (const l of commands(flush)) {
		if (l === "") { continue; }
		i += 1;
		const quiet = l[0] === "+";
		const t = new T(quiet ? l.slice(1) : l);
		const c = t.s();
		switch (c) {
			case "case": {
				h.reset();
				const [id, er] = [t.s(), t.s()];
				h.net = new Net(t.n() === 1, t.n() === 1, t.n() === 1, t.n() === 1, t.n());
				const o: any = {};
				if (id !== "default") { o.producerIndentificationStrategy = ProducerIdentificationStrategy[id as keyof typeof ProducerIdentificationStrategy]; }
				if (er !== "default") { o.consumerErrorHandelingStrategy = ConsumerErrorHandelingStrategy[er as keyof typeof ConsumerErrorHandelingStrategy]; }
				h.producer = id === "default" && er === "default" ? new Producer(h.net, new Context()) : new Producer(h.net, new Context(), new Options(o));
				break;
			}
			case "do": h.decide(t.s(), t.rest()); break;
			case "ready": {
				const n = i;
				h.producer.listen().then(() => log(`r ${n} ok`), (e: any) => log(`r ${n} err ${one(e && e.message)}`));
				await turn(); await turn(); await turn(); await turn();
				h.net.fire("ready");
				break;
			}
			case "conn": case "disc": h.net.fire(c, uid(t.n())); break;
			case "data": h.net.fire(c, uid(t.n()), t.s()); break;
			case "down": h.net.fire(c); break;
			case "err": { t.s(); h.net.fire(c, t.s()); break; }
			case "failsend": { const u = uid(t.n()); if (t.n()) { h.net.failSend.add(u); } else { h.net.failSend.delete(u); } break; }
			case "faildisc": { const u = uid(t.n()); if (t.n()) { h.net.failDisc.add(u); } else { h.net.failDisc.delete(u); } break; }
			case "open": log(`G ${l.split(" ").pop()}`); h.opened(t.n()); break;
			case "control": {
				const k2 = t.s(); const n = i;
				if (k2 === "emit") { h.appEvent(t.n(), t); break; }
				log(`A ${n}`);
				let p: Promise<void>;
				if (k2 === "send") { const u = uid(t.n()); p = h.producer.send(u, Buffer.from(t.s().slice(1), "hex")); }
				else if (k2 === "broadcast") { const u = h.uuids(t.s()); p = h.producer.broadcast(u, Buffer.from(t.s().slice(1), "hex")); }
				else if (k2 === "disconnect") { p = h.producer.disconnect(uid(t.n())); }
				else if (k2 === "destroy") { p = h.producer.destroy(); }
				else { throw new Error("driver: control"); }
				log("a");
				p.then(() => log(`r ${n} ok`), (e: any) => log(`r ${n} err ${one(e && e.message)}`));
				break;
			}
			case "settle": case "end": break;
			default: throw new Error("driver: command " + c);
		}
		if (!quiet) { do { for (let n = 0; n < 6; n += 1) { await turn(); } } while (h.net !== undefined && h.net.busy > 0); }
		log(`# ${i}`);
		if (out.length > 300) { flush(); }
	}
	flush();
	process.exit(0);
}
