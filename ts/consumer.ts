// Runs a generated TypeScript consumer against an in-memory transport. Commands come on stdin, the
// record of what happened goes to stdout; vlib/tscons.py judges it.
import { Client, Subject, records } from "clibri";
import { readFileSync, writeSync } from "fs";
import { T, Values, hex, commands } from "./values";

const out: string[] = [];
function log(s: string) { out.push(s); }
function flush() {
	const b = Buffer.from(out.splice(0, out.length).map((x) => x + "\n").join(""), "utf8");
	let p = 0;
	while (p < b.length) { try { p += writeSync(1, b, p); } catch (e: any) { if (e.code !== "EAGAIN") { throw e; } } }
}
const one = (s: any) => String(s).replace(/\s+/g, " ").slice(0, 300);
const turn = () => new Promise<void>((r) => setImmediate(r));
interface Req { ref: string; cls: string; handlers: Array<{ name: string; ref: string }> }
interface Conf { schema: string; key: string; requests: Req[]; beacons: Array<{ ref: string; cls: string }>; broadcasts: Array<{ ref: string; name: string }> }

class Net extends Client {
	public ev = { connected: new Subject<void>(), disconnected: new Subject<void>(), error: new Subject<Error>(), data: new Subject<ArrayBufferLike>() };
	public live = false;
	public fail = false;
	public names: Map<string, number> = new Map();
	public sending: string | undefined;
	private shakes = 0;
	public getEvents() { return this.ev; }
	public send(buffer: ArrayBufferLike): Error | undefined {
		const fail = this.fail || !this.live;
		log(`${fail ? "SF" : "S"} x${hex(buffer)}`);
		if (fail) { return new Error("no send"); }
		const b = Buffer.from(buffer);
		if (b.length >= 10) { this.names.set(this.sending !== undefined ? this.sending : (this.shakes++ === 0 ? "k" : "h"), b.readUInt32LE(6)); }
		return undefined;
	}
	public destroy(): Promise<void> { log("T destroy"); return Promise.resolve(); }
	public fire(k: string, data?: Buffer) {
		log(`E ${k}${data === undefined ? "" : " x" + hex(data)}`);
		try {
			switch (k) {
				case "up": this.live = true; this.shakes = 0; this.ev.connected.emit(); break;
				case "down": this.live = false; this.ev.disconnected.emit(); break;
				case "err": this.ev.error.emit(new Error("transport")); break;
				case "data": {
					const raw = data as Buffer;
					const src: any = raw.length % 3 === 0 ? new Uint8Array(raw).buffer : raw.length % 3 === 1 ? raw : new Uint8Array(raw);
					this.ev.data.emit(src);
					break;
				}
			}
		} catch (e: any) { log("THROWN " + one(e && e.stack || e)); }
		log("e");
	}
}

export function main(M: any, conf: Conf) {
	run(M, conf).catch((e: any) => { flush(); process.stderr.write(String(e && e.stack || e) + "\n"); process.exit(3); });
}
async function run(M: any, conf: Conf) {
	const v = new Values(M.Protocol, JSON.parse(readFileSync(conf.schema, "utf8")));
	let net: Net = new Net();
	let consumer: any;
	let global = false;
	let objs: Map<string, any> = new Map();
	let nested: Map<string, string> = new Map();
	let stream: Buffer = Buffer.alloc(0);
	process.on("unhandledRejection", (e: any) => log("UNHANDLED " + one(e && e.stack || e)));
	process.on("uncaughtException", (e: any) => log("UNCAUGHT " + one(e && e.stack || e)));
	const send = (id: string) => {
		log(`s ${id}`);
		net.sending = id;
		let p: Promise<any>;
		try { p = objs.get(id).send(); } catch (e: any) { p = Promise.reject(new Error("THROWN " + e)); log("THROWN " + one(e && e.stack || e)); }
		net.sending = undefined;
		log("z");
		p.then((r: any) => log(`ok ${id} ${r === undefined ? "" : which(r)}`), (e: any) => log(`fail ${id} ${one(e && e.message)}`));
	};
	const which = (r: any) => {
		const e = v.S.find((x) => x.kind === "struct" && r !== null && typeof r === "object" && r.constructor === v.cls(x));
		return e === undefined ? "?" : `${e.path.join(".")} ${v.put(r, e.path.join("."))}`;
	};
	const make = (id: string, kind: string, t: T) => {
		const own = global ? [] : [consumer];
		if (kind === "req") {
			const q = conf.requests[t.n()];
			const o = new M[q.cls](v.get(t, q.ref), ...own);
			q.handlers.forEach((h) => o[h.name]((x: any) => { log(`h ${id} ${h.name} ${v.put(x, h.ref)}`); after(id); }));
			objs.set(id, o);
		} else {
			const b = conf.beacons[t.n()];
			const o = new M[b.cls](v.get(t, b.ref), ...own);
			o.response(() => { log(`h ${id} response `); after(id); });
			o.err((e: any) => { log(`h ${id} err ${JSON.stringify(String(e && e.message))}`); after(id); });
			objs.set(id, o);
		}
	};
	// what a handler of the application does next
	const after = (id: string) => {
		const n = nested.get(id);
		if (n === undefined) { return; }
		nested.delete(id);
		const t = new T(n);
		const kind = t.s();
		const k = t.s();
		make(k, kind, t);
		send(k);
	};
	let i = -1;
	for (const l of commands(flush)) {
		if (l === "") { continue; }
		i += 1;
		const quiet = l[0] === "+";
		const t = new T(quiet ? l.slice(1) : l);
		const c = t.s();
		switch (c) {
			case "case": {
				global = t.n() === 1;
				net = new Net(); objs = new Map(); nested = new Map(); stream = Buffer.alloc(0);
				if (global) {
					log(`GET ${M.Consumer.get() instanceof Error ? "none" : "some"}`);
					const w = M.Consumer.wait((x: any) => log(`WAITED ${M.Consumer.get() instanceof Error ? "none" : "some"}`));
					if (w instanceof Error) { log("WAITERR"); }
				}
				const opt: any = { autoconnect: true };
				if (!global) { opt.global = false; }
				consumer = new M.Consumer(net, v.get(t, conf.key), opt);
				const mine = consumer;
				consumer.connected.subscribe(() => log("CONNECTED"));
				consumer.ready.subscribe((u: any) => { log(`READY ${one(u)} ${one(mine.uuid)}`); after("ready"); });
				consumer.disconnected.subscribe(() => log("DISCONNECTED"));
				consumer.error.subscribe((e: any) => log("ERROR " + one(e && e.message)));
				conf.broadcasts.forEach((b) => consumer.broadcast[b.name].subscribe((x: any) => { log(`B ${b.ref} ${v.put(x, b.ref)}`); after("cast"); }));
				if (global) { log(`GET ${M.Consumer.get() === mine ? "own" : "other"}`); }
				break;
			}
			case "up": stream = Buffer.alloc(0); net.fire(c); break;
			case "down": case "err": net.fire(c); break;
			case "failsend": net.fail = t.n() === 1; break;
			case "on": { const id = t.s(); nested.set(id, t.rest()); break; }
			case "req": case "bea": { const id = t.s(); make(id, c, t); send(id); break; }
			case "again": { const id = t.s(); if (objs.has(id)) { send(id); } break; }
			case "kill": { const id = t.s(); log(`K ${id}`); if (objs.has(id)) { objs.get(id).destroy(); } break; }
			case "feed": {
				const name = t.s();
				const b = Buffer.from(t.s().slice(1), "hex");
				if (name !== "-") { const n = net.names.get(name); b.writeUInt32LE(n === undefined ? 4000000000 : n, 6); }
				stream = Buffer.concat([stream, b]);
				break;
			}
			case "push": { const n = Math.min(t.n(), stream.length); const b = stream.subarray(0, n); stream = stream.subarray(n); if (net.live) { net.fire("data", b); } break; }
			case "destroy": { log("A"); const n = i; consumer.destroy().then(() => log(`r ${n} ok`), (e: any) => log(`r ${n} err ${one(e && e.message)}`)); log("a"); break; }
			case "settle": case "end": break;
			default: throw new Error("driver: command " + c);
		}
		if (!quiet) { for (let n = 0; n < 4; n += 1) { await turn(); } }
		log(`# ${i}`);
		if (out.length > 300) { flush(); }
	}
	flush();
	process.exit(0);
}
