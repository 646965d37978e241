// Generic driver around a generated TypeScript protocol: answers one line per command,
// speaking the same token text as the Rust drivers.
import * as P from "PROTOCOL";
import { readFileSync, writeSync } from "fs";

const any: any = P as any;
interface F { name: string; id: number; prim: string | null; ref: number | null; rep: boolean; opt: boolean }
interface E { kind: string; path: string[]; id: number; fields: F[] }
const S: E[] = JSON.parse(readFileSync(process.argv[2], "utf8"));
const cls = (e: E): any => e.path.reduce((o: any, n: string) => o[n], any);

class T {
	private i = 0;
	constructor(private a: string[]) {}
	s(): string {
		if (this.i >= this.a.length) { throw new Error("driver: missing token"); }
		return this.a[this.i++];
	}
	n(): number { return Number(this.s()); }
}
const hex = (b: any): string => Buffer.from(b).toString("hex");
const dv = new DataView(new ArrayBuffer(8));
const dec = new TextDecoder("utf-8", { ignoreBOM: true });
const enc = new TextEncoder();

function getPrim(t: T, p: string): any {
	const x = t.s();
	switch (p) {
		case "bool": return x === "1";
		case "str": return dec.decode(Buffer.from(x.slice(1), "hex"));
		case "f32": dv.setUint32(0, parseInt(x.slice(1), 16)); return dv.getFloat32(0);
		case "f64": dv.setBigUint64(0, BigInt("0x" + x.slice(1))); return dv.getFloat64(0);
		case "i64": case "u64": return BigInt(x);
		default: return Number(x);
	}
}
function getOne(t: T, f: F): any { return f.ref === null ? getPrim(t, f.prim as string) : getEnt(t, S[f.ref], false); }
function getField(t: T, f: F): any {
	if (f.opt && t.s() === "N") { return undefined; }
	if (!f.rep) { return getOne(t, f); }
	const n = t.n();
	const o: any[] = [];
	for (let i = 0; i < n; i += 1) { o.push(getOne(t, f)); }
	return o;
}
// asMessage: enums become instances of their class, otherwise the plain declaration object
function getEnt(t: T, e: E, asMessage: boolean, plain?: boolean): any {
	if (e.kind === "struct") {
		const o: any = {};
		e.fields.forEach((f) => { o[f.name] = getField(t, f); });
		return plain ? o : new (cls(e))(o);
	}
	const i = t.n();
	const o: any = {};
	o[e.fields[i].name] = getField(t, e.fields[i]);
	if (!asMessage) { return o; }
	const inst = new (cls(e))();
	const err = inst.set(o);
	if (err instanceof Error) { throw err; }
	return inst;
}

const RANGE: any = { i8: [-128, 127], u8: [0, 255], i16: [-32768, 32767], u16: [0, 65535], i32: [-2147483648, 2147483647], u32: [0, 4294967295] };
function putPrim(v: any, p: string, o: string[]) {
	const want = p === "bool" ? "boolean" : p === "str" ? "string" : p === "i64" || p === "u64" ? "bigint" : "number";
	if (typeof v !== want) { o.push(`WRONGTYPE(${p}:${v === null ? "null" : typeof v})`); return; }
	switch (p) {
		case "bool": o.push(v ? "1" : "0"); return;
		case "str": o.push("s" + hex(enc.encode(v))); return;
		case "f32": {
			if (!isNaN(v) && Math.fround(v) !== v) { o.push(`NOTF32(${v})`); return; }
			dv.setFloat32(0, v); o.push("x" + (isNaN(v) ? 0x7fc00000 : dv.getUint32(0)).toString(16)); return;
		}
		case "f64": dv.setFloat64(0, v); o.push("x" + (isNaN(v) ? "7ff8000000000000" : dv.getBigUint64(0).toString(16))); return;
		case "i64": case "u64": o.push(v.toString()); return;
		default:
			if (!Number.isInteger(v) || v < RANGE[p][0] || v > RANGE[p][1]) { o.push(`RANGE(${v})`); return; }
			o.push(String(v === 0 ? 0 : v));
	}
}
function putOne(v: any, f: F, o: string[]) { f.ref === null ? putPrim(v, f.prim as string, o) : putEnt(v, S[f.ref], o); }
function putField(v: any, f: F, o: string[]) {
	if (f.opt) {
		if (v === undefined) { o.push("N"); return; }
		o.push("S");
	}
	if (!f.rep) { putOne(v, f, o); return; }
	if (!(v instanceof Array)) { o.push("NOTARRAY"); return; }
	o.push(String(v.length));
	v.forEach((x: any) => putOne(x, f, o));
}
function putEnt(v: any, e: E, o: string[]) {
	if (typeof v !== "object" || v === null) { o.push(`NOTOBJECT(${typeof v})`); return; }
	if (e.kind === "struct") {
		if (!(v instanceof cls(e))) { o.push("WRONGCLASS"); return; }
		e.fields.forEach((f) => putField(v[f.name], f, o));
		return;
	}
	const keys = Object.keys(v).filter((k) => v[k] !== undefined);
	if (keys.length !== 1) { o.push(`VARIANTS(${keys.join(",")})`); return; }
	const i = e.fields.findIndex((f) => f.name === keys[0]);
	if (i < 0) { o.push(`VARIANT(${keys[0]})`); return; }
	o.push(String(i));
	putField(v[keys[0]], e.fields[i], o);
}
function dumpMsg(m: any): string {
	const o: string[] = [String(m.header.id), "0", String(m.header.sequence), String(m.header.timestamp), "0"];
	let v = m.msg;
	const path: string[] = [];
	let e: E | undefined;
	while (e === undefined) {
		const keys = Object.keys(v).filter((k) => v[k] !== undefined);
		if (keys.length !== 1) { o.push(`KEYS(${path.join(".")}:${keys.join(",")})`); return o.join(" "); }
		path.push(keys[0]);
		v = v[keys[0]];
		e = S.find((x) => x.path.join(".") === path.join("."));
		if (e === undefined && path.length > 20) { o.push("DEEP"); return o.join(" "); }
	}
	o.push(path.join("."));
	putEnt(v, e, o);
	const ref = m.getRef();
	const r: string[] = [];
	putEnt(ref, e, r);
	const a: string[] = [];
	putEnt(v, e, a);
	if (r.join(" ") !== a.join(" ")) { o.push("REF " + r.join(" ")); }
	return o.join(" ") + " ";
}

// ---- recording, transforming middleware (same transform as the Rust one)
const mwLog: string[] = [];
const note = (k: string, b: any, id: number, seq: number, uuid?: string) =>
	mwLog.push(`${k} x${hex(b)} ${id} ${seq} ${uuid === undefined ? "-" : "x" + hex(enc.encode(uuid))}`);
function installMiddleware(throws: boolean) {
	const fail = (m: string) => { if (throws) { throw new Error(m); } return new Error(m); };
	class MW extends any.PackingMiddleware {
		public encode(buffer: ArrayBufferLike, id: number, seq: number, uuid?: string): any {
			note("E", buffer, id, seq, uuid);
			if (seq >>> 16 === 0xeeee) { return fail("refused"); }
			const b = Buffer.from(buffer);
			const out = Buffer.alloc(b.length + 2);
			out[0] = seq & 255;
			b.forEach((x, i) => { out[i + 1] = x ^ 0x5a; });
			out[out.length - 1] = id & 255;
			return out;
		}
		public decode(buffer: ArrayBufferLike, id: number, seq: number, uuid?: string): any {
			note("D", buffer, id, seq, uuid);
			if (seq >>> 16 === 0xdddd) { return fail("refused"); }
			const b = Buffer.from(buffer);
			if (b.length < 2 || b[0] !== (seq & 255) || b[b.length - 1] !== (id & 255)) { return fail("mangled"); }
			return Buffer.from(b.subarray(1, b.length - 1).map((x) => x ^ 0x5a));
		}
	}
	return new (MW as any)();
}

const bufs: Map<number, any> = new Map();
function same(a: any, b: any, e: E): boolean {
	const x: string[] = []; const y: string[] = [];
	putEnt(a, e, x); putEnt(b, e, y);
	return x.join(" ") === y.join(" ");
}
const BAD: any[] = [null, "text", 5, BigInt(5), true, {}, [], [null], () => 1, Symbol("x"), NaN, Infinity];
function invalid(f: F, k: string): any {
	// a value of the wrong type / out of range for the field, chosen by name
	const p = f.ref === null ? f.prim as string : "ref";
	const wrap = (v: any) => f.rep ? [v] : v;
	switch (k) {
		case "null": return null;
		case "missing": return undefined;
		case "type": {
			if (f.rep) { return p === "str" ? "x" : 7; }
			return p === "str" ? 7 : p === "ref" ? "x" : "x";
		}
		case "item": {
			if (p === "ref") { return wrap(f.rep ? "x" : 7); }
			return wrap(p === "str" ? 7 : "x");
		}
		case "late": {
			// a list whose only wrong item is far behind
			const good = p === "ref" ? cls(S[f.ref as number]).defaults() : p === "str" ? "" : p === "bool" ? true : p === "i64" || p === "u64" ? BigInt(1) : 1;
			return Array(300).fill(good).concat([p === "str" ? 7 : "x"]);
		}
		case "zero": return f.rep || p === "str" || p === "ref" || p === "bool" ? 0 : "";
		case "false": return p === "bool" && !f.rep ? "" : false;
		case "bigint": return wrap(p === "i64" || p === "u64" ? 7 : p === "str" || p === "bool" ? BigInt(7) : BigInt(7));
		case "above": return wrap(p === "u64" ? BigInt("18446744073709551616") : p === "i64" ? BigInt("9223372036854775808") : RANGE[p] ? RANGE[p][1] + 1 : null);
		case "below": return wrap(p === "u64" ? BigInt(-1) : p === "i64" ? BigInt("-9223372036854775809") : RANGE[p] ? RANGE[p][0] - 1 : null);
		case "two": {
			const e = S[f.ref as number];
			const o: any = {};
			e.fields.forEach((x) => { o[x.name] = x.ref === null ? (x.prim === "str" ? "" : x.prim === "bool" ? true : x.prim === "i64" || x.prim === "u64" ? BigInt(0) : 0) : cls(S[x.ref]).defaults(); if (x.rep) { o[x.name] = []; } });
			return o;
		}
		case "variant": {
			const e = S[f.ref as number];
			const o: any = {};
			o[e.fields[0].name] = invalid(e.fields[0], "item");
			return o;
		}
		default: throw new Error("driver: kind");
	}
}
let mw: any;
function run(cmd: string, t: T): string {
	switch (cmd) {
		case "pack": {
			const e = S[t.n()]; const seq = t.n(); const u = t.s();
			const v = getEnt(t, e, true);
			const uuid = u === "-" ? undefined : Buffer.from(u.slice(1), "hex").toString("utf8");
			try {
				return "OK " + hex(v.pack(seq, uuid));
			} catch (err) { return "ERR " + String(err).replace(/\s+/g, " ").slice(0, 200); }
		}
		case "from": {
			// plain object -> from() -> pack
			const e = S[t.n()]; const seq = t.n();
			if (e.kind === "struct") {
				const o = getEnt(t, e, false, true);
				const keys = Object.keys(o).filter((k) => o[k] === undefined);
				if (seq & 1) { keys.forEach((k) => delete o[k]); } // absent and undefined mean the same
				const m = cls(e).from(o);
				if (m instanceof Error) { return "REFUSED " + m.message.replace(/\s+/g, " ").slice(0, 200); }
				const out: string[] = [];
				putEnt(m, e, out);
				return "OK " + hex(m.pack(seq)) + " | " + out.join(" ");
			}
			const o = getEnt(t, e, false);
			const m = cls(e).from(o);
			if (m instanceof Error) { return "REFUSED " + m.message.replace(/\s+/g, " ").slice(0, 200); }
			const out: string[] = [];
			putEnt(m, e, out);
			const inst = new (cls(e))();
			const err = inst.set(m);
			if (err instanceof Error) { return "REFUSED set"; }
			return "OK " + hex(inst.pack(seq)) + " | " + out.join(" ");
		}
		case "frombytes": {
			const e = S[t.n()]; const how = t.s(); const b = Buffer.from(t.s().slice(1), "hex");
			const src: any = how === "b" ? b : how === "u" ? new Uint8Array(b) : new Uint8Array(b).buffer;
			const m = cls(e).from(src);
			if (m instanceof Error) { return "REFUSED " + m.message.replace(/\s+/g, " ").slice(0, 200); }
			const out: string[] = [];
			putEnt(m, e, out);
			return "OK " + out.join(" ");
		}
		case "frombad": {
			const e = S[t.n()]; const fi = t.n(); const kind = t.s();
			const o = getEnt(t, e, false, true);
			if (e.kind === "struct") {
				const f = e.fields[fi];
				if (kind === "missing") { delete o[f.name]; } else { o[f.name] = invalid(f, kind); }
			}
			const m = cls(e).from(o);
			return m instanceof Error ? "REFUSED" : "ACCEPTED";
		}
		case "new": { bufs.set(t.n(), new any.BufferReaderMessages()); return "OK"; }
		case "chunk": {
			const b = bufs.get(t.n()); const u = t.s(); const how = t.s();
			const raw = Buffer.from(how.slice(1), "hex");
			const uuid = u === "-" ? undefined : Buffer.from(u.slice(1), "hex").toString("utf8");
			// three ways a transport hands bytes over: Buffer, Uint8Array, exact ArrayBuffer
			const src: any = how[0] === "b" ? raw : how[0] === "u" ? new Uint8Array(raw) : new Uint8Array(raw).buffer;
			const r = b.chunk(src, uuid);
			if (r === undefined) { return "OK"; }
			if (!(r instanceof Array) || r.length === 0 || !r.every((x: any) => x instanceof Error)) { return "BADRESULT"; }
			return "ERR " + r.length;
		}
		case "next": { const m = bufs.get(t.n()).next(); return m === undefined ? "NONE" : "MSG " + dumpMsg(m); }
		case "drain": {
			const b = bufs.get(t.n()); let o = "D";
			for (let m = b.next(); m !== undefined; m = b.next()) { o += "|" + dumpMsg(m); }
			return o;
		}
		case "stat": { const b = bufs.get(t.n()); return `${b.len()} ${b.pending()}`; }
		case "destroy": { bufs.get(t.n()).destroy(); return "OK"; }
		case "drop": { bufs.delete(t.n()); return "OK"; }
		case "hash": return any.hash();
		case "ids": return S.map((e) => `${e.path.join(".")}=${cls(e).getId()}`).join(" ");
		case "install": { const k = t.s(); const w = console.warn; console.warn = () => 0; mw = installMiddleware(k === "throw"); console.warn = w; return "OK"; }
		case "mw": return "M|" + mwLog.splice(0, mwLog.length).join("|");
		default: throw new Error("driver: command");
	}
}
const limit = 96 << 20;
const lines = readFileSync(0, "utf8").split("\n");
const outp: string[] = [];
const flush = () => {
	let s = outp.splice(0, outp.length).join("");
	let b = Buffer.from(s, "utf8"); let p = 0;
	while (p < b.length) { try { p += writeSync(1, b, p); } catch (e: any) { if (e.code !== "EAGAIN") { throw e; } } }
};
for (const l of lines) {
	if (l === "") { continue; }
	const a = l.split(" ").filter((x) => x !== "");
	const cmd = a.shift() as string;
	let r: string;
	const before = process.memoryUsage().external;
	try {
		r = run(cmd, new T(a));
	} catch (e) {
		const s = e instanceof Error ? String(e.stack).split("\n").slice(0, 3).join(" ") : String(e);
		if (s.indexOf("driver:") >= 0) { flush(); throw e; }
		r = "PANICMSG 0 " + s.replace(/\s+/g, " ") + "\nPANIC";
	}
	outp.push(r + "\n");
	const big = process.memoryUsage().external - before;
	if (big > limit + 64 * l.length) { outp.push(`ALLOC ${big}\n`); flush(); process.exit(7); }
	if (outp.length > 200) { flush(); }
	// before anything that may hang, what is known must be out
	else if (cmd === "chunk" || cmd === "frombytes") { flush(); }
}
flush();
