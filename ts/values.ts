import { readSync } from "fs";
// Token text <-> values of a generated TypeScript protocol (same text as the Rust drivers).
export interface F { name: string; id: number; prim: string | null; ref: number | null; rep: boolean; opt: boolean }
export interface E { kind: string; path: string[]; id: number; fields: F[] }

// the commands, read one by one: before waiting for more of them everything is reported
export function* commands(flush: () => void): Generator<string> {
	const b = Buffer.alloc(1 << 16);
	let s = "";
	for (;;) {
		let n: number;
		flush();
		try { n = readSync(0, b, 0, b.length, null); } catch (e: any) { if (e.code === "EAGAIN") { continue; } if (e.code === "EOF") { n = 0; } else { throw e; } }
		if (n === 0) { break; }
		s += b.toString("latin1", 0, n);
		const l = s.split("\n");
		s = l.pop() as string;
		yield* l;
	}
	if (s !== "") { yield s; }
}

export class T {
	private i = 0;
	private a: string[];
	constructor(a: string[] | string) { this.a = typeof a === "string" ? a.split(" ").filter((x) => x !== "") : a; }
	s(): string {
		if (this.i >= this.a.length) { throw new Error("driver: missing token"); }
		return this.a[this.i++];
	}
	n(): number { return Number(this.s()); }
	some(): boolean { return this.s() === "S"; }
	rest(): string { return this.a.slice(this.i).join(" "); }
}
export const hex = (b: any): string => Buffer.from(b).toString("hex");
const dv = new DataView(new ArrayBuffer(8));
const dec = new TextDecoder("utf-8", { ignoreBOM: true });
const enc = new TextEncoder();
const RANGE: any = { i8: [-128, 127], u8: [0, 255], i16: [-32768, 32767], u16: [0, 65535], i32: [-2147483648, 2147483647], u32: [0, 4294967295] };

export class Values {
	constructor(private any: any, public S: E[]) {}
	cls(e: E): any { return e.path.reduce((o: any, n: string) => o[n], this.any); }
	find(ref: string): E {
		const e = this.S.find((x) => x.path.join(".") === ref);
		if (e === undefined) { throw new Error("driver: no entity " + ref); }
		return e;
	}
	private getPrim(t: T, p: string): any {
		const x = t.s();
		switch (p) {
			case "bool": return x === "1";
			case "str": return dec.decode(Buffer.from(x.slice(1), "hex"));
			case "f32": dv.setUint32(0, parseInt(x.slice(1), 16)); return dv.getFloat32(0);
			case "f64": dv.setBigUint64(0, BigInt("0x" + x.slice(1))); return dv.getFloat64(0);
			case "i64": case "u64": return BigInt(x);
			default: return Number(x);
		}
	}
	private getOne(t: T, f: F): any { return f.ref === null ? this.getPrim(t, f.prim as string) : this.getEnt(t, this.S[f.ref], false); }
	private getField(t: T, f: F): any {
		if (f.opt && t.s() === "N") { return undefined; }
		if (!f.rep) { return this.getOne(t, f); }
		const n = t.n();
		const o: any[] = [];
		for (let i = 0; i < n; i += 1) { o.push(this.getOne(t, f)); }
		return o;
	}
	getEnt(t: T, e: E, asMessage: boolean): any {
		const o: any = {};
		if (e.kind === "struct") {
			e.fields.forEach((f) => { o[f.name] = this.getField(t, f); });
			return new (this.cls(e))(o);
		}
		const i = t.n();
		o[e.fields[i].name] = this.getField(t, e.fields[i]);
		if (!asMessage) { return o; }
		const inst = new (this.cls(e))();
		const err = inst.set(o);
		if (err instanceof Error) { throw err; }
		return inst;
	}
	get(t: T, ref: string): any { return this.getEnt(t, this.find(ref), true); }
	put(v: any, ref: string): string { const o: string[] = []; this.putEnt(v, this.find(ref), o); return o.join(" "); }
	private putPrim(v: any, p: string, o: string[]) {
		const want = p === "bool" ? "boolean" : p === "str" ? "string" : p === "i64" || p === "u64" ? "bigint" : "number";
		if (typeof v !== want) { o.push(`WRONGTYPE(${p}:${v === null ? "null" : typeof v})`); return; }
		switch (p) {
			case "bool": o.push(v ? "1" : "0"); return;
			case "str": o.push("s" + hex(enc.encode(v))); return;
			case "f32": dv.setFloat32(0, v); o.push("x" + (isNaN(v) ? 0x7fc00000 : dv.getUint32(0)).toString(16)); return;
			case "f64": dv.setFloat64(0, v); o.push("x" + (isNaN(v) ? "7ff8000000000000" : dv.getBigUint64(0).toString(16))); return;
			case "i64": case "u64": o.push(v.toString()); return;
			default:
				if (!Number.isInteger(v) || v < RANGE[p][0] || v > RANGE[p][1]) { o.push(`RANGE(${v})`); return; }
				o.push(String(v === 0 ? 0 : v));
		}
	}
	private putOne(v: any, f: F, o: string[]) { f.ref === null ? this.putPrim(v, f.prim as string, o) : this.putEnt(v, this.S[f.ref], o); }
	private putField(v: any, f: F, o: string[]) {
		if (f.opt) {
			if (v === undefined) { o.push("N"); return; }
			o.push("S");
		}
		if (!f.rep) { this.putOne(v, f, o); return; }
		if (!(v instanceof Array)) { o.push("NOTARRAY"); return; }
		o.push(String(v.length));
		v.forEach((x: any) => this.putOne(x, f, o));
	}
	putEnt(v: any, e: E, o: string[]) {
		if (typeof v !== "object" || v === null) { o.push(`NOTOBJECT(${typeof v})`); return; }
		if (e.kind === "struct") {
			if (!(v instanceof this.cls(e))) { o.push("WRONGCLASS"); return; }
			e.fields.forEach((f) => this.putField(v[f.name], f, o));
			return;
		}
		const keys = Object.keys(v).filter((k) => v[k] !== undefined);
		if (keys.length !== 1) { o.push(`VARIANTS(${keys.join(",")})`); return; }
		const i = e.fields.findIndex((f) => f.name === keys[0]);
		if (i < 0) { o.push(`VARIANT(${keys[0]})`); return; }
		o.push(String(i));
		this.putField(v[keys[0]], e.fields[i], o);
	}
}
