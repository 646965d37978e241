// What generated code uses of the npm package clibri (which is not available here): interfaces of
// transports, a synchronous subject, options and a logger that records what it is told.
export class Subscription {
	constructor(private name: string, private unsubscribe: () => void) {}
	public destroy(): void { this.unsubscribe(); }
	public getName(): string { return this.name; }
}
export class Subject<T> {
	private handlers: Array<(v: T) => any> = [];
	constructor(private name: string = "") {}
	public subscribe(handler: (v: T) => any): Subscription {
		this.handlers.push(handler);
		return new Subscription(this.name, () => { this.handlers = this.handlers.filter((h) => h !== handler); });
	}
	public emit(v: T): void { this.handlers.slice().forEach((h) => h(v)); }
	public destroy(): void { this.handlers = []; }
	public get(): Subject<T> { return this; }
}
let n = 0;
export function guid(): string { n += 1; return `guid-${n}-${Date.now().toString(36)}`; }
export function globals(): any | Error { return globalThis; }

export enum ELogLevel { verb, debug, info, warn, err }
export const records: string[] = [];
export class Logger {
	constructor(protected alias: string = "") {}
	private add(l: string, m: string): string { records.push(`${l} ${this.alias}: ${m}`); if (records.length > 20000) { records.splice(0, 10000); } return m; }
	public verb(m: string): string { return this.add("verb", m); }
	public debug(m: string): string { return this.add("debug", m); }
	public info(m: string): string { return this.add("info", m); }
	public warn(m: string): string { return this.add("warn", m); }
	public err(m: string): string { return this.add("err", m); }
	public clone(alias: string): Logger { return new Logger(`${this.alias}/${alias}`); }
	public static setGlobalLevel(_: ELogLevel): void {}
}
export class DefaultLogger extends Logger {}

export enum ConsumerErrorHandelingStrategy { Ignore = "Ignore", Log = "Log", EmitError = "EmitError", Disconnect = "Disconnect", EmitErrorAndDisconnect = "EmitErrorAndDisconnect" }
export enum ProducerIdentificationStrategy { Ignore = "Ignore", Log = "Log", EmitError = "EmitError", Disconnect = "Disconnect", EmitErrorAndDisconnect = "EmitErrorAndDisconnect" }
export interface IOptions {
	logger?: Logger;
	consumerErrorHandelingStrategy?: ConsumerErrorHandelingStrategy;
	producerIndentificationStrategy?: ProducerIdentificationStrategy;
}
export class Options {
	public readonly logger: Logger;
	public readonly consumerErrorHandelingStrategy: ConsumerErrorHandelingStrategy;
	public readonly producerIndentificationStrategy: ProducerIdentificationStrategy;
	constructor(o: IOptions) {
		this.logger = o.logger === undefined ? new DefaultLogger("") : o.logger;
		this.consumerErrorHandelingStrategy = o.consumerErrorHandelingStrategy === undefined ? ConsumerErrorHandelingStrategy.Log : o.consumerErrorHandelingStrategy;
		this.producerIndentificationStrategy = o.producerIndentificationStrategy === undefined ? ProducerIdentificationStrategy.Log : o.producerIndentificationStrategy;
	}
}

export interface IClientEvents { connected: Subject<void>; disconnected: Subject<void>; error: Subject<Error>; data: Subject<ArrayBufferLike>; }
export abstract class Client {
	public abstract getEvents(): IClientEvents;
	public abstract send(buffer: ArrayBufferLike): Error | undefined;
	public abstract destroy(): Promise<void>;
}
export interface IServerError { uuid: string | undefined; error: Error; }
export interface IServerReceivedEvent { uuid: string; buffer: ArrayBufferLike; }
export interface IServerEvents {
	ready: Subject<void>; shutdown: Subject<void>; connected: Subject<string>; disconnected: Subject<string>;
	error: Subject<IServerError>; received: Subject<IServerReceivedEvent>;
}
export abstract class Server {
	public abstract getEvents(): IServerEvents;
	public abstract listen(): Promise<void>;
	public abstract send(buffer: ArrayBufferLike, uuid: string): Promise<void>;
	public abstract disconnect(uuid: string): Promise<void>;
	public abstract shutdown(): Promise<void>;
}
