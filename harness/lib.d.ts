// The parts of the standard library that generated code may use, declared as TypeScript 4 (the version the project
// is developed with) declares them. Later versions make buffers generic.
interface Array<T> { length: number; [n: number]: T; push(...items: T[]): number; fill(value: T): this; map<U>(f: (x: T, i: number) => U): U[];
  [Symbol.iterator](): IterableIterator<T>; }
interface ReadonlyArray<T> { readonly length: number; readonly [n: number]: T; [Symbol.iterator](): IterableIterator<T>; }
interface ArrayConstructor { new <T = any>(n?: number): T[]; <T = any>(n?: number): T[]; isArray(x: any): x is any[]; }
declare var Array: ArrayConstructor;
interface Boolean { valueOf(): boolean; }
interface CallableFunction extends Function {}
interface NewableFunction extends Function {}
interface Function { readonly name: string; readonly length: number; }
interface IArguments { length: number; }
interface Number { toString(radix?: number): string; valueOf(): number; }
interface NumberConstructor { new (x?: any): Number; (x?: any): number; readonly MAX_SAFE_INTEGER: number; isFinite(x: unknown): boolean; isNaN(x: unknown): boolean; }
declare var Number: NumberConstructor;
interface Object { constructor: Function; toString(): string; toLocaleString(): string; valueOf(): Object; hasOwnProperty(v: PropertyKey): boolean; }
interface ObjectConstructor { new (x?: any): Object; (x: any): any; is(a: any, b: any): boolean; keys(o: {}): string[]; prototype: Object; }
declare var Object: ObjectConstructor;
declare type PropertyKey = string | number | symbol;
interface RegExp { test(s: string): boolean; }
interface String { readonly length: number; charCodeAt(i: number): number; valueOf(): string; [Symbol.iterator](): IterableIterator<string>; }
interface StringConstructor { (x?: any): string; }
declare var String: StringConstructor;
interface Symbol { toString(): string; }
interface SymbolConstructor { readonly iterator: unique symbol; }
declare var Symbol: SymbolConstructor;
interface IteratorYieldResult<T> { done?: false; value: T; }
interface IteratorReturnResult<T> { done: true; value: T; }
type IteratorResult<T, R = any> = IteratorYieldResult<T> | IteratorReturnResult<R>;
interface Iterator<T, R = any, N = undefined> { next(...args: [] | [N]): IteratorResult<T, R>; }
interface Iterable<T> { [Symbol.iterator](): Iterator<T>; }
interface IterableIterator<T> extends Iterator<T> { [Symbol.iterator](): IterableIterator<T>; }
interface BigInt { toString(radix?: number): string; valueOf(): bigint; }
interface BigIntConstructor { (x: bigint | boolean | number | string): bigint; asIntN(bits: number, x: bigint): bigint; asUintN(bits: number, x: bigint): bigint; }
declare var BigInt: BigIntConstructor;
interface ArrayBuffer { readonly byteLength: number; slice(begin: number, end?: number): ArrayBuffer; }
interface ArrayBufferConstructor { new (n: number): ArrayBuffer; isView(x: any): x is ArrayBufferView; }
declare var ArrayBuffer: ArrayBufferConstructor;
type ArrayBufferLike = ArrayBuffer;
interface ArrayBufferView { buffer: ArrayBufferLike; byteLength: number; byteOffset: number; }
interface DataView { readonly buffer: ArrayBuffer; readonly byteLength: number; readonly byteOffset: number;
  getFloat64(o: number, le?: boolean): number; getUint8(o: number): number; getUint16(o: number, le?: boolean): number; getUint32(o: number, le?: boolean): number;
  getBigInt64(o: number, le?: boolean): bigint; getBigUint64(o: number, le?: boolean): bigint; getInt8(o: number): number; getInt16(o: number, le?: boolean): number;
  getInt32(o: number, le?: boolean): number; setFloat64(o: number, v: number, le?: boolean): void; setUint8(o: number, v: number): void;
  setUint16(o: number, v: number, le?: boolean): void; setUint32(o: number, v: number, le?: boolean): void; setBigInt64(o: number, v: bigint, le?: boolean): void;
  setBigUint64(o: number, v: bigint, le?: boolean): void; }
interface DataViewConstructor { new (b: ArrayBufferLike, o?: number, n?: number): DataView; }
declare var DataView: DataViewConstructor;
interface TypedArray_<T> { readonly buffer: ArrayBufferLike; readonly byteLength: number; readonly byteOffset: number; readonly length: number; [i: number]: T;
  set(a: ArrayLike<T>, o?: number): void; fill(v: T, a?: number, b?: number): this; subarray(a?: number, b?: number): this; slice(a?: number, b?: number): this; }
interface ArrayLike<T> { readonly length: number; readonly [n: number]: T; }
interface TypedArrayConstructor_<A, T> { new (n: number): A; new (a: ArrayLike<T> | ArrayBufferLike): A; new (b: ArrayBufferLike, o?: number, n?: number): A; }
interface Int8Array extends TypedArray_<number> { readonly t_: 'Int8Array'; }
interface Uint8Array extends TypedArray_<number> { readonly t_: 'Uint8Array'; }
interface Uint8ClampedArray extends TypedArray_<number> { readonly t_: 'Uint8ClampedArray'; }
interface Int16Array extends TypedArray_<number> { readonly t_: 'Int16Array'; }
interface Uint16Array extends TypedArray_<number> { readonly t_: 'Uint16Array'; }
interface Int32Array extends TypedArray_<number> { readonly t_: 'Int32Array'; }
interface Uint32Array extends TypedArray_<number> { readonly t_: 'Uint32Array'; }
interface Float32Array extends TypedArray_<number> { readonly t_: 'Float32Array'; }
interface Float64Array extends TypedArray_<number> { readonly t_: 'Float64Array'; }
interface BigInt64Array extends TypedArray_<bigint> { readonly t_: 'BigInt64Array'; }
interface BigUint64Array extends TypedArray_<bigint> { readonly t_: 'BigUint64Array'; }
declare var Int8Array: TypedArrayConstructor_<Int8Array, number>;
declare var Uint8Array: TypedArrayConstructor_<Uint8Array, number>;
declare var Uint8ClampedArray: TypedArrayConstructor_<Uint8ClampedArray, number>;
declare var Int16Array: TypedArrayConstructor_<Int16Array, number>;
declare var Uint16Array: TypedArrayConstructor_<Uint16Array, number>;
declare var Int32Array: TypedArrayConstructor_<Int32Array, number>;
declare var Uint32Array: TypedArrayConstructor_<Uint32Array, number>;
declare var Float32Array: TypedArrayConstructor_<Float32Array, number>;
declare var Float64Array: TypedArrayConstructor_<Float64Array, number>;
declare var BigInt64Array: TypedArrayConstructor_<BigInt64Array, bigint>;
declare var BigUint64Array: TypedArrayConstructor_<BigUint64Array, bigint>;
interface Error { name: string; message: string; stack?: string; }
interface ErrorConstructor { new (m?: string): Error; (m?: string): Error; }
declare var Error: ErrorConstructor;
interface RangeError extends Error {}
interface RangeErrorConstructor extends ErrorConstructor { new (m?: string): RangeError; }
declare var RangeError: RangeErrorConstructor;
interface TextEncoder { encode(s?: string): Uint8Array; encodeInto(s: string, b: Uint8Array): { read?: number; written?: number }; }
declare var TextEncoder: { new (): TextEncoder };
interface TextDecoder { decode(b?: ArrayBufferView | ArrayBuffer): string; }
declare var TextDecoder: { new (l?: string, o?: { fatal?: boolean; ignoreBOM?: boolean }): TextDecoder };
interface Math { min(...x: number[]): number; max(...x: number[]): number; floor(x: number): number; clz32(x: number): number; log2(x: number): number; }
declare var Math: Math;
declare var NaN: number;
declare var Infinity: number;
declare function isNaN(x: number): boolean;
interface PromiseLike<T> {}
interface Promise<T> {}
interface JSON { parse(s: string): any; stringify(x: any): string; }
declare var JSON: JSON;
type Partial<T> = { [P in keyof T]?: T[P] };
type Readonly<T> = { readonly [P in keyof T]: T[P] };
type Record<K extends keyof any, T> = { [P in K]: T };
type Exclude<T, U> = T extends U ? never : T;
type Extract<T, U> = T extends U ? T : never;
type Omit<T, K extends keyof any> = { [P in Exclude<keyof T, K>]: T[P] };
type Pick<T, K extends keyof T> = { [P in K]: T[P] };
