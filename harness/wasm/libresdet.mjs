// Stands in for the module Emscripten generates: the runtime methods resdet.mts uses, over an allocator which keeps accounts.
import { readFileSync } from 'fs';
export const monitor = { live: new Map(), bytes: 0, errors: [], allocs: 0, failAt: -1, grows: 0, rand: () => 1, calls: 0 };
const RZ = 16, MAGIC = 0xA5;
let depth = 0, memory, brk, quarantine = [], free = new Map();
const u8 = () => new Uint8Array(memory.buffer);
function raw(size) {
	const total = (size + 2*RZ + 15) & ~15, l = free.get(total);
	if(l && l.length) return [l.pop(), total];
	while(brk + total > memory.buffer.byteLength)
		try { memory.grow(Math.max(16, Math.ceil((brk + total - memory.buffer.byteLength)/65536))); monitor.grows++; } catch { return [0, 0]; }
	const p = brk; brk += total; return [p, total];
}
function malloc(size) {
	size >>>= 0;
	monitor.allocs++;
	if(monitor.failAt === 0) { monitor.failed = true; return 0; }
	if(monitor.failAt > 0) monitor.failAt--;
	if(size > (1 << 29)) return 0;
	if(monitor.rand() < (depth ? .0004 : .08) && memory.buffer.byteLength < 0x30000000) try { memory.grow(1); monitor.grows++; } catch { }
	const [p, total] = raw(size);
	if(!p) return 0;
	const m = u8(); m.fill(MAGIC, p, p + total); m.fill(0xCB, p + RZ, p + RZ + size);
	monitor.live.set(p + RZ, { size, total }); monitor.bytes += size;
	return p + RZ;
}
function intact(p, b) {
	const m = u8();
	for(let i = p - RZ; i < p; i++) if(m[i] !== MAGIC) return false;
	for(let i = p + b.size; i < p - RZ + b.total; i++) if(m[i] !== MAGIC) return false;
	return true;
}
function release(p) {
	p >>>= 0;
	if(!p) return;
	const b = monitor.live.get(p);
	if(!b) { monitor.errors.push(`free of ${p}, which is not allocated`); return; }
	if(!intact(p, b)) monitor.errors.push(`written outside a block of ${b.size} bytes`);
	monitor.live.delete(p); monitor.bytes -= b.size;
	u8().fill(0xDD, p - RZ, p - RZ + b.total);
	quarantine.push([p, b.total]);
	while(quarantine.length > 100) {
		const [q, t] = quarantine.shift(), m = u8();
		for(let i = q - RZ; i < q - RZ + t; i++) if(m[i] !== 0xDD) { monitor.errors.push('written to after it was freed'); break; }
		if(!free.has(t)) free.set(t, []);
		free.get(t).push(q - RZ);
	}
}
monitor.free = release;
// memory which the allocator does not use
monitor.reserve = pages => { const p = memory.grow(pages)*65536; brk = p + pages*65536; return p; };
monitor.check = () => { for(const [p, b] of monitor.live) if(!intact(p, b)) monitor.errors.push(`written outside a live block of ${b.size} bytes`); };
const env = {
	malloc, free: release,
	calloc: (n, s) => { n >>>= 0; s >>>= 0; if(n*s > 0xffffffff) return 0; const p = malloc(n*s); if(p) u8().fill(0, p, p + n*s); return p; },
	realloc: (p, s) => { p >>>= 0; s >>>= 0; if(!p) return malloc(s); const q = malloc(s); if(q) { const o = monitor.live.get(p); u8().copyWithin(q, p, p + Math.min(s, o ? o.size : 0)); release(p); } return q; },
};
for(const f of ['cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log2', 'log10', 'pow', 'atan2', 'hypot']) env[f] = env[f + 'f'] = Math[f];
env.round = env.roundf = x => x < 0 ? -Math.round(-x) : Math.round(x);
env.lround = env.round; env.fmod = env.fmodf = (a, b) => a % b; env.fmin = env.fminf = Math.min; env.fmax = env.fmaxf = Math.max; env.exp2 = env.exp2f = x => 2**x;
env.rint = env.rintf = env.nearbyint = x => { const r = Math.round(x); return Math.abs(x % 1) === .5 && r % 2 ? r - 1 : r; };
export let exports_;
export default async function initModule() {
	const bytes = readFileSync(new URL('./libresdet.wasm', import.meta.url)), mod = new WebAssembly.Module(bytes), imports = {};
	for(const { module, name } of WebAssembly.Module.imports(mod)) (imports[module] ??= {})[name] = env[name] ?? (() => { throw new Error(`HARNESS: ${name} is not provided`); });
	const ex = exports_ = new WebAssembly.Instance(mod, imports).exports;
	memory = ex.memory; brk = (ex.__heap_base.value + 15) & ~15;
	const str = p => { if(!p) return ''; const m = u8(); let e = p; while(m[e]) e++; return new TextDecoder().decode(m.subarray(p, e)); };
	const Module = {
		_malloc: malloc, _free: release, UTF8ToString: str,
		get HEAPF32() { return new Float32Array(memory.buffer); }, get HEAPU8() { return u8(); }, get HEAP32() { return new Int32Array(memory.buffer); }, get HEAPU32() { return new Uint32Array(memory.buffer); },
		getValue(p, type = 'i8') {
			const d = new DataView(memory.buffer);
			if(type.endsWith('*')) return d.getUint32(p, true);
			switch(type) { case 'i1': case 'i8': return d.getInt8(p); case 'i16': return d.getInt16(p, true); case 'i32': return d.getInt32(p, true); case 'i64': return d.getBigInt64(p, true); case 'float': return d.getFloat32(p, true); case 'double': return d.getFloat64(p, true); }
			throw new Error('getValue of type ' + type);
		},
		setValue(p, v, type = 'i8') {
			const d = new DataView(memory.buffer);
			if(type.endsWith('*')) return d.setUint32(p, v, true);
			switch(type) { case 'i8': return d.setInt8(p, v); case 'i32': return d.setInt32(p, v, true); case 'float': return d.setFloat32(p, v, true); case 'double': return d.setFloat64(p, v, true); }
			throw new Error('setValue of type ' + type);
		},
		cwrap(name, ret, types) {
			return (...args) => {
				monitor.calls++;
				const sp = ex.__stack_pointer.value;
				const conv = args.map((a, i) => {
					if(types[i] !== 'string' || a === null || a === undefined || a === 0) return a;
					const b = new TextEncoder().encode(a + '\0'), p = (ex.__stack_pointer.value - b.length) & ~15;
					ex.__stack_pointer.value = p; u8().set(b, p); return p;
				});
				let r;
				depth++; try { r = ex[name](...conv); } finally { depth--; }
				ex.__stack_pointer.value = sp;
				return ret === 'string' ? str(r >>> 0) : ret === 'boolean' ? !!r : r;
			};
		},
	};
	Module.ccall = (n, ret, types, args) => Module.cwrap(n, ret, types)(...args);
	return Module;
}
