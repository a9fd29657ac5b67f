// C25: the JavaScript bindings against the C interface of the library built for wasm32.
import { createHash } from 'crypto';
import { readFileSync, writeFileSync, appendFileSync, openSync, writeSync, ftruncateSync, existsSync } from 'fs';
const o = { first: 0, count: 0, step: 1, seed: 1, prop: '', mode: '', tier: 'quick' };
for(const a of process.argv.slice(2)) { const e = a.indexOf('='); o[e < 0 ? a : a.slice(0, e)] = e < 0 ? true : a.slice(e + 1); }
const first = +o.first, count = +o.count, step = +o.step;
const emit = s => o.out ? appendFileSync(o.out, s + '\n') : console.log(s);
let prog = o.progress ? openSync(o.progress, 'w+') : -1; if(prog >= 0) ftruncateSync(prog, 4016);
const hdr = Buffer.alloc(16);
let text = '', cur = 0, counters = {}, distinct = [], samples = [], nviol = {};
const add = (k, n = 1) => counters[k] = (counters[k] ?? 0) + n;
const clean = s => String(s).replace(/[\n\t]/g, ' ');
function state(active) { hdr.writeBigUInt64LE(BigInt(cur), 0); hdr.writeBigUInt64LE(BigInt(active), 8); if(prog >= 0) writeSync(prog, hdr, 0, 16, 0); }
function what(s) { text = clean(s); if(prog >= 0) writeSync(prog, Buffer.from(text.slice(0, 3000) + '\0'), 0, undefined, 16); }
function fail(key, msg) { nviol[key] = (nviol[key] ?? 0) + 1; if(nviol[key] <= 6) emit(`V\t${key}\t${cur}\t${clean(msg).slice(0, 2500)} [case: ${text}]`); }
// random numbers
let rs;
function seed(s) { const h = createHash('sha256').update(s).digest(); rs = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12)]; }
function next() { let t = rs[3], s = rs[0]; rs[3] = rs[2]; rs[2] = rs[1]; rs[1] = s; t ^= t << 11; t ^= t >>> 8; rs[0] = (t ^ s ^ (s >>> 19)) >>> 0; return rs[0]; }
const rnd = () => next() / 4294967296, below = n => Math.floor(rnd() * n), int = (a, b) => a + below(b - a + 1), pick = l => l[below(l.length)], chance = p => rnd() < p;

const { monitor } = await import(o.dir + '/libresdet.mjs');
const rd = await import(o.dir + '/resdet.mjs');
const { exports_: x } = await import(o.dir + '/libresdet.mjs');
monitor.rand = rnd;
const dv = () => new DataView(x.memory.buffer);
const cstr = p => { const m = new Uint8Array(x.memory.buffer); let e = p; while(m[e]) e++; return Buffer.from(m.subarray(p, e)).toString(); };

// ---- the C interface. Scratch memory of the oracle is taken from an own page so that it does not count.
const PAGES = 128, page = monitor.reserve(PAGES);
let top = page;
const take = n => { const p = top; top += (n + 15) & ~15; if(top > page + PAGES * 65536) throw new Error('HARNESS: scratch exhausted'); return p; };
const reset = () => top = page;
function results(rwp) {
	const d = dv(), l = (pp, cp) => { const p = d.getUint32(pp, true), n = d.getUint32(cp, true), a = []; for(let i = 0; i < n; i++) a.push([d.getUint32(p + 8 * i, true), d.getFloat32(p + 8 * i + 4, true)]); if(p) release(p); return a; };
	return [l(rwp, rwp + 4), l(rwp + 8, rwp + 12)];
}
const release = monitor.free;
function methodPtr(name) { if(name === null) return 0; const p = take(32); const b = Buffer.from(name + '\0'); new Uint8Array(x.memory.buffer).set(b, p); return x.resdet_get_method(p) >>> 0; }
function paramPtr(p) {
	// error, pointer
	if(!Object.keys(p).length) return [0, 0];
	const q = x.resdet_alloc_default_parameters() >>> 0; let e = 0;
	if(p.range < 0 || p.range > 0xffffffff || p.compression_filter < 0 || p.compression_filter > 255) return [RDEPARAM, q]; // no library call can express these
	if('range' in p) e ||= x.resdet_parameters_set_range(q, p.range);
	if('threshold' in p) e ||= x.resdet_parameters_set_threshold(q, p.threshold);
	if('compression_filter' in p) e ||= x.resdet_parameters_set_compression_filter(q, p.compression_filter);
	return [e, q];
}
function put(a) { const p = take(a.length * 4); new Float32Array(x.memory.buffer, p, a.length).set(a); return p; }
function oracle(img, n, w, h, method, params) {
	const [pe, pp] = paramPtr(params); if(pe) { release(pp); return [pe]; }
	const r = take(16), e = x.resdetect(put(img), n, w, h, r, r + 4, r + 8, r + 12, methodPtr(method), pp);
	if(pp) release(pp);
	if(e) return [e];
	return [0, ...results(r)];
}
const list = l => l.map(q => [q.index, q.confidence]);
const same = (a, b) => a.length === b.length && a.every((v, i) => v[0] === b[i][0] && Object.is(v[1], b[i][1]));
function expectError(where, e, err) {
	add('errors_expected');
	if(!err) return fail('no-error:' + where, `nothing thrown for error ${e}`);
	if(!(err instanceof rd.RDError) || err.rderror !== e || err.message !== cstr(x.resdet_error_str(e))) fail('error:' + where, `thrown for error ${e}: ${err.constructor?.name} ${err.rderror} ${err.message}`);
}
function compare(where, want, got, err) {
	if(want[0]) return expectError(where, want[0], err);
	if(err) return fail('threw:' + where, `${err.constructor?.name}: ${err.message} ${err.stack?.slice(0, 300)}`);
	add('results_compared'); add('entries', want[1].length + want[2].length);
	const a = list(got.widths), b = list(got.heights);
	if(!same(a, want[1]) || !same(b, want[2])) fail('results:' + where, `widths ${JSON.stringify(a.slice(0, 6))} heights ${JSON.stringify(b.slice(0, 6))} (${a.length}, ${b.length}), the library's are ${JSON.stringify(want[1].slice(0, 6))} ${JSON.stringify(want[2].slice(0, 6))} (${want[1].length}, ${want[2].length})`);
	for(const q of [...got.widths, ...got.heights]) if(!(q instanceof rd.Resolution)) fail('type', `${q}`);
}
const attempt = f => { try { return [f(), null]; } catch(e) { if(/HARNESS/.test(e.message)) throw e; return [undefined, e]; } };
const RDEPARAM = 6; const METHODS = (() => { const r = []; let p = x.resdet_methods() >>> 0; for(; dv().getUint32(p, true); p += 12) r.push([cstr(dv().getUint32(p, true)), dv().getFloat32(p + 8, true), p]); return r; })();

function picture() {
	const k = rnd();
	if(k < .5) {
		const [fw, fh] = pick([[2, 2], [2, 1], [1, 2], [3, 2], [1, 1]]), sw = int(13, 40), sh = int(13, 40), s = Float32Array.from({ length: sw * sh }, rnd), w = sw * fw, h = sh * fh, a = new Float32Array(w * h);
		for(let y = 0; y < h; y++) for(let z = 0; z < w; z++) a[y * w + z] = s[Math.floor(y / fh) * sw + Math.floor(z / fw)];
		return { w, h, a, sw, sh, fw, fh };
	}
	const [w, h] = pick([[int(1, 8), int(1, 8)], [int(1, 70), int(1, 70)], [1, int(1, 90)], [int(1, 90), 1], [int(100, 300), int(100, 300)]]);
	if(chance(.003)) { const l = pick([32769, 34000, 36000, 40000, 66000]); return { ...(chance(.5) ? { w: l, h: int(1, 3) } : { w: int(1, 3), h: l }), get a() { return Float32Array.from({ length: this.w * this.h }, rnd); } }; }
	return { w, h, a: Float32Array.from({ length: w * h }, rnd) };
}
function randomParams(valid) {
	const d = {};
	if(chance(.6)) d.range = pick([1, 2, 3, int(1, 8), 12, 40, 0x7fffffff, 0xffffffff]);
	if(chance(.6)) d.threshold = pick([0, 1, .3, rnd()]);
	if(chance(.4)) d.compression_filter = pick([0, 1, 2, 3, int(0, 31)]);
	if(!valid) { const k = pick(['range', 'threshold', 'compression_filter']); d[k] = pick({ range: [0, -1, -8, 2 ** 32, 2 ** 32 + int(1, 12), -(2 ** 32) + 5, 1e300, Infinity], threshold: [-.01, 1.01, 55, NaN, Infinity, -Infinity], compression_filter: [32, 33, 255, 256, 256 + int(0, 31), -1, -256 + int(0, 31), 2 ** 32 + 3, Infinity] }[k]); }
	const keys = Object.keys(d).sort(() => rnd() - .5);
	return Object.fromEntries(keys.map(k => [k, d[k]]));
}
function damage(a) { if(chance(.06)) { a = a.slice(); a[below(a.length)] = pick([NaN, Infinity, -Infinity]); } return a; }
const meth = n => n === null ? pick([null, undefined]) : rd.Method.get(n);
function balance(where, live, bytes) {
	if(monitor.errors.length) { fail('memory:' + where, monitor.errors.splice(0).slice(0, 3).join('; ')); }
	if(monitor.live.size !== live || monitor.bytes !== bytes) fail('leak:' + where, `${monitor.live.size - live} blocks, ${monitor.bytes - bytes} bytes more than before: ${[...monitor.live.values()].slice(-4).map(b => b.size)}`);
}

function oneShot() {
	const { w, h, a, sw, sh, fw, fh } = picture(), n = pick([1, 1, 2, 3]);
	let img = new Float32Array(w * h * n); img.set(a); for(let i = 1; i < n; i++) img.set(chance(.5) ? a : Float32Array.from({ length: w * h }, rnd), i * w * h);
	img = damage(img);
	const mname = pick([null, null, ...METHODS.map(m => m[0])]), p = randomParams(chance(.85));
	let W = w, H = h, N = n;
	if(chance(.06)) [N, W, H] = pick([[0, w, h], [n, 0, h], [n, w, 0], [1, 65536, 65536], [1, 0x40000000, 4], [1, 0x10000, 0x10001]]);
	what(`resDetect ${N}x${W}x${H} ${mname} ${JSON.stringify(p)}`);
	const want = oracle(img, N, W, H, mname, p), copy = img.slice();
	const live = monitor.live.size, bytes = monitor.bytes;
	const args = [img, N, W, H, meth(mname), p]; if(!Object.keys(p).length && chance(.5)) { args.pop(); if(mname === null) args.pop(); }
	const [got, err] = attempt(() => rd.resDetect(...args));
	compare('resDetect', want, got, err); balance('resDetect', live, bytes);
	if(W * H >= 2 ** 30 && !want[0]) fail('limit', `${W}x${H} was accepted`);
	for(let i = 0; i < img.length; i++) if(!Object.is(img[i], copy[i])) { fail('modified', 'the image was modified'); break; }
	if(!want[0] && want[1].length + want[2].length > 2) { distinct.push(createHash('sha256').update(Buffer.from(img.buffer)).update(text).digest().readBigUInt64LE(0)); if(samples.length < 4) samples.push(`${text}: ${JSON.stringify(want[1].slice(0, 3))}`); }
	if(!want[0]) for(const l of [want[1], want[2]]) if(l.length && l[l.length - 1][1] !== -1) fail('shape', 'the input size is missing');
	if(chance(.15)) { // allocations fail
		const k = int(0, 9), before = new Set(monitor.live.keys()); monitor.failAt = k; monitor.failed = false;
		const [g2, e2] = attempt(() => rd.resDetect(...args)); monitor.failAt = -1;
		if(monitor.failed) {
			add('allocation_faults');
			if(!e2 && !want[0] && !(g2 && same(list(g2.widths), want[1]) && same(list(g2.heights), want[2]))) fail('fault', `allocation ${k} failed, which went unnoticed`);
			if(e2 && !(e2 instanceof Error)) fail('fault', `${e2}`);
			if(e2 instanceof rd.RDError && e2.rderror !== 1 && e2.rderror !== want[0]) fail('fault', `allocation ${k} failed: ${e2.rderror} ${e2.message}`);
			if(e2 && !(e2 instanceof rd.RDError) && !/memory/i.test(e2.message)) fail('fault', `allocation ${k} failed: ${e2.stack}`);
		}
		for(const q of [...monitor.live.keys()]) if(!before.has(q)) release(q);   // what is lost when memory runs out is not claimed
		if(monitor.errors.length) fail('memory:fault', monitor.errors.splice(0).slice(0, 3).join('; '));
	}
}
function sequential() {
	const { w, h } = picture(), mname = pick([null, ...METHODS.map(m => m[0])]), p = randomParams(chance(.9));
	const W = chance(.04) ? 0 : chance(.04) ? 0x10000000 : w;
	what(`Analysis ${W}x${h} ${mname} ${JSON.stringify(p)}`);
	const [pe, pp] = paramPtr(p), ep = take(4), ref = pe ? 0 : x.resdet_create_analysis(methodPtr(mname), W, h, pp, ep) >>> 0, ce = pe || dv().getInt32(ep, true);
	if(pp) release(pp);
	const live = monitor.live.size, bytes = monitor.bytes;
	const args = [W, h, meth(mname), p]; if(!Object.keys(p).length && chance(.5)) args.pop();
	const [an, err] = attempt(() => new rd.Analysis(...args));
	if(ce) { expectError('Analysis', ce, err); balance('Analysis', live, bytes); return; }
	if(err) return fail('threw:Analysis', err.stack);
	let log = '';
	const res = () => { const r = take(16), e = x.resdet_analysis_results(ref, r, r + 4, r + 8, r + 12); return e ? [e] : [0, ...results(r)]; };
	const query = () => { const want = res(), l = monitor.live.size, b = monitor.bytes, [got, e] = attempt(() => an.analysisResults()); compare('analysisResults', want, got, e); balance('analysisResults', l, b); return want; };
	for(let k = int(1, 6); k > 0; k--) {
		if(chance(.25)) { query(); log += ' results'; add('interim_results'); continue; }
		const img = damage(Float32Array.from({ length: w * h }, rnd)), mark = top, e = x.resdet_analyze_image(ref, put(img)); top = mark;
		const l = monitor.live.size, b = monitor.bytes, [, err] = attempt(() => an.analyzeImage(img)); log += ' image'; add('images_analysed');
		what(`Analysis ${W}x${h} ${mname} ${JSON.stringify(p)}:${log}`);
		if(e) expectError('analyzeImage', e, err); else if(err) fail('threw:analyzeImage', err.stack);
		balance('analyzeImage', l, b);
	}
	const want = query();
	x.resdet_destroy_analysis(ref); monitor.check();
	if(!want[0] && want[1].length + want[2].length > 2) distinct.push(createHash('sha256').update(JSON.stringify(want)).update(text).digest().readBigUInt64LE(0));
	analyses++;
}
let analyses = 0;
function lookups() {
	what('lookups'); add('lookups');
	if(rd.libVersion() !== cstr(x.resdet_libversion())) fail('libVersion', rd.libVersion());
	if(rd.defaultRange() !== x.resdet_default_range()) fail('defaultRange', rd.defaultRange());
	const m = rd.methods();
	if(JSON.stringify(m.map(v => [v.name, v.threshold, v.rdmethod])) !== JSON.stringify(METHODS)) fail('methods', JSON.stringify(m));
	for(const [name, t] of METHODS) { const v = rd.Method.get(name); if(!(v instanceof rd.Method) || v.name !== name || v.threshold !== t) fail('method', `${name}: ${JSON.stringify(v)}`); }
	for(const name of ['', 'nosuch', 'Sign', 'sig', 'signx']) if(rd.Method.get(name) !== undefined) fail('method', `"${name}" found`);
	const live = monitor.live.size, bytes = monitor.bytes;
	for(const f of [() => rd.resDetect(new Float32Array(1), 1, 1, 1, null, { ranges: 1 }), () => new rd.Analysis(1, 1, null, { threshold: .5, x: 1 })]) { const [, e] = attempt(f); if(!e) fail('unrecognized', 'an unrecognized parameter was accepted'); }
	balance('unrecognized', live, bytes);
}
// detection itself on the 32-bit target
function recovery() {
	const sw = int(84, 100), sh = int(84, 100), s = Float32Array.from({ length: sw * sh }, rnd), w = 2 * sw, h = 2 * sh, a = new Float32Array(w * h);
	for(let y = 0; y < h; y++) for(let z = 0; z < w; z++) a[y * w + z] = s[(y >> 1) * sw + (z >> 1)];
	const mname = pick(METHODS.map(m => m[0]));
	what(`enlarged ${sw}x${sh} ${mname}`); add('sources_enlarged');
	const got = rd.resDetect(a, 1, w, h, meth(mname));
	for(const [l, n] of [[got.widths, sw], [got.heights, sh]]) if(!l.some(q => q.index === n && q.confidence >= .95)) fail('recovery', `${n} not found: ${JSON.stringify(l.slice(0, 5))}`);
}

let evals = 0, base = monitor.live.size;
for(cur = first; cur < count; cur += step) {
	seed(`${o.seed}/${o.prop}/${o.mode}/${cur}`); state(1); reset(); text = '';
	const k = rnd();
	if(k < .5) oneShot(); else if(k < .93) sequential(); else if(k < .97) lookups(); else recovery();
	evals++; state(2);
	if(evals % 40 === 0 || cur + step >= count) {
		// analyses which are no longer reachable are destroyed
		for(let i = 0; i < 60 && monitor.live.size > base; i++) { gc(); await new Promise(r => setImmediate(r)); if(i > 10) await new Promise(r => setTimeout(r, 20)); }
		add('collections'); add('analyses_collected', analyses); analyses = 0;
		if(monitor.live.size > base) {
			fail('leak:collected', `${monitor.live.size - base} blocks remain after garbage collection: ${[...monitor.live.values()].slice(0, 6).map(b => b.size)}`); base = monitor.live.size;
		}
		monitor.check();
		if(monitor.errors.length) fail('memory:check', monitor.errors.splice(0).slice(0, 3).join('; '));
	}
}
state(0);
add('memory_growths', monitor.grows); add('library_calls', monitor.calls); add('allocations', monitor.allocs);
emit(`C\tevaluations\t${evals}`);
for(const k in counters) emit(`C\t${k}\t${counters[k]}`);
for(const s of samples) emit(`S\t${clean(s)}`);
if(o.distinct) { const b = Buffer.alloc(distinct.length * 8); distinct.forEach((v, i) => b.writeBigUInt64LE(v, i * 8)); appendFileSync(o.distinct, b); }
emit('E\tdone');
process.exit(0);
