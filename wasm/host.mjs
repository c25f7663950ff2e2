// Hosts the WebAssembly build of optivorbis as the code that wasm-bindgen generates does (its
// command-line program is not available here). node host.mjs FILE.wasm
// Input: frames of 32-bit length and bytes. Output for each: status (0: result, 1: a string was
// thrown, 2: something else was), 32-bit length, bytes, 32-bit size of the memory.
import fs from 'node:fs';

const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let heap, free, wasm, logs;

const add = (o) => {
  const i = free.length ? free.pop() : heap.length;
  heap[i] = o;
  return i;
};
const drop = (i) => {
  if (i >= 132) {
    heap[i] = undefined;
    free.push(i);
  }
};
const take = (i) => {
  const o = heap[i];
  drop(i);
  return o;
};
const bytes = (p, n) => new Uint8Array(wasm.memory.buffer, p >>> 0, n >>> 0);
const text = (p, n) => new TextDecoder('utf-8', { fatal: true }).decode(bytes(p, n));

function imports() {
  const e = {};
  for (const { module, name } of WebAssembly.Module.imports(module_)) {
    let f;
    if (name === '__wbindgen_object_drop_ref') f = drop;
    else if (name === '__wbindgen_string_new') f = (p, n) => add(text(p, n));
    else if (name === '__wbindgen_throw')
      f = (p, n) => {
        throw new Error(text(p, n));
      };
    else if (name.startsWith('__wbg_getRandomValues_'))
      f = (p, n) => {
        try {
          globalThis.crypto.getRandomValues(bytes(p, n));
        } catch (x) {
          wasm.__wbindgen_exn_store(add(x));
        }
      };
    else if (name.startsWith('__wbg_new_')) f = () => add(new Error());
    else if (name.startsWith('__wbg_stack_'))
      f = (ret, i) => {
        const s = new TextEncoder().encode(heap[i].stack ?? '');
        const p = wasm.__wbindgen_malloc(s.length, 1);
        bytes(p, s.length).set(s);
        new Uint32Array(wasm.memory.buffer, ret, 2).set([p, s.length]);
      };
    else if (/^__wbg_error_/.test(name))
      // console.error(string) of the panic hook, or of several values
      f = (...a) => {
        if (a.length === 2 && a[0] >= 1024) {
          logs.push(text(a[0], a[1]));
          wasm.__wbindgen_free(a[0], a[1], 1);
        } else logs.push(a.map((i) => String(heap[i])).join(' '));
      };
    else if (/^__wbg_(log|info|warn|debug)_/.test(name)) f = (...a) => void a;
    else if (name === '__wbindgen_externref_table_grow') f = () => -1;
    else if (name === '__wbindgen_externref_table_set_null') f = () => undefined;
    else
      f = () => {
        throw new Error(`unexpected call to ${name}`);
      };
    (e[module] ??= {})[name] = f;
  }
  return e;
}

let remuxer;
function start() {
  heap = new Array(128).fill(undefined);
  heap.push(undefined, null, true, false);
  free = [];
  logs = [];
  wasm = new WebAssembly.Instance(module_, imports()).exports;
  wasm.main();
  remuxer = wasm.oggtoogg_new_with_defaults();
}

function remux(input) {
  const n = input.length;
  const p = wasm.__wbindgen_malloc(n, 1);
  bytes(p, n).set(input);
  const ret = wasm.__wbindgen_malloc(16, 4);
  wasm.oggtoogg_remux(ret, remuxer, p, n);
  const [op, on, err, isErr] = new Uint32Array(wasm.memory.buffer, ret, 4);
  wasm.__wbindgen_free(ret, 16, 4);
  if (isErr) throw take(err);
  const out = bytes(op, on).slice();
  wasm.__wbindgen_free(op, on, 1);
  return out;
}

function read(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    const m = fs.readSync(0, b, k, n - k, null);
    if (m === 0) return null;
    k += m;
  }
  return b;
}
function write(b) {
  let k = 0;
  while (k < b.length) k += fs.writeSync(1, b, k);
}

start();
for (;;) {
  const l = read(4);
  if (l === null) break;
  const input = read(l.readUInt32LE());
  let status = 0;
  let out;
  logs = [];
  try {
    out = remux(input);
  } catch (x) {
    status = typeof x === 'string' ? 1 : 2;
    out = Buffer.from(status === 1 ? x : `${x} ${logs.join(' ')}`);
  }
  // The memory of an instance that trapped is not usable
  if (status === 2) start();
  const h = Buffer.alloc(5);
  h[0] = status;
  h.writeUInt32LE(out.length, 1);
  const t = Buffer.alloc(4);
  t.writeUInt32LE(wasm.memory.buffer.byteLength >>> 0);
  write(Buffer.concat([h, out, t]));
}
wasm.__wbg_oggtoogg_free(remuxer, 0);
