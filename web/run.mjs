// C19: runs the scripts of the web demo in a model of a browser with random sequences of what users
// can do, and checks what they get. node run.mjs [replay sessions CASE]
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { Blob, File } from 'node:buffer';
import { createRequire } from 'node:module';
import { createHash } from 'node:crypto';
import { fileURLToPath } from 'node:url';
import * as dom from './dom.mjs';

const verif = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
const only = process.argv[2] === 'replay' ? Number(process.argv[4]) : null;
const sessions = tier === 'quick' ? 1500 : 40000;
const web = process.env.VH_WEB ?? '/repo/web';

const { build } = createRequire('/opt/veriftools/node/')('/opt/veriftools/node/node_modules/esbuild');

async function bundle(entry) {
  const r = await build({
    entryPoints: [entry],
    bundle: true,
    write: false,
    format: 'iife',
    platform: 'browser',
    target: 'es2022',
    logLevel: 'silent',
    loader: { '.css': 'empty', '.png': 'empty', '.svg': 'empty' },
    define: { 'import.meta.url': JSON.stringify(`file://${entry}`) },
    plugins: [
      {
        name: 'stand-ins',
        setup(b) {
          b.onResolve({ filter: /^core-js/ }, () => ({ path: 'empty', namespace: 'empty' }));
          b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: '' }));
          // The library is replaced by a model: C18 is about the real one
          b.onResolve({ filter: /^optivorbis(\/.*)?$/ }, () => ({ path: 'optivorbis', namespace: 'library' }));
          b.onLoad({ filter: /.*/, namespace: 'library' }, () => ({
            contents: 'export const OggToOgg = globalThis.OggToOggModel; export default async () => {}; export const initSync = () => {};',
          }));
        },
      },
    ],
  });
  return new vm.Script(r.outputFiles[0].text, { filename: entry });
}

function random(n) {
  // splitmix32
  let s = parseInt(createHash('sha256').update(`C19 ${seed} ${n}`).digest('hex').slice(0, 8), 16);
  const next = () => {
    s = (s + 0x9e3779b9) | 0;
    let t = s ^ (s >>> 16);
    t = Math.imul(t, 0x21f0aaad);
    t ^= t >>> 15;
    t = Math.imul(t, 0x735a2d97);
    return (t ^ (t >>> 15)) >>> 0;
  };
  return { below: (k) => next() % k, chance: (a, b) => next() % b < a, pick: (l) => l[next() % l.length], bytes: (k) => Uint8Array.from({ length: k }, () => next() & 255) };
}

// What the model of the library does with a file
function outcome(b) {
  const h = createHash('sha256').update(b).digest();
  if (h[0] < 60) return { error: `Vorbis <error> & "${h.toString('hex').slice(0, 8)}"` };
  if (h[0] < 80) return { trap: `unreachable ${h.toString('hex').slice(0, 8)}` };
  return { bytes: Buffer.concat([h, Buffer.from(b).reverse()]) };
}

const counts = {};
const count = (k, n = 1) => {
  counts[k] = (counts[k] ?? 0) + n;
};
const tick = () => new Promise((r) => setImmediate(r));
class Bad extends Error {}
const demand = (c, m) => {
  if (!c) throw new Bad(m);
};

class Page {
  constructor(scripts, html, rng) {
    this.rng = rng;
    this.urls = new Map();
    this.downloads = [];
    this.dialogs = 0;
    this.busy = 0;
    this.remuxed = [];
    this.slowness = 0;
    this.timers = new Set();
    const page = this;
    class PageURL extends URL {
      static createObjectURL(b) {
        if (!(b instanceof Blob)) throw new TypeError('not a blob');
        const u = `blob:https://page/${page.urls.size}-${Math.random()}`;
        page.urls.set(u, b);
        count('object URLs created');
        return u;
      }
      static revokeObjectURL(u) {
        if (page.urls.has(u)) {
          page.urls.set(u, null);
          count('object URLs revoked');
        }
      }
    }
    class DataTransfer {
      constructor() {
        const files = new dom.FileList();
        this.files = files;
        this.dropEffect = 'none';
        this.types = [];
        const list = [];
        list.add = (x, type) => {
          if (x instanceof File) files.push(x);
          list.push(x instanceof File ? { kind: 'file', type: x.type, getAsFile: () => x } : { kind: 'string', type, getAsFile: () => null });
        };
        list.clear = () => {
          list.length = files.length = 0;
        };
        this.items = list;
      }
    }
    this.DataTransfer = DataTransfer;
    class Worker extends dom.EventTarget {
      constructor(url) {
        super();
        page.worker = this;
        this.queue = [];
        this.faults = [];
        const name = path.basename(new URL(String(url), 'file:///x/').pathname);
        const script = scripts.workers[name];
        demand(script, `the page starts the worker ${name}, which is not there`);
        const self = new dom.EventTarget();
        const reply = (v) => {
          page.busy += 1;
          setImmediate(() => {
            page.busy -= 1;
            this.deliver(v);
          });
        };
        const g = {
          console: quiet,
          Blob,
          File,
          URL: PageURL,
          TextDecoder,
          TextEncoder,
          setTimeout: (f, t) => page.later(f, t),
          clearTimeout: (t) => page.cancel(t),
          queueMicrotask,
          structuredClone: clone,
          Response,
          MessageEvent: dom.MessageEvent,
          ErrorEvent: dom.ErrorEvent,
          Event: dom.Event,
          DOMException,
          performance,
          postMessage: reply,
          close: () => {},
          addEventListener: self.addEventListener.bind(self),
          removeEventListener: self.removeEventListener.bind(self),
          FileReaderSync: class {
            readAsArrayBuffer(b) {
              const k = [...page.contents.keys()].find((f) => f === b);
              if (!k) throw new Error('NotReadableError');
              return page.contents.get(k).slice().buffer;
            }
          },
          FileReader: class extends dom.EventTarget {
            readAsArrayBuffer(b) {
              this.result = page.contents.get(b).slice().buffer;
              page.later(() => {
                this.dispatchEvent(new dom.Event('load'));
                this.dispatchEvent(new dom.Event('loadend'));
              }, 0);
            }
          },
          OggToOggModel: class {
            remux(data) {
              if (this.freed) throw new Error('null pointer passed to rust');
              demand(ArrayBuffer.isView(data) || Object.prototype.toString.call(data) === '[object Uint8Array]', 'the library is not called with bytes');
              count('remuxes');
              const given = Buffer.from(data.buffer, data.byteOffset, data.byteLength);
              page.remuxed.push(createHash('sha256').update(given).digest('hex'));
              const o = outcome(given);
              if (o.error) throw o.error;
              if (o.trap) throw new WebAssembly.RuntimeError(o.trap);
              return new Uint8Array(o.bytes);
            }
            free() {
              this.freed = true;
            }
          },
        };
        g.self = vm.createContext(g);
        g.WorkerGlobalScope = Object;
        self.uncaught = (x) => this.fail(x);
        Object.defineProperty(g, 'onmessage', { get: () => self.onmessage, set: (f) => (self.onmessage = f), configurable: true });
        this.inside = self;
        script.runInContext(g);
      }
      postMessage(v) {
        page.busy += 1;
        count('messages to the worker');
        const work = (left) => {
          if (left > 0) {
            count('waits for the worker');
            setImmediate(() => work(left - 1));
            return;
          }
          page.working = false;
          page.busy -= 1;
          const fault = this.faults.shift();
          if (fault) {
            count(`worker ${fault}`);
            this.dispatchEvent(fault === 'error' ? new dom.ErrorEvent('error', { message: 'worker fault', cancelable: true }) : new dom.MessageEvent('messageerror', { data: null }));
          } else this.inside.dispatchEvent(new dom.MessageEvent('message', { data: clone(v) }));
        };
        page.working = true;
        setImmediate(() => work(page.slowness));
      }
      deliver(v) {
        count('messages to the page');
        this.dispatchEvent(new dom.MessageEvent('message', { data: clone(v) }));
      }
      fail(x) {
        this.dispatchEvent(new dom.ErrorEvent('error', { message: String(x), error: x, cancelable: true }));
      }
      terminate() {
        this.queue = [];
      }
    }
    this.contents = new Map();
    const window = new dom.EventTarget();
    const document = (this.document = new dom.Document(html, window));
    document.activated = (e) => {
      if (e.localName === 'a') this.downloads.push({ href: e.href, name: e.download });
      if (e.localName === 'input') this.dialogs += 1;
    };
    const g = {
      console: quiet,
      document,
      Blob,
      File,
      FileList: dom.FileList,
      URL: PageURL,
      DataTransfer,
      Worker,
      Event: dom.Event,
      CustomEvent: dom.CustomEvent,
      MouseEvent: dom.MouseEvent,
      DragEvent: dom.DragEvent,
      MessageEvent: dom.MessageEvent,
      ErrorEvent: dom.ErrorEvent,
      EventTarget: dom.EventTarget,
      UIEvent: dom.UIEvent,
      InputEvent: dom.InputEvent,
      HTMLElement: dom.Element,
      HTMLInputElement: dom.HTMLInputElement,
      HTMLButtonElement: dom.HTMLButtonElement,
      HTMLLabelElement: dom.HTMLLabelElement,
      HTMLAudioElement: dom.HTMLAudioElement,
      HTMLMediaElement: dom.HTMLMediaElement,
      HTMLAnchorElement: dom.HTMLAnchorElement,
      HTMLDivElement: dom.HTMLDivElement,
      Response,
      AbortSignal,
      DOMException,
      performance,
      TextDecoder,
      TextEncoder,
      Element: dom.Element,
      Node: dom.Node,
      AbortController,
      navigator: { userAgent: 'model' },
      location: new URL('https://page/'),
      setTimeout: (f, t) => this.later(f, t),
      clearTimeout: (t) => this.cancel(t),
      requestAnimationFrame: (f) => this.later(f, 16),
      queueMicrotask,
      structuredClone: clone,
      alert: (m) => this.alerts.push(m),
      addEventListener: window.addEventListener.bind(window),
      removeEventListener: window.removeEventListener.bind(window),
      dispatchEvent: window.dispatchEvent.bind(window),
    };
    this.alerts = [];
    g.window = g.self = vm.createContext(g);
    scripts.main.runInContext(g);
    document.readyState = 'interactive';
    document.dispatchEvent(new dom.Event('DOMContentLoaded', { bubbles: true }));
    document.readyState = 'complete';
    window.dispatchEvent(new dom.Event('load'));
    const id = (i) => {
      const e = document.getElementById(i);
      demand(e, `the page has no element ${i}`);
      return e;
    };
    Object.assign(this, {
      input: id('file-input'),
      choose: id('file-input-button'),
      label: id('file-input-label'),
      selector: id('file-input-section'),
      progress: id('file-process-text'),
      output: id('output-file-section'),
      player: id('output-file-preview'),
      back: id('output-file-back'),
      download: id('output-file-download'),
      modal: id('file-error-modal'),
      message: id('file-error-modal-message'),
      close: id('file-error-modal-close'),
    });
  }
  // Timers run at once, in order
  later(f) {
    this.busy += 1;
    const t = setImmediate(() => {
      this.timers.delete(t);
      this.busy -= 1;
      f();
    });
    this.timers.add(t);
    return t;
  }
  cancel(t) {
    if (this.timers.delete(t)) {
      clearImmediate(t);
      this.busy -= 1;
    }
  }
  async settle() {
    for (let k = 0, quietFor = 0; quietFor < 6; k += 1) {
      await tick();
      quietFor = this.busy ? 0 : quietFor + 1;
      demand(k < 10000, 'the page does not come to rest');
    }
  }
  file() {
    const { rng } = this;
    const n = rng.pick([0, 1, 10, 1000, 5000]);
    const data = rng.bytes(n);
    const name = rng.pick(['a.ogg', 'song.ogg', 'Ünïcödé ♫.oga', 'x', 'with "quotes" & <b>.ogg', '.ogg', 'very'.repeat(40)]) + (rng.chance(1, 2) ? '' : rng.below(100));
    const type = rng.pick(['audio/ogg', 'application/ogg', 'video/ogg', 'audio/ogg; codecs=vorbis', 'audio/ogg;codecs=opus']);
    const f = new File([data], name, { type });
    // Blob.arrayBuffer() of Node.js is as good, but asynchronous
    this.contents.set(f, data);
    return f;
  }
}
const quiet = { log() {}, info() {}, warn() {}, error() {}, debug() {}, trace() {}, assert() {} };
function clone(v) {
  if (v instanceof Blob || typeof v !== 'object' || v === null) return v;
  if (v instanceof Error || Object.prototype.toString.call(v) === '[object Error]') return new Error(v.message);
  if (Array.isArray(v)) return v.map(clone);
  if (ArrayBuffer.isView(v) || /ArrayBuffer\]$/.test(Object.prototype.toString.call(v))) return structuredClone(v);
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, clone(x)]));
}

async function session(scripts, html, n, trace) {
  const rng = random(n);
  const page = new Page(scripts, html, rng);
  let state = 'idle';
  let last = null; // the file whose result is presented
  let modal = null; // message in the modal
  const errors = []; // messages that were displayed
  const { visible } = dom;
  async function processed(f, name, fault) {
    trace.push(`${name}: ${f.name} (${f.size} bytes)`);
    // Before the worker answers
    const only = () => {
      demand(!visible(page.selector) && visible(page.progress), 'while a file is processed, the selector must be hidden and the progress visible');
      demand(!visible(page.output) && !visible(page.modal), 'while a file is processed, a result or an error is visible');
    };
    only();
    while (page.working) {
      only();
      await tick();
    }
    await page.settle();
    const h = createHash('sha256').update(page.contents.get(f)).digest('hex');
    const n = page.remuxed.splice(0).filter((x) => x === h || demand(false, 'the library got other bytes than those of the file')).length;
    demand(n === 1 || fault, `the library got the file ${n} times`);
  }
  async function expect(f) {
    demand(!visible(page.progress), 'the progress text is still visible after the worker answered');
    const o = outcome(page.contents.get(f));
    if (o.bytes) {
      count('results presented');
      demand(visible(page.output) && !visible(page.selector), 'the output section is not presented after a success');
      [state, last] = ['done', f];
      await presented();
    } else {
      count('errors presented');
      const m = o.error ?? o.trap;
      demand(visible(page.modal), `the error message is not displayed: ${m}`);
      demand(page.message.textContent.includes(m), `the error message displayed is ${page.message.textContent}, not ${m}`);
      demand(!errors.some((x) => x !== m && page.message.textContent.includes(x)), `the error message displayed is ${page.message.textContent}, which has that of another file too`);
      errors.push(m);
      demand(!page.message.usedMarkup, 'the error message is interpreted as markup');
      demand(visible(page.selector) && !visible(page.output), 'the selector is not back after an error');
      [state, modal] = ['idle', m];
    }
    demand(page.input.files.length === 0, 'the file input still has the file, so that choosing it again does nothing');
  }
  async function blob(u, what) {
    const b = page.urls.get(u);
    demand(b, `${what} ${u ? 'is a URL that was revoked or never created' : 'is not set'}`);
    demand(b.type === 'audio/ogg', `${what} has type ${b.type}`);
    const d = Buffer.from(await b.arrayBuffer());
    demand(d.equals(outcome(page.contents.get(last)).bytes), `${what} has ${d.length} bytes, which are not the optimized file`);
  }
  async function presented() {
    await blob(page.player.src, 'the source of the player');
  }
  const actions = {
    async choose() {
      // The dialog of the input is opened by the button
      const d = page.dialogs;
      page.choose.click();
      demand(page.dialogs === d + 1, 'the button does not open the file dialog');
      if (rng.chance(1, 6)) {
        trace.push('cancel the dialog');
        count('cancelled dialogs');
        // Some browsers clear the selection, and tell
        if (rng.chance(1, 2)) {
          page.input.files = new dom.FileList();
          page.input.dispatchEvent(new dom.Event('input', { bubbles: true }));
          page.input.dispatchEvent(new dom.Event('change', { bubbles: true }));
        } else page.input.dispatchEvent(new dom.Event('cancel', { bubbles: true }));
        await page.settle();
        return;
      }
      const same = last && rng.chance(1, 3);
      const f = same ? last : page.file();
      if (same) count('same file again');
      const fault = rng.chance(1, 12) ? rng.pick(['error', 'messageerror']) : null;
      if (fault) page.worker.faults.push(fault);
      page.input.files = Object.assign(new dom.FileList(), { 0: f, length: 1 });
      page.input.dispatchEvent(new dom.Event('input', { bubbles: true }));
      if (page.input.files.length) page.input.dispatchEvent(new dom.Event('change', { bubbles: true }));
      count('files chosen');
      await processed(f, fault ? `choose with a worker ${fault}` : 'choose', fault);
      if (fault) {
        demand(visible(page.selector) && !visible(page.progress), `after the worker failed (${fault}) the selector is not back`);
        demand(!visible(page.output), 'the output section is presented after the worker failed');
        page.input.files = new dom.FileList();
      } else await expect(f);
    },
    async drop() {
      const items = [];
      let wanted = null;
      const string = () => ({ kind: 'string', type: rng.pick(['text/plain', 'text/uri-list', 'text/html']), getAsFile: () => null });
      if (rng.chance(1, 4)) items.push(string());
      if (rng.chance(1, 4)) {
        const o = new File(['x'], 'other.txt', { type: rng.pick(['text/plain', 'audio/mpeg', 'audio/flac', '', 'application/x-ogg', 'image/ogg', 'text/audio/ogg']) });
        page.contents.set(o, new Uint8Array([120]));
        items.push(o);
      }
      if (rng.chance(3, 4)) {
        wanted = page.file();
        items.push(wanted);
        if (rng.chance(1, 5)) items.push(page.file());
      }
      const target = rng.pick([page.label, page.choose, ...page.label.children]);
      const dt = (readable) => {
        const d = new page.DataTransfer();
        d.items.length = 0;
        for (const i of items) d.items.push(i instanceof File ? { kind: 'file', type: i.type, getAsFile: () => (readable ? i : null) } : i);
        d.files = readable ? Object.assign(new dom.FileList(), items.filter((i) => i instanceof File)) : new dom.FileList();
        d.types = ['Files'];
        d.dropEffect = 'copy';
        d.effectAllowed = 'all';
        return d;
      };
      const fire = (type, readable) => {
        const ev = new dom.DragEvent(type, { bubbles: true, cancelable: true, dataTransfer: dt(readable) });
        target.dispatchEvent(ev);
        // Browsers do not drop when the effect is none
        return ev.defaultPrevented && (type === 'drop' || ev.dataTransfer.dropEffect !== 'none');
      };
      // Some browsers let the files be read during the drag
      const early = rng.chance(1, 3);
      fire('dragenter', early);
      if (rng.chance(1, 4)) {
        fire('dragleave', early);
        fire('dragenter', early);
      }
      let accepted = false;
      for (let k = rng.below(3); k >= 0; k -= 1) accepted = fire('dragover', early);
      if (rng.chance(1, 6)) {
        trace.push('drag and leave');
        fire('dragleave', early);
        await page.settle();
        return;
      }
      if (!wanted) {
        trace.push('drop nothing of interest');
        count('other files dropped');
        if (accepted) fire('drop', true);
        await page.settle();
        return;
      }
      demand(accepted, `a file of type ${wanted.type} cannot be dropped`);
      demand(fire('drop', true), 'the browser opens the dropped file');
      count('files dropped');
      await processed(wanted, 'drop');
      await expect(wanted);
    },
    async back() {
      trace.push('back');
      page.back.click();
      await page.settle();
      state = 'idle';
    },
    async download() {
      trace.push('download');
      const k = page.downloads.length;
      page.download.click();
      await page.settle();
      demand(page.downloads.length === k + 1, `the download button started ${page.downloads.length - k} downloads`);
      const d = page.downloads[k];
      demand(d.name === last.name, `the download of ${last.name} is named ${d.name}`);
      await blob(d.href, 'the download');
      count('downloads');
    },
    async dismiss() {
      trace.push('close the message');
      page.close.click();
      await page.settle();
      modal = null;
    },
  };
  await page.settle();
  const steps = rng.chance(1, 12) ? 100 + rng.below(100) : 3 + rng.below(14);
  for (let k = 0; k < steps; k += 1) {
    let can;
    if (modal !== null) can = ['dismiss'];
    else if (state === 'idle') can = ['choose', 'choose', 'drop'];
    else can = ['back', 'download'];
    page.slowness = rng.chance(1, 3) ? rng.below(20) : 0;
    await actions[rng.pick(can)]();
    count('actions');
    // Invariants
    demand(visible(page.selector) === (state === 'idle'), `the selector is ${state === 'idle' ? 'hidden' : 'visible'}`);
    demand(visible(page.output) === (state === 'done'), `the output section is ${state === 'done' ? 'hidden' : 'visible'}`);
    demand(!visible(page.progress), 'the progress text is visible');
    demand(visible(page.modal) === (modal !== null), `the message is ${modal === null ? 'visible' : 'hidden'}`);
    const live = [...page.urls.values()].filter((b) => b).length;
    demand(live <= (state === 'done' ? 1 : 0), `${live} object URLs are alive ${state === 'done' ? 'while a file' : 'and no file'} is presented`);
    if (state === 'done') await presented();
    demand(page.alerts.length === 0, 'an alert');
  }
  return createHash('sha256').update(trace.join()).digest('hex');
}

const start = Date.now();
const entry = `${web}/src/ts/main.ts`;
const scripts = { main: null, workers: {} };
try {
  scripts.main = await bundle(entry);
  for (const f of fs.readdirSync(`${web}/src/ts`)) {
    if (/worker.*\.[jt]s$/.test(f)) scripts.workers[f] = await bundle(`${web}/src/ts/${f}`);
  }
} catch (x) {
  console.error(`cannot bundle the web demo: ${x}`);
  process.exit(2);
}
const html = fs.readFileSync(`${web}/src/index.html`, 'utf8');
const distinct = new Set();
const samples = [];
let violations = 0;
let done = 0;
for (let n = only ?? 0; n < (only === null ? sessions : only + 1); n += 1) {
  const trace = [];
  try {
    distinct.add(await session(scripts, html, n, trace));
    if (dom.reported.length) throw new Bad(`uncaught error: ${dom.reported[0]?.stack ?? dom.reported[0]}`);
  } catch (x) {
    dom.reported.length = 0;
    violations += 1;
    const f = path.join(verif, 'replays', 'C19', `sessions-${n}.txt`);
    fs.mkdirSync(path.dirname(f), { recursive: true });
    const m = x instanceof Bad ? x.message : `error in the page: ${x?.stack ?? x}`;
    const text = `property=C19 workload=sessions case=${n} seed=${seed}\nreproduce: VERIF_SEED=${seed} ./check C19 replay sessions ${n}\n${m}\nactions: ${trace.join('; ')}\n`;
    fs.writeFileSync(f, text);
    console.log(`[sessions case ${n}] ${m} (after ${trace.slice(-4).join('; ')})`);
    console.log(`VIOLATION property=C19 replay=${f}`);
    break;
  }
  done += 1;
  if (samples.length < 5) samples.push(trace.join('; ').slice(0, 500));
}
if (only === null) {
  fs.mkdirSync(path.join(verif, 'evidence'), { recursive: true });
  fs.writeFileSync(
    path.join(verif, 'evidence', 'C19.json'),
    JSON.stringify(
      {
        property: 'C19',
        tier,
        seed,
        level: 'exploration',
        coverage: {
          evaluations: counts.actions ?? 0,
          distinct_nontrivial: distinct.size,
          rule: 'The scripts of the web demo, bundled as they are and run in a model of a browser (documents, events, drag and drop, object URLs, workers) with a model of the library, through random sequences of what a user can do with visible elements: choosing files (also the same again), cancelling, dragging and dropping files of many types, downloading, going back, dismissing errors; with worker failures. The monitor checks after each action what is visible, the bytes, type and name of what is presented and downloaded, and that object URLs are released. Non-trivial and distinct: sessions by their sequence of actions.',
          samples,
          observed: counts,
        },
        wall_s: (Date.now() - start) / 1000,
        violations,
      },
      null,
      1,
    ),
  );
}
console.log(`C19: ${done} sessions, ${counts.actions} actions, ${violations} violations, ${(Date.now() - start) / 1000} s`);
if (process.env.VH_VERBOSE) console.log(counts);
process.exit(violations ? 1 : 0);
