// A small document object model: enough of a browser for the pages of the web demo.
export class Event {
  constructor(type, init = {}) {
    Object.assign(this, { bubbles: false, cancelable: false, composed: false }, init);
    this.type = type;
    this.target = this.currentTarget = null;
    this.defaultPrevented = false;
    this.isTrusted = false;
    this.stopped = this.stoppedNow = false;
    this.timeStamp = Date.now();
  }
  preventDefault() {
    this.defaultPrevented = true;
  }
  stopPropagation() {
    this.stopped = true;
  }
  stopImmediatePropagation() {
    this.stopped = this.stoppedNow = true;
  }
  composedPath() {
    return this.path ?? [];
  }
}
export class CustomEvent extends Event {}
export class MessageEvent extends Event {}
export class ErrorEvent extends Event {}
export class DragEvent extends Event {}
export class UIEvent extends Event {}
export class InputEvent extends UIEvent {}
export class MouseEvent extends UIEvent {}

// Errors of handlers are reported here, as in a browser's console
export const reported = [];

export class EventTarget {
  #handlers = new Map();
  addEventListener(type, f, options) {
    if (!f) return;
    const o = typeof options === 'object' && options ? options : { capture: !!options };
    const l = this.#handlers.get(type) ?? [];
    if (!l.some((h) => h.f === f && !!h.o.capture === !!o.capture)) l.push({ f, o });
    this.#handlers.set(type, l);
    o.signal?.addEventListener('abort', () => this.removeEventListener(type, f, o));
  }
  removeEventListener(type, f, options) {
    const c = typeof options === 'object' && options ? !!options.capture : !!options;
    this.#handlers.set(
      type,
      (this.#handlers.get(type) ?? []).filter((h) => h.f !== f || !!h.o.capture !== c),
    );
  }
  run(ev, phase) {
    ev.currentTarget = this;
    const own = this[`on${ev.type}`];
    const l = [...(this.#handlers.get(ev.type) ?? [])].filter((h) => phase === 'target' || !!h.o.capture === (phase === 'capture'));
    if (typeof own === 'function' && phase !== 'capture') l.push({ f: own, o: {}, own: true });
    for (const h of l) {
      if (ev.stoppedNow) break;
      if (h.o.once) this.removeEventListener(ev.type, h.f, h.o);
      try {
        const r = typeof h.f === 'function' ? h.f.call(this, ev) : h.f.handleEvent(ev);
        if (h.own && r === false) ev.preventDefault();
        if (r && typeof r.then === 'function') r.then(undefined, (x) => reported.push(x));
      } catch (x) {
        reported.push(x);
        this.uncaught?.(x);
      }
    }
  }
  dispatchEvent(ev) {
    ev.target = this;
    const path = [];
    for (let n = this; n; n = n.eventParent) path.push(n);
    ev.path = path;
    for (let i = path.length - 1; i > 0 && !ev.stopped; i -= 1) path[i].run(ev, 'capture');
    if (!ev.stopped) this.run(ev, 'target');
    if (ev.bubbles) for (let i = 1; i < path.length && !ev.stopped; i += 1) path[i].run(ev, 'bubble');
    ev.currentTarget = null;
    return !(ev.cancelable && ev.defaultPrevented);
  }
  get eventParent() {
    return null;
  }
}

class ClassList {
  constructor(e) {
    this.e = e;
  }
  get list() {
    return (this.e.getAttribute('class') ?? '').split(/\s+/).filter((c) => c);
  }
  set list(l) {
    this.e.setAttribute('class', [...new Set(l)].join(' '));
  }
  get value() {
    return this.list.join(' ');
  }
  get length() {
    return this.list.length;
  }
  add(...c) {
    this.list = [...this.list, ...c];
  }
  remove(...c) {
    this.list = this.list.filter((x) => !c.includes(x));
  }
  contains(c) {
    return this.list.includes(c);
  }
  toggle(c, force) {
    const on = force ?? !this.contains(c);
    if (on) this.add(c);
    else this.remove(c);
    return on;
  }
  replace(a, b) {
    if (!this.contains(a)) return false;
    this.list = this.list.map((x) => (x === a ? b : x));
    return true;
  }
  [Symbol.iterator]() {
    return this.list[Symbol.iterator]();
  }
  forEach(f) {
    this.list.forEach(f);
  }
}

const kind = (...tags) => class { static [Symbol.hasInstance](e) { return e instanceof Element && tags.includes(e.localName); } };
export const HTMLInputElement = kind('input');
export const HTMLButtonElement = kind('button');
export const HTMLLabelElement = kind('label');
export const HTMLAudioElement = kind('audio');
export const HTMLMediaElement = kind('audio', 'video');
export const HTMLAnchorElement = kind('a');
export const HTMLDivElement = kind('div');
const REFLECTED = ['id', 'href', 'download', 'src', 'type', 'name', 'accept', 'title', 'rel', 'target', 'lang'];
const FLAGS = ['hidden', 'disabled', 'controls', 'loop', 'multiple', 'checked'];
export class FileList extends Array {
  item(i) {
    return this[i] ?? null;
  }
}
export class Node extends EventTarget {}
export class Element extends Node {
  #attributes = new Map();
  #files = new FileList();
  children = [];
  parentElement = null;
  style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; } };
  dataset = {};
  #text = '';
  constructor(tag, doc) {
    super();
    this.localName = tag;
    this.tagName = this.nodeName = tag.toUpperCase();
    this.ownerDocument = doc;
    this.classList = new ClassList(this);
  }
  get eventParent() {
    return this.parentElement ?? (this.ownerDocument.documentElement === this ? this.ownerDocument : null);
  }
  get parentNode() {
    return this.parentElement;
  }
  get isConnected() {
    for (let n = this; n; n = n.parentElement) if (n === this.ownerDocument.documentElement) return true;
    return false;
  }
  getAttribute(k) {
    return this.#attributes.get(k) ?? null;
  }
  hasAttribute(k) {
    return this.#attributes.has(k);
  }
  setAttribute(k, v) {
    this.#attributes.set(k, String(v));
  }
  removeAttribute(k) {
    this.#attributes.delete(k);
  }
  toggleAttribute(k, force) {
    const on = force ?? !this.hasAttribute(k);
    if (on) this.setAttribute(k, '');
    else this.removeAttribute(k);
    return on;
  }
  get className() {
    return this.getAttribute('class') ?? '';
  }
  set className(v) {
    this.setAttribute('class', v);
  }
  get textContent() {
    return this.#text + this.children.map((c) => c.textContent).join('');
  }
  set textContent(v) {
    for (const c of this.children) c.parentElement = null;
    this.children = [];
    this.#text = v === null ? '' : String(v);
  }
  get innerText() {
    return this.textContent;
  }
  set innerText(v) {
    this.textContent = v;
  }
  // Markup is not interpreted: a page that puts untrusted text here is noticed by whoever reads it
  get innerHTML() {
    return this.textContent;
  }
  set innerHTML(v) {
    this.usedMarkup = true;
    this.textContent = v;
  }
  addText(t) {
    this.#text += t;
  }
  append(...l) {
    for (const c of l) {
      if (c instanceof Element) {
        c.remove();
        c.parentElement = this;
        this.children.push(c);
      } else this.addText(String(c?.data ?? c));
    }
  }
  prepend(...l) {
    this.append(...l);
  }
  replaceChildren(...l) {
    this.textContent = '';
    this.append(...l);
  }
  appendChild(c) {
    this.append(c);
    return c;
  }
  insertBefore(c) {
    return this.appendChild(c);
  }
  removeChild(c) {
    c.remove();
    return c;
  }
  remove() {
    const p = this.parentElement;
    if (p) p.children = p.children.filter((x) => x !== this);
    this.parentElement = null;
  }
  contains(e) {
    for (let n = e; n; n = n.parentElement) if (n === this) return true;
    return false;
  }
  matches(sel) {
    return sel.split(',').some((s) => {
      const last = s.trim().split(/[\s>]+/).pop();
      const tag = last.match(/^[a-z][\w-]*/i)?.[0];
      if (tag && tag.toLowerCase() !== this.localName) return false;
      for (const [, k, v] of last.matchAll(/([#.])([\w-]+)/g)) {
        if (k === '#' ? this.id !== v : !this.classList.contains(v)) return false;
      }
      for (const [, k, , v] of last.matchAll(/\[([\w-]+)(=["']?([^"'\]]*)["']?)?\]/g)) {
        if (!this.hasAttribute(k) || (v !== undefined && this.getAttribute(k) !== v)) return false;
      }
      return true;
    });
  }
  closest(sel) {
    for (let n = this; n; n = n.parentElement) if (n.matches(sel)) return n;
    return null;
  }
  *descendants() {
    for (const c of this.children) {
      yield c;
      yield* c.descendants();
    }
  }
  querySelector(sel) {
    return this.querySelectorAll(sel)[0] ?? null;
  }
  querySelectorAll(sel) {
    return [...this.descendants()].filter((e) => e.matches(sel));
  }
  getElementsByClassName(c) {
    return this.querySelectorAll(`.${c}`);
  }
  getElementsByTagName(c) {
    return this.querySelectorAll(c);
  }
  click() {
    if (this.disabled) return;
    this.dispatchEvent(new MouseEvent('click', { bubbles: true, cancelable: true }));
  }
  dispatchEvent(ev) {
    const r = super.dispatchEvent(ev);
    if (ev.type === 'click' && !ev.defaultPrevented) this.ownerDocument.activated(this);
    return r;
  }
  focus() {}
  blur() {}
  scrollIntoView() {}
  // Media elements
  paused = true;
  play() {
    this.paused = false;
    return Promise.resolve();
  }
  pause() {
    this.paused = true;
  }
  load() {}
  // Inputs
  get files() {
    return this.localName === 'input' ? this.#files : undefined;
  }
  set files(v) {
    // null is ignored by browsers
    if (v) this.#files = v;
  }
  get value() {
    return this.#files.length ? `C:\\fakepath\\${this.#files[0].name}` : '';
  }
  set value(v) {
    if (v === '' || v === null) this.#files = new FileList();
    else throw new Error('InvalidStateError');
  }
}
for (const k of REFLECTED)
  Object.defineProperty(Element.prototype, k, {
    get() {
      return this.getAttribute(k) ?? '';
    },
    set(v) {
      this.setAttribute(k, v);
    },
  });
for (const k of FLAGS)
  Object.defineProperty(Element.prototype, k, {
    get() {
      return this.hasAttribute(k);
    },
    set(v) {
      this.toggleAttribute(k, !!v);
    },
  });

export class Document extends Node {
  readyState = 'loading';
  /** Called with elements whose activation behaviour runs */
  activated = () => {};
  constructor(html, window) {
    super();
    this.defaultView = window;
    const root = new Element('#root', this);
    const stack = [root];
    const VOID = new Set(['meta', 'link', 'img', 'input', 'br', 'hr', 'path', 'circle', 'rect']);
    for (const [, comment, close, tag, attrs, text] of html.matchAll(/(<!--[\s\S]*?-->|<![^>]*>)|<(\/?)([a-zA-Z][\w-]*)((?:[^>"']|"[^"]*"|'[^']*')*)>|([^<]+|<)/g)) {
      const top = stack[stack.length - 1];
      if (comment) continue;
      if (text) top.addText(text);
      else if (close) {
        const k = stack.findLastIndex((e) => e.localName === tag.toLowerCase());
        if (k > 0) stack.length = k;
      } else {
        const e = new Element(tag.toLowerCase(), this);
        for (const [, k, , a, b, c] of attrs.matchAll(/([\w:@-]+)(\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) e.setAttribute(k, a ?? b ?? c ?? '');
        top.append(e);
        if (!VOID.has(e.localName) && !/\/\s*$/.test(attrs)) stack.push(e);
      }
    }
    this.documentElement = root.children.find((e) => e.localName === 'html') ?? root;
    this.documentElement.parentElement = null;
    this.body = this.querySelector('body') ?? this.documentElement;
    this.head = this.querySelector('head') ?? this.documentElement;
  }
  get eventParent() {
    return this.defaultView;
  }
  getElementById(id) {
    return [...this.documentElement.descendants()].find((e) => e.id === id) ?? null;
  }
  querySelector(s) {
    return this.documentElement.querySelector(s);
  }
  querySelectorAll(s) {
    return this.documentElement.querySelectorAll(s);
  }
  getElementsByClassName(c) {
    return this.querySelectorAll(`.${c}`);
  }
  createElement(t) {
    return new Element(t.toLowerCase(), this);
  }
  createTextNode(data) {
    return { data };
  }
}
/** Whether a user sees the element */
export function visible(e) {
  for (let n = e; n; n = n.parentElement) {
    if (n.classList.contains('hidden') || n.classList.contains('invisible') || n.hidden || n.style.display === 'none' || n.style.visibility === 'hidden') return false;
  }
  return true;
}
