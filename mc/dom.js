'use strict';
// A small document object model: enough of a browser to run the scripts of
// the page for real.  stdin: lines {html, scripts, width, ops}; stdout: one
// line of observations per line.
const vm = require('vm');
const code = new Map();
function compiled(s) { const k = s.name + '\n' + s.code; if (!code.has(k)) code.set(k, new vm.Script(s.code, { filename: s.name })); return code.get(k); }
const VOID = new Set('area base br col embed hr img input link meta source track wbr'.split(' '));
const RAW = new Set(['script', 'style', 'textarea', 'title']);
const TABLEISH = new Set('table thead tbody tfoot tr'.split(' '));

class Unsupported extends Error {}

function decode(s) {
  return s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) => {
    const t = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
    if (e[0] === '#') return String.fromCodePoint(e[1] === 'x' || e[1] === 'X' ? parseInt(e.slice(2), 16) : +e.slice(1));
    return e in t ? t[e] : m;
  });
}
const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escA = s => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;');
const kebab = s => s.replace(/[A-Z]/g, c => '-' + c.toLowerCase());

class CEvent {
  constructor(type, o = {}) {
    this.type = type; this.bubbles = !!o.bubbles; this.cancelable = o.cancelable !== false;
    this.defaultPrevented = false; this.target = null; this.currentTarget = null;
    this.detail = o.detail; this.key = o.key; this.submitter = o.submitter || null; this.isTrusted = false;
    this.timeStamp = 0;
  }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  get returnValue() { return !this.defaultPrevented; }
  set returnValue(v) { if (!v) this.preventDefault(); }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._now = true; }
  composedPath() { return this._path.slice(); }
  get srcElement() { return this.target; }
}

class Target {
  addEventListener(type, fn, opt) {
    if (!fn) return;
    const cap = typeof opt === 'object' && opt ? !!opt.capture : !!opt;
    const once = typeof opt === 'object' && opt ? !!opt.once : false;
    const l = (this._ls ||= []);
    if (!l.some(x => x.type === type && x.fn === fn && x.cap === cap)) l.push({ type, fn, cap, once });
  }
  removeEventListener(type, fn, opt) {
    const cap = typeof opt === 'object' && opt ? !!opt.capture : !!opt;
    if (this._ls) this._ls = this._ls.filter(x => !(x.type === type && x.fn === fn && x.cap === cap));
  }
  _fire(e, phase) {
    e.currentTarget = this; e.eventPhase = phase;
    for (const l of (this._ls || []).slice()) {
      if (l.type !== e.type || (phase === 1 && !l.cap) || (phase === 3 && l.cap)) continue;
      if (l.once) this.removeEventListener(l.type, l.fn, l.cap);
      if (typeof l.fn === 'function') l.fn.call(this, e); else l.fn.handleEvent(e);
      if (e._now) return;
    }
    const h = this['on' + e.type];
    if (phase !== 1 && typeof h === 'function' && h.call(this, e) === false) e.preventDefault();
  }
  dispatchEvent(e) {
    e.target = this;
    const path = [];
    for (let n = this; n; n = n.parentNode || (n.nodeType === 9 && e.type !== 'load' ? n.defaultView : null)) path.push(n);
    e._path = path;
    for (let i = path.length - 1; i > 0 && !e._stop; i--) path[i]._fire(e, 1);
    if (!e._stop) this._fire(e, 2);
    for (let i = 1; e.bubbles && i < path.length && !e._stop; i++) path[i]._fire(e, 3);
    e.currentTarget = null;
    if (this._activate) this._activate(e);
    return !e.defaultPrevented;
  }
}

class Node extends Target {
  constructor(doc) { super(); this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get children() { const me = this; return live(() => me.childNodes.filter(n => n.nodeType === 1)); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  _sib(d, el) {
    if (!this.parentNode) return null;
    const l = this.parentNode.childNodes;
    for (let i = l.indexOf(this) + d; i >= 0 && i < l.length; i += d) if (!el || l[i].nodeType === 1) return l[i];
    return null;
  }
  get nextSibling() { return this._sib(1); }
  get previousSibling() { return this._sib(-1); }
  get nextElementSibling() { return this._sib(1, true); }
  get previousElementSibling() { return this._sib(-1, true); }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  insertBefore(n, ref) {
    if (!(n instanceof Node)) throw new TypeError("parameter 1 is not of type 'Node'");
    if (n.contains(this)) throw new Error('HierarchyRequestError');
    if (n.nodeType === 11) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
    if (ref === n) ref = n.nextSibling;
    n.remove(); version++;
    let i = this.childNodes.length;
    if (ref) { i = this.childNodes.indexOf(ref); if (i < 0) throw new Error('NotFoundError'); }
    this.childNodes.splice(i, 0, n); n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) { if (!n || n.parentNode !== this) throw new Error('NotFoundError'); n.remove(); return n; }
  replaceChild(n, o) { this.insertBefore(n, o); o.remove(); return o; }
  remove() {
    if (!this.parentNode) return;
    version++;
    const l = this.parentNode.childNodes; l.splice(l.indexOf(this), 1); this.parentNode = null;
  }
  _nodes(a) { return a.map(x => x instanceof Node ? x : new Text(this.ownerDocument, String(x))); }
  append(...a) { for (const n of this._nodes(a)) this.appendChild(n); }
  prepend(...a) { const f = this.firstChild; for (const n of this._nodes(a)) this.insertBefore(n, f); }
  before(...a) { for (const n of this._nodes(a)) this.parentNode.insertBefore(n, this); }
  after(...a) { const f = this.nextSibling, p = this.parentNode; for (const n of this._nodes(a)) p.insertBefore(n, f); }
  replaceWith(...a) { this.before(...a); this.remove(); }
  replaceChildren(...a) { while (this.firstChild) this.firstChild.remove(); this.append(...a); }
  get textContent() { return this.childNodes.map(n => n.nodeType === 8 ? '' : n.textContent).join(''); }
  set textContent(v) { this.replaceChildren(); if (v !== '' && v != null) this.append(String(v)); }
  get nodeValue() { return null; }
  _walk(f) { for (const c of this.childNodes) { if (c.nodeType === 1) { f(c); c._walk(f); } } }
  _all(p) { const r = []; this._walk(e => { if (p(e)) r.push(e); }); return r; }
  getElementsByTagName(t) { t = t.toLowerCase(); return live(() => this._all(e => t === '*' || e.localName === t)); }
  getElementsByClassName(c) {
    const w = c.trim().split(/\s+/);
    return live(() => this._all(e => w.every(x => e.classList.contains(x))));
  }
  querySelectorAll(s) { const m = selector(s); const r = this._all(e => m(e, this)); return listy(r); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  normalize() {}
}

class Text extends Node {
  constructor(doc, t, type = 3) { super(doc); this.data = t; this._t = type; }
  get nodeType() { return this._t; }
  get nodeName() { return '#text'; }
  get textContent() { return this.data; } set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; } set nodeValue(v) { this.data = String(v); }
  cloneNode() { return new Text(this.ownerDocument, this.data, this._t); }
  get outerHTML() {
    if (this._t === 8) return '';
    return this.parentNode && RAW.has(this.parentNode.localName) && this.parentNode.localName !== 'textarea' ? this.data : esc(this.data);
  }
}

function listy(a) { a.item = i => a[i] || null; return a; }
let version = 0; // changes with every change of structure or attributes
function live(fresh) {
  let at = -1, kept;
  const get = () => { if (at !== version) { at = version; kept = fresh(); } return kept; };
  return new Proxy({}, {
    get(_, k) {
      const a = get();
      if (k === Symbol.iterator) return function* () { for (let i = 0; i < get().length; i++) yield get()[i]; };
      if (k === 'item') return i => a[i] || null;
      if (k === 'namedItem') return n => a.find(e => e.id === n || e.getAttribute('name') === n) || null;
      if (['map', 'filter', 'reduce', 'some', 'every', 'push', 'indexOf', 'find', 'slice', 'forEach'].includes(k)) return undefined;
      const v = a[k];
      if (v === undefined && typeof k === 'string') return a.find(e => e.id === k || e.getAttribute('name') === k);
      return typeof v === 'function' ? v.bind(a) : v;
    },
    has(_, k) { return k in get(); },
    ownKeys() { return Object.keys(get()); },
    getOwnPropertyDescriptor(_, k) { const a = get(); return k in a ? { value: a[k], enumerable: true, configurable: true } : undefined; },
  });
}

class ClassList {
  constructor(e) { this.e = e; }
  get _l() { return (this.e.getAttribute('class') || '').split(/\s+/).filter(Boolean); }
  _s(l) { this.e.setAttribute('class', l.join(' ')); }
  contains(c) { return this._l.includes(c); }
  add(...c) { this._s([...new Set([...this._l, ...c])]); }
  remove(...c) { this._s(this._l.filter(x => !c.includes(x))); }
  toggle(c, f) { const on = f === undefined ? !this.contains(c) : f; on ? this.add(c) : this.remove(c); return on; }
  replace(a, b) { if (!this.contains(a)) return false; this._s(this._l.map(x => x === a ? b : x)); return true; }
  get length() { return this._l.length; }
  get value() { return this._l.join(' '); }
  item(i) { return this._l[i] || null; }
  forEach(f) { this._l.forEach(f); }
  [Symbol.iterator]() { return this._l[Symbol.iterator](); }
  toString() { return this.value; }
}

function styleOf(el) {
  const parse = () => {
    const m = new Map();
    for (const d of (el.getAttribute('style') || '').split(';')) {
      const i = d.indexOf(':');
      if (i > 0) m.set(d.slice(0, i).trim().toLowerCase(), d.slice(i + 1).trim());
    }
    return m;
  };
  const write = m => el.setAttribute('style', [...m].map(([k, v]) => `${k}: ${v};`).join(' '));
  return new Proxy({}, {
    get(_, k) {
      if (k === 'cssText') return el.getAttribute('style') || '';
      if (k === 'setProperty') return (p, v) => { const m = parse(); m.set(p, String(v)); write(m); };
      if (k === 'removeProperty') return p => { const m = parse(); m.delete(p); write(m); };
      if (k === 'getPropertyValue') return p => parse().get(p) || '';
      if (typeof k !== 'string') return undefined;
      return parse().get(kebab(k)) || '';
    },
    set(_, k, v) {
      if (k === 'cssText') { el.setAttribute('style', v); return true; }
      const m = parse(); v = String(v);
      if (v === '' || v === 'null') m.delete(kebab(k)); else m.set(kebab(k), v);
      write(m); return true;
    },
  });
}

class Element extends Node {
  constructor(doc, tag) { super(doc); this.localName = tag; this._a = new Map(); }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(k) { k = k.toLowerCase(); return this._a.has(k) ? this._a.get(k) : null; }
  setAttribute(k, v) { version++; this._a.set(k.toLowerCase(), String(v)); }
  removeAttribute(k) { version++; this._a.delete(k.toLowerCase()); }
  hasAttribute(k) { return this._a.has(k.toLowerCase()); }
  toggleAttribute(k, f) { const on = f === undefined ? !this.hasAttribute(k) : f; on ? this.setAttribute(k, '') : this.removeAttribute(k); return on; }
  getAttributeNames() { return [...this._a.keys()]; }
  get attributes() { return listy([...this._a].map(([name, value]) => ({ name, value }))); }
  get classList() { return this._cl ||= new ClassList(this); }
  set classList(v) { this.setAttribute('class', v); }
  get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
  get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
  get style() { return this._st ||= styleOf(this); }
  set style(v) { this.setAttribute('style', v); }
  get hidden() { return this.hasAttribute('hidden'); } set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get title() { return this.getAttribute('title') || ''; } set title(v) { this.setAttribute('title', v); }
  get dataset() {
    const el = this;
    return new Proxy({}, {
      get(_, k) { const v = el.getAttribute('data-' + kebab(String(k))); return v === null ? undefined : v; },
      set(_, k, v) { el.setAttribute('data-' + kebab(k), v); return true; },
      has(_, k) { return el.hasAttribute('data-' + kebab(k)); },
      deleteProperty(_, k) { el.removeAttribute('data-' + kebab(k)); return true; },
    });
  }
  get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.childNodes.map(c => c.outerHTML).join(''); }
  set innerHTML(h) { this.replaceChildren(); parseInto(this, String(h)); }
  get outerHTML() {
    const a = [...this._a].map(([k, v]) => ` ${k}="${escA(v)}"`).join('');
    return `<${this.localName}${a}>` + (VOID.has(this.localName) ? '' : this.innerHTML + `</${this.localName}>`);
  }
  set outerHTML(h) { const t = new Element(this.ownerDocument, this.parentNode.localName); t.innerHTML = h; this.replaceWith(...t.childNodes.slice()); }
  insertAdjacentHTML(w, h) {
    const ctx = /beforebegin|afterend/.test(w) ? this.parentNode : this;
    const t = new Element(this.ownerDocument, ctx.localName); t.innerHTML = h;
    this._adj(w, t.childNodes.slice());
  }
  insertAdjacentElement(w, e) { this._adj(w, [e]); return e; }
  insertAdjacentText(w, s) { this._adj(w, [s]); }
  _adj(w, l) {
    w = w.toLowerCase();
    ({ beforebegin: () => this.before(...l), afterend: () => this.after(...l), afterbegin: () => this.prepend(...l), beforeend: () => this.append(...l) })[w]();
  }
  matches(s) { return selector(s)(this, this.ownerDocument); }
  closest(s) { const m = selector(s); for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (m(e, this)) return e; return null; }
  cloneNode(deep) {
    const n = make(this.ownerDocument, this.localName);
    for (const [k, v] of this._a) n._a.set(k, v);
    for (const k of ['_v', '_c', '_si']) if (this[k] !== undefined) n[k] = this[k];
    if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
    return n;
  }
  click() {
    if (this.disabled) return;
    const pre = this.checked;
    const box = this.localName === 'input' && this.type === 'checkbox';
    if (box) this.checked = !pre;
    const e = new CEvent('click', { bubbles: true });
    const ok = this.dispatchEvent(e);
    if (box) {
      if (!ok) this.checked = pre;
      else { this.dispatchEvent(new CEvent('input', { bubbles: true })); this.dispatchEvent(new CEvent('change', { bubbles: true })); }
    }
  }
  _activate(e) {
    if (e.type !== 'click' || e.defaultPrevented) return;
    // the element whose activation behaviour runs: nearest button or link
    for (let n = this; n && n.nodeType === 1; n = n.parentNode) {
      if (n.localName === 'button' || (n.localName === 'input' && ['submit', 'image'].includes(n.type))) {
        if (n.disabled) return;
        const f = n.form;
        if (f && n.type === 'submit') f.requestSubmit(n);
        return;
      }
      if (n.localName === 'a' && n.hasAttribute('href')) { this.ownerDocument.log.push(['go', n.getAttribute('href')]); return; }
    }
  }
  focus() { this.ownerDocument.activeElement = this; }
  blur() {}
  scrollIntoView() {}
  getBoundingClientRect() { return { x: 0, y: 0, width: 100, height: 20, top: 0, left: 0, right: 100, bottom: 20 }; }
  get offsetWidth() { return 100; } get offsetHeight() { return 20; } get clientWidth() { return 100; } get clientHeight() { return 20; }
  get form() { const f = this.getAttribute('form'); return f ? this.ownerDocument.getElementById(f) : this.parentNode ? this.parentNode.closest && this.parentNode.closest('form') : null; }
}

function flag(...names) {
  return C => {
    for (const n of names) Object.defineProperty(C.prototype, n, {
      get() { return this.hasAttribute(n); }, set(v) { this.toggleAttribute(n, !!v); }, configurable: true,
    });
  };
}
function attr(...names) {
  return C => {
    for (const n of names) Object.defineProperty(C.prototype, n, {
      get() { return this.getAttribute(n) || ''; }, set(v) { this.setAttribute(n, v); }, configurable: true,
    });
  };
}

class Control extends Element {}
flag('disabled', 'required', 'readonly', 'autofocus', 'multiple')(Control);
attr('name', 'placeholder', 'min', 'max', 'step')(Control);

class Input extends Control {
  get type() { return (this.getAttribute('type') || 'text').toLowerCase(); } set type(v) { this.setAttribute('type', v); }
  get _onoff() { return this.type === 'checkbox' || this.type === 'radio'; }
  get value() {
    if (this._onoff) return this.getAttribute('value') === null ? 'on' : this.getAttribute('value');
    if (this.type === 'hidden' || this.type === 'submit') return this.getAttribute('value') || '';
    return this._v !== undefined ? this._v : this.getAttribute('value') || '';
  }
  set value(v) {
    v = v === null ? '' : String(v);
    if (this._onoff || this.type === 'hidden' || this.type === 'submit') this.setAttribute('value', v); else this._v = v;
  }
  get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); } set valueAsNumber(v) { this.value = v; }
  get defaultValue() { return this.getAttribute('value') || ''; } set defaultValue(v) { this.setAttribute('value', v); }
  get checked() { return this._c !== undefined ? this._c : this.hasAttribute('checked'); } set checked(v) { this._c = !!v; }
  get defaultChecked() { return this.hasAttribute('checked'); } set defaultChecked(v) { this.toggleAttribute('checked', !!v); }
  select() {} checkValidity() { return true; } reportValidity() { return true; } setCustomValidity() {}
}
class TextArea extends Control {
  get type() { return 'textarea'; }
  get value() { return this._v !== undefined ? this._v : this.textContent; } set value(v) { this._v = String(v); }
}
class Button extends Control {
  get type() { return (this.getAttribute('type') || 'submit').toLowerCase(); } set type(v) { this.setAttribute('type', v); }
  get value() { return this.getAttribute('value') || ''; } set value(v) { this.setAttribute('value', v); }
}
class Option extends Element {
  get value() { return this.getAttribute('value') === null ? this.textContent.trim() : this.getAttribute('value'); } set value(v) { this.setAttribute('value', v); }
  get text() { return this.textContent.trim(); }
  get selected() { const s = this.closest('select'); return s ? s.options[s.selectedIndex] === this : this.hasAttribute('selected'); }
  set selected(v) { const s = this.closest('select'); if (s && v) s._si = Array.from(s.options).indexOf(this); }
  get index() { return Array.from(this.closest('select').options).indexOf(this); }
}
flag('disabled')(Option);
class Select extends Control {
  get type() { return 'select-one'; }
  get options() { return listy(this._all(e => e.localName === 'option')); }
  get selectedIndex() {
    if (this._si !== undefined) return this._si;
    const o = this.options; let i = -1;
    o.forEach((x, k) => { if (x.hasAttribute('selected')) i = k; });
    return i >= 0 ? i : o.length ? 0 : -1;
  }
  set selectedIndex(i) { this._si = i; }
  get selectedOptions() { return listy([this.options[this.selectedIndex]].filter(Boolean)); }
  get value() { const o = this.options[this.selectedIndex]; return o ? o.value : ''; }
  set value(v) { this._si = this.options.findIndex(o => o.value === String(v)); }
}
class Anchor extends Element {
  get href() { const h = this.getAttribute('href'); return h === null ? '' : resolve(h, this.ownerDocument.URL); }
  set href(v) { this.setAttribute('href', v); }
  get pathname() { return this.href ? new URL(this.href).pathname : ''; }
}
class Form extends Element {
  get elements() { return live(() => this.ownerDocument._all(e => ['input', 'select', 'textarea', 'button'].includes(e.localName) && e.form === this)); }
  get length() { return this.elements.length; }
  get action() { return resolve(this.getAttribute('action') || '', this.ownerDocument.URL); } set action(v) { this.setAttribute('action', v); }
  get method() { return (this.getAttribute('method') || 'get').toLowerCase(); } set method(v) { this.setAttribute('method', v); }
  submit() { this.ownerDocument.log.push(['submit', this.getAttribute('id')]); }
  requestSubmit(b) { const e = new CEvent('submit', { bubbles: true, submitter: b }); if (this.dispatchEvent(e)) this.submit(); }
  reset() {
    for (const e of Array.from(this.elements)) { delete e._v; delete e._c; delete e._si; }
    this.dispatchEvent(new CEvent('reset', { bubbles: true }));
  }
  checkValidity() { return true; } reportValidity() { return true; }
  _activate() {}
}
class Row extends Element {
  get cells() { return listy(this.childNodes.filter(n => n.localName === 'td' || n.localName === 'th')); }
  get rowIndex() { const t = this.closest('table'); return t ? Array.from(t.rows).indexOf(this) : -1; }
  insertCell(i = -1) { const c = make(this.ownerDocument, 'td'); this.insertBefore(c, i < 0 ? null : this.cells[i] || null); return c; }
}
class Table extends Element {
  get rows() { return listy(this._all(e => e.localName === 'tr')); }
  get tBodies() { return listy(this.childNodes.filter(n => n.localName === 'tbody')); }
  get tHead() { return this.childNodes.find(n => n.localName === 'thead') || null; }
  insertRow(i = -1) {
    const r = make(this.ownerDocument, 'tr'), l = this.localName === 'table' && this.tBodies.length ? this.tBodies[this.tBodies.length - 1] : this;
    const at = i < 0 ? null : this.rows[i] || null;
    (at ? at.parentNode : l).insertBefore(r, at); return r;
  }
}
class Template extends Element {}

function resolve(h, base) { try { return new URL(h, base).href; } catch (e) { return h; } }
const KINDS = { input: Input, textarea: TextArea, button: Button, option: Option, select: Select, a: Anchor, form: Form, tr: Row, table: Table, tbody: Table, thead: Table };
function make(doc, tag) { return new (KINDS[tag] || Element)(doc, tag); }

class Document extends Node {
  constructor(url) { super(null); this.ownerDocument = this; this.URL = url; this.log = []; this.readyState = 'loading'; this.activeElement = null; }
  get nodeType() { return 9; }
  get nodeName() { return '#document'; }
  get documentElement() { return this.children[0]; }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  get forms() { return listy(this._all(e => e.localName === 'form')); }
  get location() { return this.defaultView.location; } set location(v) { this.log.push(['go', String(v)]); }
  getElementById(i) { i = String(i); let r = null; this._walk(e => { if (!r && e.id === i) r = e; }); return r; }
  getElementsByName(n) { return live(() => this._all(e => e.getAttribute('name') === n)); }
  createElement(t) { return make(this, t.toLowerCase()); }
  createTextNode(t) { return new Text(this, String(t)); }
  createComment(t) { return new Text(this, String(t), 8); }
  createDocumentFragment() { const f = new Node(this); Object.defineProperty(f, 'nodeType', { value: 11 }); return f; }
  createEvent() { const e = new CEvent(''); e.initEvent = (t, b) => { e.type = t; e.bubbles = !!b; }; return e; }
  importNode(n, d) { return n.cloneNode(d); }
}

// ---------------------------------------------------------------- parsing
function parseInto(root, html) {
  const doc = root.ownerDocument;
  let cur = root, i = 0;
  const text = t => {
    if (!t) return;
    if (TABLEISH.has(cur.localName) && t.trim() && cur !== root) {
      const tb = cur.closest('table'); if (tb && tb.parentNode) { tb.parentNode.insertBefore(new Text(doc, t), tb); return; }
    }
    cur.appendChild(new Text(doc, t));
  };
  const up = (...tags) => { // close open elements up to one of tags
    for (let n = cur; n && n !== root.parentNode; n = n.parentNode) {
      if (tags.includes(n.localName)) { cur = n === root ? root : n.parentNode; return true; }
      if (n === root) return false;
    }
    return false;
  };
  while (i < html.length) {
    if (html[i] !== '<') {
      let j = html.indexOf('<', i); if (j < 0) j = html.length;
      text(decode(html.slice(i, j))); i = j; continue;
    }
    if (html.startsWith('<!--', i)) { let j = html.indexOf('-->', i); i = j < 0 ? html.length : j + 3; continue; }
    if (html.startsWith('<!', i)) { i = html.indexOf('>', i) + 1; continue; }
    let m = /^<\/([a-zA-Z][^\s>\/]*)[^>]*>/.exec(html.slice(i, i + 200));
    if (m) { up(m[1].toLowerCase()); i += m[0].length; continue; }
    m = /^<([a-zA-Z][^\s>\/]*)/.exec(html.slice(i, i + 100));
    if (!m) { text('<'); i++; continue; }
    const tag = m[1].toLowerCase();
    i += m[0].length;
    const el = make(doc, tag);
    for (;;) {
      const r = /\s*(?:(\/?>)|([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?|(\/))/y;
      r.lastIndex = i;
      const a = r.exec(html);
      if (!a) { i = html.length; break; }
      i = r.lastIndex;
      if (a[1]) break;
      if (a[6]) continue;
      const k = a[2].toLowerCase(), v = a[3] ?? a[4] ?? a[5] ?? '';
      if (!el._a.has(k)) el._a.set(k, decode(v));
    }
    // implied end and start tags
    if (tag === 'tr' && cur.localName === 'tr') up('tr');
    if ((tag === 'td' || tag === 'th')) { if (cur.localName === 'td' || cur.localName === 'th') up(cur.localName); }
    if (tag === 'option' && cur.localName === 'option') up('option');
    if (tag === 'li' && cur.localName === 'li') up('li');
    if (tag === 'p' && cur.localName === 'p') up('p');
    if (['tbody', 'thead'].includes(tag) && ['tbody', 'thead'].includes(cur.localName)) up(cur.localName);
    if (tag === 'tr' && cur.localName === 'table') cur = cur.appendChild(make(doc, 'tbody'));
    if (TABLEISH.has(cur.localName) && cur !== root &&
        !['td', 'th', 'tr', 'tbody', 'thead', 'tfoot', 'caption', 'colgroup', 'script', 'style', 'template'].includes(tag) &&
        !(tag === 'input' && el.getAttribute('type') === 'hidden')) {
      // foster parenting
      const tb = cur.closest('table');
      tb.parentNode.insertBefore(el, tb);
      if (!VOID.has(tag)) { const back = cur, e = new RegExp(`</${tag}\\s*>`, 'gi'); e.lastIndex = i; const z = e.exec(html); const stop = z ? z.index : html.length;
        parseInto(el, html.slice(i, stop)); i = z ? e.lastIndex : html.length; cur = back; }
      continue;
    }
    cur.appendChild(el);
    if (VOID.has(tag)) continue;
    if (RAW.has(tag)) {
      const e = new RegExp(`</${tag}\\s*>`, 'gi'); e.lastIndex = i;
      const z = e.exec(html);
      const body = html.slice(i, z ? z.index : html.length);
      el.appendChild(new Text(doc, tag === 'textarea' || tag === 'title' ? decode(body) : body));
      i = z ? e.lastIndex : html.length;
      continue;
    }
    cur = el;
  }
}

// --------------------------------------------------------------- selectors
const selCache = new Map();
function selector(s) {
  if (selCache.has(s)) return selCache.get(s);
  const alts = splitTop(s, ',').map(complex);
  const f = (e, scope) => alts.some(a => a(e, scope));
  selCache.set(s, f);
  return f;
}
function splitTop(s, ch) {
  const out = []; let d = 0, q = null, b = '';
  for (const c of s) {
    if (q) { if (c === q) q = null; } else if (c === '"' || c === "'") q = c;
    else if (c === '[' || c === '(') d++; else if (c === ']' || c === ')') d--;
    if (c === ch && !d && !q) { out.push(b); b = ''; } else b += c;
  }
  out.push(b); return out;
}
function complex(s) {
  const parts = [], combs = []; let i = 0; s = s.trim();
  while (i < s.length) {
    let c = null; const m = /^\s*([>+~])\s*|^\s+/.exec(s.slice(i));
    if (m) { c = m[1] || ' '; i += m[0].length; }
    const [p, n] = compound(s, i);
    if (n === i) throw new SyntaxErrorDom(`'${s}' is not a valid selector`);
    if (parts.length || c) combs.push(c || ' ');
    parts.push(p); i = n;
  }
  if (combs.length === parts.length) { parts.unshift((e, scope) => e === scope); } // "> x"
  const test = (e, k, scope) => {
    if (!e || e.nodeType !== 1 || !parts[k](e, scope)) return false;
    if (k === 0) return true;
    const c = combs[k - 1];
    if (c === '>') return test(e.parentNode, k - 1, scope);
    if (c === '+') return test(e.previousElementSibling, k - 1, scope);
    if (c === '~') { for (let n = e.previousElementSibling; n; n = n.previousElementSibling) if (test(n, k - 1, scope)) return true; return false; }
    for (let n = e.parentNode; n; n = n.parentNode) if (test(n, k - 1, scope)) return true;
    return false;
  };
  return (e, scope) => test(e, parts.length - 1, scope);
}
class SyntaxErrorDom extends Error {}
function compound(s, i) {
  const ts = [];
  for (;;) {
    const r = s.slice(i); let m;
    if ((m = /^\*/.exec(r))) { ts.push(() => true); }
    else if (!ts.length && (m = /^[a-zA-Z][\w-]*/.exec(r))) { const t = m[0].toLowerCase(); ts.push(e => e.localName === t); }
    else if ((m = /^#((?:[\w-]|\\.)+)/.exec(r))) { const v = m[1].replace(/\\/g, ''); ts.push(e => e.id === v); }
    else if ((m = /^\.((?:[\w-]|\\.)+)/.exec(r))) { const v = m[1].replace(/\\/g, ''); ts.push(e => e.classList.contains(v)); }
    else if ((m = /^\[\s*([\w-]+)\s*(?:([~|^$*]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]+))\s*)?\]/.exec(r))) {
      const k = m[1], o = m[2], v = m[3] ?? m[4] ?? m[5];
      ts.push(e => {
        const a = e.getAttribute(k);
        if (a === null) return false;
        if (!o) return true;
        if (o === '=') return a === v;
        if (o === '^=') return a.startsWith(v);
        if (o === '$=') return a.endsWith(v);
        if (o === '*=') return a.includes(v);
        if (o === '~=') return a.split(/\s+/).includes(v);
        return a === v || a.startsWith(v + '-');
      });
    } else if ((m = /^:not\(/.exec(r)) || (m = /^:is\(/.exec(r)) || (m = /^:has\(/.exec(r))) {
      let d = 1, j = i + m[0].length; const st = j;
      while (d && j < s.length) { if (s[j] === '(') d++; if (s[j] === ')') d--; j++; }
      const inner = s.slice(st, j - 1), kind = m[0];
      ts.push((e, sc) => kind === ':not(' ? !selector(inner)(e, sc) : kind === ':is(' ? selector(inner)(e, sc) : e.querySelector(inner) !== null);
      i = j; continue;
    } else if ((m = /^:nth-(last-)?child\((\d+|odd|even)\)/.exec(r))) {
      const [_, last, n] = m;
      ts.push(e => { const l = Array.from(e.parentNode.children); let k = l.indexOf(e) + 1; if (last) k = l.length + 1 - k; return n === 'odd' ? k % 2 === 1 : n === 'even' ? k % 2 === 0 : k === +n; });
    } else if ((m = /^:(checked|disabled|enabled|first-child|last-child|only-child|first-of-type|last-of-type|empty|scope|root)/.exec(r))) {
      const k = m[1];
      ts.push((e, sc) => ({
        checked: () => !!e.checked || (e.localName === 'option' && e.selected), disabled: () => !!e.disabled, enabled: () => 'disabled' in e && !e.disabled,
        'first-child': () => !e.previousElementSibling, 'last-child': () => !e.nextElementSibling,
        'only-child': () => !e.previousElementSibling && !e.nextElementSibling,
        'first-of-type': () => Array.from(e.parentNode.children).find(x => x.localName === e.localName) === e,
        'last-of-type': () => Array.from(e.parentNode.children).reverse().find(x => x.localName === e.localName) === e,
        empty: () => !e.childNodes.length, scope: () => e === sc, root: () => e.localName === 'html',
      })[k]());
    } else break;
    i += m[0].length;
  }
  return [(e, sc) => ts.every(t => t(e, sc)), i];
}

// ------------------------------------------------------------------ window
function formEntries(form, submitter) {
  const out = [];
  for (const e of [...form.elements]) {
    if (e.disabled || !e.getAttribute('name')) continue;
    if (e.localName === 'button' || (e.localName === 'input' && ['submit', 'button', 'image', 'reset'].includes(e.type))) { if (e === submitter) out.push([e.name, e.value]); continue; }
    if (e.localName === 'input' && (e.type === 'checkbox' || e.type === 'radio') && !e.checked) continue;
    out.push([e.name, e.value]);
  }
  return out;
}

const pages = new Map();
function load(key, html) {
  if (html !== undefined) {
    const p = new Document('http://none/');
    parseInto(p, html);
    if (pages.size > 30) pages.clear();
    pages.set(key, p);
  }
  return pages.get(key);
}
function adopt(n, doc) { n.ownerDocument = doc; for (const c of n.childNodes) adopt(c, doc); return n; }

function browser(page, url, width) {
  const doc = new Document(url);
  for (const c of page.childNodes) doc.appendChild(adopt(c.cloneNode(true), doc));
  const timers = []; let now = 0, tid = 0;
  const win = {};
  vm.createContext(win);
  const T = new Target();
  const frag = {
    document: doc, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
    setTimeout: (f, ms = 0, ...a) => { timers.push({ id: ++tid, at: now + (+ms || 0), f, a }); return tid; },
    clearTimeout: id => { const i = timers.findIndex(t => t.id === id); if (i >= 0) timers.splice(i, 1); },
    setInterval: () => ++tid, clearInterval() {},
    requestAnimationFrame: f => { timers.push({ id: ++tid, at: now + 16, f, a: [now] }); return tid; }, cancelAnimationFrame() {},
    queueMicrotask: f => { timers.push({ id: ++tid, at: now, f, a: [] }); },
    location: { href: url, origin: new URL(url).origin, pathname: new URL(url).pathname, search: '', hash: '', assign(v) { doc.log.push(['go', v]); }, reload() { doc.log.push(['go', url]); }, replace(v) { doc.log.push(['go', v]); } },
    addEventListener: (...a) => T.addEventListener(...a), removeEventListener: (...a) => T.removeEventListener(...a), dispatchEvent: e => { e.target = win; T._fire(e, 2); return !e.defaultPrevented; },
    innerWidth: width, innerHeight: 900, outerWidth: width, outerHeight: 900, devicePixelRatio: 1, screen: { width, height: 900 },
    Event: CEvent, CustomEvent: CEvent, MouseEvent: CEvent, InputEvent: CEvent, Node, Element, HTMLElement: Element, HTMLInputElement: Input, HTMLSelectElement: Select, Option, Text,
    URL, URLSearchParams, alert() {}, confirm: () => true, scrollTo() {}, matchMedia: q => {
      const m = /\((min|max)-width:\s*([\d.]+)px\)/.exec(q);
      return { get matches() { return m ? (m[1] === 'min' ? win.innerWidth >= +m[2] : win.innerWidth <= +m[2]) : false; }, addEventListener() {}, addListener() {} };
    },
    getComputedStyle: e => e.style, localStorage: storage(), sessionStorage: storage(), navigator: { userAgent: 'mini' },
    CSS: { escape: s => s }, structuredClone,
    FormData: class { constructor(f, b) { this.l = f ? formEntries(f, b) : []; } get(k) { const x = this.l.find(y => y[0] === k); return x ? x[1] : null; } getAll(k) { return this.l.filter(y => y[0] === k).map(y => y[1]); } has(k) { return this.l.some(y => y[0] === k); } set(k, v) { this.delete(k); this.l.push([k, v]); } append(k, v) { this.l.push([k, v]); } delete(k) { this.l = this.l.filter(y => y[0] !== k); } entries() { return this.l[Symbol.iterator](); } [Symbol.iterator]() { return this.l[Symbol.iterator](); } },
    MutationObserver: class { observe() { throw new Unsupported('MutationObserver'); } disconnect() {} },
  };
  Object.assign(win, frag);
  win.window = win; win.self = win; win.globalThis = win; win.top = win; win.parent = win;
  doc.defaultView = { _fire: (e, p) => T._fire(e, p), location: win.location, nodeType: 0 };
  win.onload = null;
  win.Plotly = plotly(doc);
  return {
    doc, win,
    tick(ms) {
      const end = now + ms;
      for (;;) {
        timers.sort((a, b) => a.at - b.at || a.id - b.id);
        if (!timers.length || timers[0].at > end) break;
        const t = timers.shift(); now = Math.max(now, t.at);
        if (typeof t.f === 'function') t.f(...t.a); else vm.runInContext(String(t.f), win);
      }
      now = end;
    },
    windowEvent(t) { const e = new CEvent(t); e.target = win; T._fire(e, 2); if (typeof win['on' + t] === 'function') win['on' + t](e); },
  };
}
function storage() {
  const m = new Map();
  return { getItem: k => m.has(k) ? m.get(k) : null, setItem: (k, v) => { m.set(k, String(v)); }, removeItem: k => { m.delete(k); }, clear() { m.clear(); } };
}

// ------------------------------------------------- what Plotly would show
function plotly(doc) {
  const el = g => { const e = typeof g === 'string' ? doc.getElementById(g) : g; if (!e) throw new Error('No DOM element with id exists on the page'); return e; };
  const cp = x => x === undefined ? undefined : JSON.parse(JSON.stringify(x));
  const done = g => Promise.resolve(g);
  const idx = (gd, i) => { const l = Array.isArray(i) ? i : [i]; return l.map(k => k < 0 ? gd.data.length + k : k); };
  const P = {
    newPlot(g, data, layout, config) {
      const gd = el(g);
      if (data && !Array.isArray(data)) { layout = data.layout; data = data.data; }
      gd.data = cp(data || []); gd.layout = cp(layout || {}); gd.shown = true; return done(gd);
    },
    react(g, data, layout) { return P.newPlot(g, data, layout); },
    plot(g, data, layout) { const gd = el(g); if (gd.shown) { gd.data.push(...cp(data || [])); return done(gd); } return P.newPlot(g, data, layout); },
    addTraces(g, tr, at) {
      const gd = el(g); if (!gd.data) throw new Error('gd.data must be an array.');
      const l = cp(Array.isArray(tr) ? tr : [tr]);
      if (at === undefined || at === null) { gd.data.push(...l); return done(gd); }
      const a = Array.isArray(at) ? at : [at];
      const n = gd.data.length;
      a.map((k, j) => [k < 0 ? n + l.length + k : k, l[j]]).sort((x, y) => x[0] - y[0]).forEach(([k, t]) => gd.data.splice(k, 0, t));
      return done(gd);
    },
    deleteTraces(g, i) { const gd = el(g); const d = new Set(idx(gd, i)); gd.data = gd.data.filter((_, k) => !d.has(k)); return done(gd); },
    moveTraces() { throw new Unsupported('moveTraces'); },
    restyle(g, upd, val, i) {
      const gd = el(g);
      if (typeof upd === 'string') upd = { [upd]: val }; else i = val;
      const on = i === undefined || i === null ? gd.data.map((_, k) => k) : idx(gd, i);
      for (const [k, v] of Object.entries(upd)) on.forEach((t, j) => {
        let o = gd.data[t]; const p = k.split('.'); const last = p.pop();
        for (const q of p) o = (o[q] ||= {});
        o[last] = Array.isArray(v) ? v[j % v.length] : v;
      });
      return done(gd);
    },
    relayout(g, upd, v) { const gd = el(g); gd.layout ||= {}; if (typeof upd === 'string') gd.layout[upd] = v; else Object.assign(gd.layout, upd); return done(gd); },
    update(g, tr, lay, i) {
      // as plotly.js: anything but a plain object is ignored, and the
      // element must be a plot already
      const gd = el(g);
      if (!gd.data) throw new TypeError("Cannot read properties of undefined (reading 'map')");
      if (tr && !Array.isArray(tr)) P.restyle(g, tr, i);
      if (lay && !Array.isArray(lay)) P.relayout(g, lay);
      return done(gd);
    },
    redraw: g => done(el(g)), purge(g) { const gd = el(g); delete gd.data; delete gd.layout; gd.shown = false; },
    Plots: { resize: g => done(el(g)) }, d3: {}, relayoutPlot() {},
  };
  return P;
}

// --------------------------------------------------------------- the driver
const KNOWN_DOM = new Set(('animate attachShadow before computedStyleMap createContextualFragment createRange createTreeWalker ' +
  'createNodeIterator elementFromPoint fetch getSelection hasPointerCapture IntersectionObserver ResizeObserver DOMParser ' +
  'XMLHttpRequest requestIdleCallback setPointerCapture showModal showPicker stepUp stepDown toggleAttribute compareDocumentPosition ' +
  'isEqualNode isSameNode deleteRow createTBody createTHead deleteCell AbortController Blob Image Worker getAttributeNode ' +
  'setAttributeNode write evaluate extendTraces prependTraces animateFrames validate toImage makeTemplate DOMRect Proxy').split(' '));

function shownTrace(t) {
  return { x: t.x, y: t.y, mode: t.mode, type: t.type, h: t.hovertemplate === undefined ? null : t.hovertemplate,
    c: (t.marker && t.marker.color) || (t.line && t.line.color) || null, lc: (t.line && t.line.color) || null,
    v: t.visible === undefined ? true : t.visible, o: t.opacity === undefined ? 1 : t.opacity, f: t.fillcolor || null, n: t.name === undefined ? null : t.name };
}
function hiddenBy(e) { for (let n = e; n && n.nodeType === 1; n = n.parentNode) if (n.style.display === 'none' || n.hidden) return true; return false; }

function observe(b, what) {
  const d = b.doc, o = {};
  const form = d.getElementById('mainform');
  if (what.includes('form')) o.form = formEntries(form, d.getElementById('analysis_button'));
  if (what.includes('rows')) {
    o.rows = {};
    for (const t of ['Materials', 'Udls', 'LineLoads'])
      o.rows[t] = Array.from(d.getElementsByClassName('formset-row-' + t)).map(r =>
        r._all(e => ['input', 'select'].includes(e.localName)).map(e => [e.getAttribute('name'), e.localName === 'input' && e.type === 'checkbox' ? e.checked : e.value, e.id]));
  }
  if (what.includes('buttons')) {
    const a = d.getElementById('analysis_button'), p = d.getElementById('pdf_button');
    o.analyse = !a.disabled;
    o.pdf = p.classList.contains('disabled') || !p.getAttribute('href') ? null : p.href;
    o.pdfHref = p.getAttribute('href'); o.pdfOff = p.classList.contains('disabled');
    o.spinner = !hiddenBy(d.getElementById('loading-spinner'));
  }
  if (what.includes('shown')) {
    o.shown = {};
    for (const e of d._all(e => ['input', 'select'].includes(e.localName) && e.type !== 'hidden' && e.name)) o.shown[e.name] = !hiddenBy(e);
    o.sliders = d._all(e => e.localName === 'input' && e.type === 'range').map(e => [e.name, e.value, e.parentNode.textContent.trim()]);
  }
  if (what.includes('plot')) {
    const g = d.getElementById('plotly_js');
    o.plot = (g.data || []).map(shownTrace);
    o.layout = { shapes: ((g.layout || {}).shapes || []).length, annotations: ((g.layout || {}).annotations || []).length };
    const m = d.getElementById('mobile_screen_menus');
    o.mobile = !hiddenBy(m);
    o.labels = m.textContent.replace(d.getElementById('mobile_soil_table').textContent, '');
    o.soil = Array.from(d.getElementById('mobile_soil_table').children).map(tr => Array.from(tr.children).map(td => [td.textContent, td.style.backgroundColor]));
    o.scale = Array.from(d.getElementById('FOS_legend').children).map(td => td.style.backgroundColor);
  }
  o.log = d.log.slice();
  return o;
}

function find(b, t) {
  const d = b.doc;
  if (t.id) return d.getElementById(t.id);
  if (t.name) return d._all(e => e.getAttribute('name') === t.name)[0] || null;
  if (t.row) { // control k of row i of a formset, whatever it is called
    const r = d.getElementsByClassName('formset-row-' + t.row)[t.i];
    if (!r) return null;
    if (t.k === 'X') return r.querySelector('button');
    return r._all(e => ['input', 'select'].includes(e.localName) && e.type !== 'hidden')[t.k] || null;
  }
  return null;
}

function run(job) {
  const b = browser(load(job.key, job.html), job.url, job.width);
  const res = { steps: [] };
  const snap = () => res.steps.push(observe(b, job.what));
  try {
    for (const s of job.scripts) compiled(s).runInContext(b.win);
    b.doc.readyState = 'interactive';
    b.doc.dispatchEvent(new CEvent('DOMContentLoaded', { bubbles: true }));
    b.doc.readyState = 'complete';
    b.windowEvent('load');
    b.tick(job.settle === undefined ? 1000 : job.settle);
    if (job.all || !job.ops.length) snap();
    job.ops.forEach((op, k) => {
      const [kind, t, v] = op;
      if (kind === 'click') { const e = find(b, t); if (!e) throw new Error('no element ' + JSON.stringify(t)); e.click(); }
      else if (kind === 'set') {
        const e = find(b, t); if (!e) throw new Error('no element ' + JSON.stringify(t));
        if (e.localName === 'input' && e.type === 'checkbox') { if (e.checked !== v) e.click(); }
        else { e.value = v; e.dispatchEvent(new CEvent('input', { bubbles: true })); e.dispatchEvent(new CEvent('change', { bubbles: true })); }
      } else if (kind === 'drag') { const e = find(b, t); e.value = v; e.dispatchEvent(new CEvent('input', { bubbles: true })); }
      else if (kind === 'resize') { b.win.innerWidth = t; b.win.outerWidth = t; b.windowEvent('resize'); }
      else if (kind === 'wait') b.tick(t);
      b.tick(0);
      if (job.all || k === job.ops.length - 1) snap();
    });
  } catch (e) {
    const msg = String(e && e.message || e);
    const m = /([\w$]+) is not (?:a function|defined|a constructor)/.exec(msg);
    if (e instanceof Unsupported || (m && KNOWN_DOM.has(m[1]))) res.unsupported = msg;
    else res.error = msg + ' ' + String(e && e.stack || '').split('\n').slice(1, 3).join(' ');
  }
  return res;
}

process.on('unhandledRejection', () => {});
let buf = '';
process.stdin.on('data', c => {
  buf += c;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const line = buf.slice(0, i); buf = buf.slice(i + 1);
    if (line.trim()) process.stdout.write(JSON.stringify(run(JSON.parse(line))) + '\n');
  }
});
