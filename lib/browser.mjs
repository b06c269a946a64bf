// A small browser: enough of the DOM to run the scripts of a page under node, without layout.
// Reads one JSON request per line on standard input, answers with one JSON line.
import { registerHooks } from 'node:module';
import { pathToFileURL } from 'node:url';
import fs from 'node:fs';
import path from 'node:path';
import readline from 'node:readline';
import vm from 'node:vm';

const STATIC = process.argv[2];

// "/static/x.js" is the folder of the scripts, as on the web site
registerHooks({
  resolve(spec, ctx, next) {
    const m = /^(?:file:\/\/)?\/static\/([^?]*)/.exec(spec);
    if (m) return { url: pathToFileURL(path.join(STATIC, m[1])).href, format: 'module', shortCircuit: true };
    return next(spec, ctx);
  },
  load(url, ctx, next) {
    if (url.startsWith(pathToFileURL(STATIC).href)) {
      return { format: 'module', source: fs.readFileSync(new URL(url), 'utf8'), shortCircuit: true };
    }
    return next(url, ctx);
  },
});

// ------------------------------------------------------------------------------- selectors
const selCache = new Map();

function parseSelector(src) {
  let c = selCache.get(src);
  if (c) return c;
  let i = 0;
  const err = () => { throw new DOMException(`'${src}' is not a valid selector`, 'SyntaxError'); };
  const ws = () => { while (i < src.length && /\s/.test(src[i])) i++; };
  const ident = () => {
    let s = '';
    while (i < src.length) {
      if (src[i] === '\\') {
        const h = /^\\([0-9a-fA-F]{1,6})\s?/.exec(src.slice(i));
        if (h) { s += String.fromCodePoint(parseInt(h[1], 16)); i += h[0].length; } else { s += src[i + 1] ?? err(); i += 2; }
      } else if (/[-\w]/.test(src[i]) || src.charCodeAt(i) > 127) { s += src[i++]; } else break;
    }
    if (!s) err();
    return s;
  };
  function list(relative, end) {
    const out = [];
    for (;;) {
      out.push(complex(relative));
      ws();
      if (src[i] === ',') { i++; continue; }
      if (end ? src[i] === end : i >= src.length) break;
      err();
    }
    return out;
  }
  function complex(relative) {
    const parts = [];
    ws();
    let comb = null;
    if (/[>+~]/.test(src[i] || '')) {
      if (!relative) err();
      comb = src[i++]; ws();
    } else if (relative) comb = ' ';
    parts.push({ comb, tests: compound() });
    for (;;) {
      const at = i;
      ws();
      if (i >= src.length || src[i] === ',' || src[i] === ')') break;
      if (/[>+~]/.test(src[i])) { comb = src[i++]; ws(); } else if (i > at) comb = ' '; else err();
      parts.push({ comb, tests: compound() });
    }
    return parts;
  }
  function compound() {
    const t = [];
    const start = i;
    if (src[i] === '*') { i++; t.push(() => true); } else if (/[a-zA-Z_]/.test(src[i] || '') || src[i] === '\\') {
      if (/^\d/.test(src[i])) err();
      const n = ident().toLowerCase();
      t.push(e => e.localName === n);
    }
    for (;;) {
      const ch = src[i];
      if (ch === '.') { i++; const n = ident(); t.push(e => e.classList.contains(n)); } else if (ch === '#') {
        i++; if (/\d/.test(src[i] || '')) err(); const n = ident(); t.push(e => e.id === n && n !== '');
      } else if (ch === '&') { i++; t.push((e, s) => e === s); } else if (ch === '[') {
        const close = () => { ws(); if (src[i] !== ']') err(); i++; };
        i++; ws();
        const n = ident().toLowerCase(); ws();
        if (src[i] === ']') { i++; t.push(e => e.hasAttribute(n)); continue; }
        const op = /^[~|^$*!]?=/.exec(src.slice(i));
        if (!op) err();
        i += op[0].length; ws();
        let v = '';
        if (src[i] === '"' || src[i] === "'") {
          const q = src[i++];
          while (i < src.length && src[i] !== q) { if (src[i] === '\\') i++; v += src[i++]; }
          i++;
        } else v = ident();
        ws();
        if (/[isIS]/.test(src[i] || '')) i++;
        close();
        const f = {
          '=': a => a === v, '~=': a => v !== '' && a.split(/\s+/).includes(v), '|=': a => a === v || a.startsWith(v + '-'),
          '^=': a => v !== '' && a.startsWith(v), '$=': a => v !== '' && a.endsWith(v), '*=': a => v !== '' && a.includes(v),
        }[op[0]] || err();
        t.push(e => e.hasAttribute(n) && f(e.getAttribute(n)));
      } else if (ch === ':') {
        i++;
        if (src[i] === ':') err();
        const n = ident().toLowerCase();
        const arg = f => { if (src[i] !== '(') err(); i++; const x = f(); ws(); if (src[i] !== ')') err(); i++; return x; };
        const idx = e => [...e.parentNode?.children ?? [e]].indexOf(e);
        const ridx = e => (e.parentNode?.children ?? [e]).length - 1 - idx(e);
        const same = e => [...e.parentNode?.children ?? [e]].filter(x => x.localName === e.localName);
        const nth = () => arg(() => {
          const m = /^\s*(?:(odd|even)|([+-]?\d*)n\s*(?:([+-])\s*(\d+))?|([+-]?\d+))\s*/i.exec(src.slice(i));
          if (!m) err();
          i += m[0].length;
          let a = 0, b;
          if (m[1]) { a = 2; b = m[1].toLowerCase() === 'odd' ? 1 : 0; } else if (m[5] !== undefined) b = +m[5];
          else { a = m[2] === '' || m[2] === '+' ? 1 : m[2] === '-' ? -1 : +m[2]; b = m[4] ? +(m[3] + m[4]) : 0; }
          return k => a ? (k - b) % a === 0 && (k - b) / a >= 0 : k === b;
        });
        switch (n) {
          case 'not': { const l = arg(() => list(false, ')')); t.push((e, s) => !l.some(x => matchComplex(e, x, s))); break; }
          case 'is': case 'where': case 'matches': { const l = arg(() => list(false, ')')); t.push((e, s) => l.some(x => matchComplex(e, x, s))); break; }
          case 'has': {
            const l = arg(() => list(true, ')'));
            t.push(e => l.some(x => hasRel(e, x)));
            break;
          }
          case 'scope': t.push((e, s) => e === s); break;
          case 'root': t.push(e => e === e.ownerDocument.documentElement); break;
          case 'first-child': t.push(e => idx(e) === 0); break;
          case 'last-child': t.push(e => ridx(e) === 0); break;
          case 'only-child': t.push(e => idx(e) === 0 && ridx(e) === 0); break;
          case 'first-of-type': t.push(e => same(e)[0] === e); break;
          case 'last-of-type': t.push(e => same(e).at(-1) === e); break;
          case 'nth-child': { const f = nth(); t.push(e => f(idx(e) + 1)); break; }
          case 'nth-last-child': { const f = nth(); t.push(e => f(ridx(e) + 1)); break; }
          case 'nth-of-type': { const f = nth(); t.push(e => f(same(e).indexOf(e) + 1)); break; }
          case 'empty': t.push(e => e.childNodes.length === 0); break;
          case 'hover': t.push(e => up(e.ownerDocument._hover, e)); break;
          case 'active': t.push(() => false); break;
          case 'focus': case 'focus-visible': t.push(e => e.ownerDocument.activeElement === e && e !== e.ownerDocument.body); break;
          case 'focus-within': t.push(e => e.contains(e.ownerDocument.activeElement) && e.ownerDocument.activeElement !== e.ownerDocument.body); break;
          case 'link': case 'any-link': t.push(e => (e.localName === 'a' || e.localName === 'area') && e.hasAttribute('href')); break;
          case 'visited': t.push(() => false); break;
          case 'checked': t.push(e => e.hasAttribute('checked') || e.hasAttribute('selected')); break;
          case 'disabled': t.push(e => ['button', 'input', 'select', 'textarea', 'option', 'fieldset', 'optgroup'].includes(e.localName) && e.hasAttribute('disabled')); break;
          case 'enabled': t.push(e => ['button', 'input', 'select', 'textarea', 'option', 'fieldset', 'optgroup'].includes(e.localName) && !e.hasAttribute('disabled')); break;
          case 'target': t.push(() => false); break;
          default: err();
        }
      } else break;
    }
    if (i === start) err();
    return t;
  }
  if (typeof src !== 'string') src = String(src);
  const out = list(false, null);
  selCache.set(src, out);
  return out;
}

function up(from, e) {
  for (let x = from; x; x = x.parentElement) if (x === e) return true;
  return false;
}

function matchTests(e, tests, scope) {
  for (const t of tests) if (!t(e, scope)) return false;
  return true;
}

function matchComplex(e, parts, scope, k = parts.length - 1) {
  if (!matchTests(e, parts[k].tests, scope)) return false;
  const comb = parts[k].comb;
  if (k === 0) return comb === null;
  if (comb === '>') { const p = e.parentElement; return !!p && matchComplex(p, parts, scope, k - 1); }
  if (comb === ' ') { for (let p = e.parentElement; p; p = p.parentElement) if (matchComplex(p, parts, scope, k - 1)) return true; return false; }
  if (comb === '+') { const p = e.previousElementSibling; return !!p && matchComplex(p, parts, scope, k - 1); }
  for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (matchComplex(p, parts, scope, k - 1)) return true;
  return false;
}

function hasRel(anchor, parts) {
  // :has(): the first part is relative to the anchor
  const first = parts[0];
  let cands;
  if (first.comb === '>') cands = [...anchor.children];
  else if (first.comb === '+') cands = anchor.nextElementSibling ? [anchor.nextElementSibling] : [];
  else if (first.comb === '~') { cands = []; for (let s = anchor.nextElementSibling; s; s = s.nextElementSibling) cands.push(s); } else cands = descendants(anchor);
  cands = cands.filter(c => matchTests(c, first.tests, anchor));
  for (let k = 1; k < parts.length && cands.length; k++) {
    const nextSet = new Set();
    for (const c of cands) {
      const comb = parts[k].comb;
      let pool;
      if (comb === '>') pool = [...c.children];
      else if (comb === ' ') pool = descendants(c);
      else if (comb === '+') pool = c.nextElementSibling ? [c.nextElementSibling] : [];
      else { pool = []; for (let s = c.nextElementSibling; s; s = s.nextElementSibling) pool.push(s); }
      for (const x of pool) if (matchTests(x, parts[k].tests, anchor)) nextSet.add(x);
    }
    cands = [...nextSet];
  }
  return cands.length > 0;
}

function* walkEls(n) {
  for (const c of n._kids) if (c.nodeType === 1) { yield c; yield* walkEls(c); }
}

function descendants(n) { return [...walkEls(n)]; }

// ------------------------------------------------------------------------------------ events
class EventTarget_ {
  addEventListener(type, fn, opt) {
    if (!fn) return;
    const capture = typeof opt === 'object' ? !!opt?.capture : !!opt;
    const once = typeof opt === 'object' && !!opt?.once;
    const l = (this._ls ??= []);
    if (!l.some(x => x.type === type && x.fn === fn && x.capture === capture)) l.push({ type, fn, capture, once });
    if (typeof opt === 'object' && opt?.signal) opt.signal.addEventListener('abort', () => this.removeEventListener(type, fn, opt));
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === 'object' ? !!opt?.capture : !!opt;
    if (this._ls) this._ls = this._ls.filter(x => !(x.type === type && x.fn === fn && x.capture === capture));
  }
  dispatchEvent(ev) {
    ev.target = this;
    const chain = [];
    for (let n = this; n; n = n.parentNode) chain.push(n);
    if (chain.at(-1) === document && this !== window) chain.push(window);
    const call = (n, phase) => {
      for (const l of [...(n._ls || [])]) {
        if (l.type !== ev.type || (n !== this && l.capture !== (phase === 1)) || ev._now) continue;
        if (l.once) n._ls = n._ls.filter(x => x !== l);
        ev.currentTarget = n;
        ev.eventPhase = phase;
        try { typeof l.fn === 'function' ? l.fn.call(n, ev) : l.fn.handleEvent(ev); } catch (e) { report(e); }
      }
      const h = n['on' + ev.type];
      if (typeof h === 'function' && phase !== 1 && !ev._now) { try { h.call(n, ev); } catch (e) { report(e); } }
    };
    for (const n of chain.slice(1).reverse()) { if (ev._stop) break; call(n, 1); }
    if (!ev._stop) call(this, 2);
    if (ev.bubbles) for (const n of chain.slice(1)) { if (ev._stop) break; call(n, 3); }
    ev.currentTarget = null;
    return !ev.defaultPrevented;
  }
}

class Event_ {
  constructor(type, init = {}) {
    this.type = type; this.bubbles = false; this.cancelable = false; this.defaultPrevented = false;
    Object.assign(this, init);
    this.timeStamp = 0; this.isTrusted = true;
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._now = true; }
  composedPath() { const o = []; for (let n = this.target; n; n = n.parentNode) o.push(n); return o; }
  get srcElement() { return this.target; }
  getModifierState() { return false; }
}

let errors = [];
function report(e) { errors.push(String(e?.stack || e).split('\n').slice(0, 4).join(' | ')); }

// --------------------------------------------------------------------------------------- DOM
class Node_ extends EventTarget_ {
  constructor(doc) { super(); this._kids = []; this.parentNode = null; this.ownerDocument = doc; }
  get childNodes() { return listOf(this._kids); }
  get children() { return listOf(this._kids.filter(k => k.nodeType === 1)); }
  get childElementCount() { return this.children.length; }
  get parentElement() { return this.parentNode?.nodeType === 1 ? this.parentNode : null; }
  get firstChild() { return this._kids[0] ?? null; }
  get lastChild() { return this._kids.at(-1) ?? null; }
  get firstElementChild() { return this._kids.find(k => k.nodeType === 1) ?? null; }
  get lastElementChild() { return this._kids.findLast(k => k.nodeType === 1) ?? null; }
  _sib(d, el) {
    const s = this.parentNode?._kids;
    if (!s) return null;
    for (let i = s.indexOf(this) + d; i >= 0 && i < s.length; i += d) if (!el || s[i].nodeType === 1) return s[i];
    return null;
  }
  get nextSibling() { return this._sib(1); }
  get previousSibling() { return this._sib(-1); }
  get nextElementSibling() { return this._sib(1, true); }
  get previousElementSibling() { return this._sib(-1, true); }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument || n === document; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  hasChildNodes() { return this._kids.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  isSameNode(o) { return this === o; }
  isEqualNode(o) { return !!o && serialize(this) === serialize(o); }
  get textContent() { return this.nodeType === 3 || this.nodeType === 8 ? this.data : this._kids.filter(k => k.nodeType !== 8).map(k => k.textContent).join(''); }
  set textContent(s) {
    if (this.nodeType === 3) { this.data = String(s); return; }
    this.replaceChildren(...(s === '' || s == null ? [] : [String(s)]));
  }
  get nodeValue() { return this.nodeType === 3 || this.nodeType === 8 ? this.data : null; }
  set nodeValue(s) { if (this.nodeType === 3) this.data = String(s); }
  _node(x) { return x instanceof Node_ ? x : new Text_(this.ownerDocument ?? this, String(x)); }
  insertBefore(n, ref) {
    if (n.nodeType === 11) { for (const k of [...n._kids]) this.insertBefore(k, ref); return n; }
    if (n.contains(this)) throw new DOMException('the new child contains the parent', 'HierarchyRequestError');
    n.parentNode?._drop(n);
    const i = ref ? this._kids.indexOf(ref) : this._kids.length;
    if (i < 0) throw new DOMException('not a child', 'NotFoundError');
    this._kids.splice(i, 0, n);
    n.parentNode = this;
    loaded(n);
    return n;
  }
  _drop(n) { const i = this._kids.indexOf(n); if (i >= 0) this._kids.splice(i, 1); n.parentNode = null; }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) { if (n.parentNode !== this) throw new DOMException('not a child', 'NotFoundError'); this._drop(n); return n; }
  replaceChild(n, o) { this.insertBefore(n, o); this._drop(o); return o; }
  append(...xs) { for (const x of xs) this.appendChild(this._node(x)); }
  prepend(...xs) { const f = this.firstChild; for (const x of xs) this.insertBefore(this._node(x), f); }
  replaceChildren(...xs) { for (const k of [...this._kids]) this._drop(k); this.append(...xs); }
  remove() { this.parentNode?._drop(this); }
  before(...xs) { for (const x of xs) this.parentNode?.insertBefore(this._node(x), this); }
  after(...xs) { const r = this.nextSibling; const p = this.parentNode; for (const x of xs) p?.insertBefore(this._node(x), r); }
  replaceWith(...xs) { const p = this.parentNode; if (!p) return; this.before(...xs); p._drop(this); }
  normalize() {}
  cloneNode(deep) {
    let c;
    if (this.nodeType === 3) c = new Text_(this.ownerDocument, this.data);
    else if (this.nodeType === 8) c = new Comment_(this.ownerDocument, this.data);
    else if (this.nodeType === 11) c = new Fragment_(this.ownerDocument);
    else { c = new Element_(this.ownerDocument, this.localName); for (const [k, v] of this._attrs) c._attrs.set(k, v); }
    if (deep) for (const k of this._kids) { const x = k.cloneNode(true); c._kids.push(x); x.parentNode = c; }
    return c;
  }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    const path_ = n => { const p = []; for (; n; n = n.parentNode) p.unshift(n); return p; };
    const a = path_(this), b = path_(o);
    if (a[0] !== b[0]) return 1 | 32 | 2;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i === a.length) return 16 | 4;
    if (i === b.length) return 8 | 2;
    const k = a[i - 1]._kids;
    return k.indexOf(a[i]) < k.indexOf(b[i]) ? 4 : 2;
  }
  querySelectorAll(s) {
    const l = parseSelector(s), scope = this.nodeType === 9 ? this.documentElement : this;
    return listOf(descendants(this).filter(e => l.some(x => matchComplex(e, x, scope))));
  }
  querySelector(s) {
    const l = parseSelector(s), scope = this.nodeType === 9 ? this.documentElement : this;
    for (const e of walkEls(this)) if (l.some(x => matchComplex(e, x, scope))) return e;
    return null;
  }
  getElementsByTagName(t) { t = t.toLowerCase(); return listOf(descendants(this).filter(e => t === '*' || e.localName === t)); }
  getElementsByClassName(c) { const cs = c.split(/\s+/).filter(Boolean); return listOf(descendants(this).filter(e => cs.every(x => e.classList.contains(x)))); }
}
Object.assign(Node_.prototype, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11,
  DOCUMENT_POSITION_DISCONNECTED: 1, DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });
Object.assign(Node_, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11,
  DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });

class NodeList_ extends Array {
  item(i) { return this[i] ?? null; }
  namedItem(n) { return this.find(e => e.id === n) ?? null; }
}
// as in a browser, these belong to arrays and not to node lists
for (const k of ['map', 'filter', 'find', 'findLast', 'findIndex', 'indexOf', 'includes', 'some', 'every', 'reduce', 'slice', 'concat', 'at',
  'reverse', 'sort', 'splice', 'push', 'pop', 'shift', 'unshift', 'flatMap', 'flat', 'join', 'lastIndexOf', 'fill', 'findLastIndex', 'reduceRight',
  'toReversed', 'toSorted', 'toSpliced', 'with', 'copyWithin']) {
  Object.defineProperty(NodeList_.prototype, k, { value: undefined });
}
Object.defineProperty(NodeList_, Symbol.species, { get: () => Array });
function listOf(a) { const l = new NodeList_(); for (let i = 0; i < a.length; i++) l[i] = a[i]; return l; }

class Text_ extends Node_ {
  constructor(d, s) { super(d); this.nodeType = 3; this.nodeName = '#text'; this.data = s; }
  get wholeText() { return this.data; }
}
class Comment_ extends Node_ { constructor(d, s) { super(d); this.nodeType = 8; this.nodeName = '#comment'; this.data = s; } }
class Fragment_ extends Node_ { constructor(d) { super(d); this.nodeType = 11; this.nodeName = '#document-fragment'; } }

class TokenList {
  constructor(e) { this.e = e; }
  get _l() { return [...new Set((this.e.getAttribute('class') ?? '').split(/\s+/).filter(Boolean))]; }
  _set(l) { this.e.setAttribute('class', l.join(' ')); }
  _ok(c) { if (c === '' || /\s/.test(c)) throw new DOMException(`bad token '${c}'`, c === '' ? 'SyntaxError' : 'InvalidCharacterError'); return String(c); }
  contains(c) { return this._l.includes(String(c)); }
  add(...cs) { const l = this._l; for (const c of cs) if (!l.includes(this._ok(c))) l.push(String(c)); this._set(l); }
  remove(...cs) { cs.forEach(c => this._ok(c)); if (this.e.hasAttribute('class')) this._set(this._l.filter(x => !cs.map(String).includes(x))); }
  toggle(c, force) {
    const has = this.contains(this._ok(c));
    if (force === undefined ? has : !force) { if (has) this.remove(c); return false; }
    this.add(c);
    return true;
  }
  replace(a, b) { const l = this._l; const i = l.indexOf(a); if (i < 0) return false; l[i] = b; this._set([...new Set(l)]); return true; }
  item(i) { return this._l[i] ?? null; }
  get length() { return this._l.length; }
  get value() { return this.e.getAttribute('class') ?? ''; }
  set value(v) { this.e.setAttribute('class', v); }
  toString() { return this.value; }
  forEach(f, t) { this._l.forEach((x, i) => f.call(t, x, i, this)); }
  [Symbol.iterator]() { return this._l[Symbol.iterator](); }
  values() { return this._l.values(); }
  keys() { return this._l.keys(); }
  entries() { return this._l.entries(); }
}

function styleOf(e) {
  const kebab = k => k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
  const read = () => {
    const m = new Map();
    for (const d of (e.getAttribute('style') ?? '').split(';')) {
      const i = d.indexOf(':');
      if (i > 0) m.set(d.slice(0, i).trim().toLowerCase(), d.slice(i + 1).replace(/!important/, '').trim());
    }
    return m;
  };
  const write = m => e.setAttribute('style', [...m].map(([k, v]) => `${k}: ${v};`).join(' '));
  const set = (k, v) => { const m = read(); if (v === '' || v == null) m.delete(k); else m.set(k, String(v)); if (m.size || e.hasAttribute('style')) write(m); };
  const api = {
    setProperty: (k, v) => set(k, v), getPropertyValue: k => read().get(k) ?? '',
    removeProperty: k => { const v = read().get(k) ?? ''; set(k, ''); return v; }, item: i => [...read().keys()][i] ?? '',
  };
  return new Proxy({}, {
    get: (_, k) => typeof k === 'symbol' ? undefined : k in api ? api[k] : k === 'cssText' ? e.getAttribute('style') ?? '' : k === 'length' ? read().size : read().get(kebab(k)) ?? '',
    set: (_, k, v) => { if (k === 'cssText') e.setAttribute('style', v); else set(kebab(k), v); return true; },
    has: () => true,
  });
}

const VOID = new Set('area base br col embed hr img input link meta source track wbr'.split(' '));
const escText = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = s => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const unesc = s => s.replace(/&(?:#(\d+)|#x([0-9a-fA-F]+)|(\w+));/g, (m, d, h, n) => d ? String.fromCodePoint(+d) : h ? String.fromCodePoint(parseInt(h, 16)) : ENT[n] ?? m);

function serialize(n) {
  if (n.nodeType === 3) return ['script', 'style'].includes(n.parentNode?.localName) ? n.data : escText(n.data);
  if (n.nodeType === 8) return `<!--${n.data}-->`;
  if (n.nodeType !== 1) return n._kids.map(serialize).join('');
  const a = [...n._attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
  return VOID.has(n.localName) ? `<${n.localName}${a}>` : `<${n.localName}${a}>${n._kids.map(serialize).join('')}</${n.localName}>`;
}

function parseHTML(doc, s, into) {
  let cur = into;
  const re = /<!--([\s\S]*?)-->|<!\w[^>]*>|<\/([a-zA-Z][\w:-]*)\s*>|<([a-zA-Z][\w:-]*)((?:\s+[^\s=>/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?|\s*\/(?!>))*)\s*(\/?)>/g;
  let at = 0, m;
  const text = t => { if (t) { const x = new Text_(doc, unesc(t)); cur._kids.push(x); x.parentNode = cur; } };
  while ((m = re.exec(s))) {
    text(s.slice(at, m.index));
    at = re.lastIndex;
    if (m[1] !== undefined) { const c = new Comment_(doc, m[1]); cur._kids.push(c); c.parentNode = cur; } else if (m[2]) {
      for (let n = cur; n !== into; n = n.parentNode) if (n.localName === m[2].toLowerCase()) { cur = n.parentNode; break; }
    } else if (m[3]) {
      const e = new Element_(doc, m[3].toLowerCase());
      for (const a of m[4].matchAll(/([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) {
        if (!e._attrs.has(a[1].toLowerCase())) e._attrs.set(a[1].toLowerCase(), unesc(a[2] ?? a[3] ?? a[4] ?? ''));
      }
      cur._kids.push(e);
      e.parentNode = cur;
      if (!VOID.has(e.localName) && !m[5]) cur = e;
    }
  }
  text(s.slice(at));
}

class Element_ extends Node_ {
  constructor(doc, tag) { super(doc); this.nodeType = 1; this.localName = tag; this._attrs = new Map(); }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get namespaceURI() { return 'http://www.w3.org/1999/xhtml'; }
  getAttribute(k) { return this._attrs.get(String(k).toLowerCase()) ?? null; }
  setAttribute(k, v) { this._attrs.set(String(k).toLowerCase(), String(v)); }
  removeAttribute(k) { this._attrs.delete(String(k).toLowerCase()); }
  hasAttribute(k) { return this._attrs.has(String(k).toLowerCase()); }
  toggleAttribute(k, f) { const on = f ?? !this.hasAttribute(k); if (on) { if (!this.hasAttribute(k)) this.setAttribute(k, ''); } else this.removeAttribute(k); return on; }
  getAttributeNames() { return [...this._attrs.keys()]; }
  setAttributeNS(_, k, v) { this.setAttribute(k, v); }
  getAttributeNS(_, k) { return this.getAttribute(k); }
  hasAttributeNS(_, k) { return this.hasAttribute(k); }
  removeAttributeNS(_, k) { this.removeAttribute(k); }
  hasAttributes() { return this._attrs.size > 0; }
  getAttributeNode(k) { return this.hasAttribute(k) ? { name: k, value: this.getAttribute(k), specified: true } : null; }
  get attributes() { return [...this._attrs].map(([name, value]) => ({ name, value, nodeName: name, nodeValue: value })); }
  get id() { return this.getAttribute('id') ?? ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') ?? ''; }
  set className(v) { this.setAttribute('class', v); }
  get classList() { return (this._cl ??= new TokenList(this)); }
  set classList(v) { this.className = v; }
  get style() { return (this._st ??= styleOf(this)); }
  set style(v) { this.setAttribute('style', v); }
  get dataset() {
    const e = this, k_ = k => 'data-' + k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
    return new Proxy({}, {
      get: (_, k) => typeof k === 'symbol' ? undefined : e.getAttribute(k_(k)) ?? undefined, set: (_, k, v) => { e.setAttribute(k_(k), v); return true; },
      deleteProperty: (_, k) => { e.removeAttribute(k_(k)); return true; }, has: (_, k) => e.hasAttribute(k_(k)),
    });
  }
  get innerHTML() { return this._kids.map(serialize).join(''); }
  set innerHTML(s) {
    for (const k of this._kids) k.parentNode = null;
    this._kids = [];
    parseHTML(this.ownerDocument, String(s), this);
  }
  get outerHTML() { return serialize(this); }
  set outerHTML(s) { const f = new Fragment_(this.ownerDocument); parseHTML(this.ownerDocument, String(s), f); this.replaceWith(f); }
  get content() { if (this.localName !== 'template') return undefined; const f = new Fragment_(this.ownerDocument); for (const k of [...this._kids]) f.appendChild(k); return f; }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  get text() { return this.textContent; }
  set text(s) { this.textContent = s; }
  insertAdjacentElement(where, x) {
    ({ beforebegin: () => this.before(x), afterbegin: () => this.prepend(x), beforeend: () => this.append(x), afterend: () => this.after(x) })[where.toLowerCase()]();
    return x;
  }
  insertAdjacentText(where, s) { this.insertAdjacentElement(where, new Text_(this.ownerDocument, s)); }
  insertAdjacentHTML(where, s) { const f = new Fragment_(this.ownerDocument); parseHTML(this.ownerDocument, s, f); this.insertAdjacentElement(where, f); }
  matches(s) { return parseSelector(s).some(x => matchComplex(this, x, this)); }
  webkitMatchesSelector(s) { return this.matches(s); }
  closest(s) { const l = parseSelector(s); for (let e = this; e; e = e.parentElement) if (l.some(x => matchComplex(e, x, this))) return e; return null; }
  get tabIndex() { return this.hasAttribute('tabindex') ? +this.getAttribute('tabindex') : (this.localName === 'a' && this.hasAttribute('href')) || ['button', 'input', 'select', 'textarea'].includes(this.localName) ? 0 : -1; }
  set tabIndex(v) { this.setAttribute('tabindex', v); }
  get hidden() { return this.hasAttribute('hidden'); }
  set hidden(v) { this.toggleAttribute('hidden', !!v); }
  focus() {
    const d = this.ownerDocument;
    if (!shown(this) || !(this.hasAttribute('tabindex') || this.tabIndex >= 0)) return;
    const old = d._active;
    if (old === this) return;
    d._active = this;
    old?.dispatchEvent(new Event_('blur', { relatedTarget: this }));
    this.dispatchEvent(new Event_('focus', { relatedTarget: old }));
    this.dispatchEvent(new Event_('focusin', { bubbles: true }));
  }
  blur() { if (this.ownerDocument._active === this) { this.ownerDocument._active = null; this.dispatchEvent(new Event_('blur')); } }
  click() { this.dispatchEvent(new Event_('click', { bubbles: true, cancelable: true, button: 0 })); }
  getBoundingClientRect() { return rectOf(this); }
  getClientRects() { return shown(this) ? [rectOf(this)] : []; }
  checkVisibility() { return shown(this); }
  scrollIntoView(o = true) {
    const r = rectOf(this), b = typeof o === 'object' ? o.block ?? 'start' : o ? 'start' : 'end';
    const d = { start: r.top, center: r.top + r.height / 2 - innerHeight / 2, end: r.bottom - innerHeight }[b] ?? (r.top < 0 ? r.top : r.bottom > innerHeight ? r.bottom - innerHeight : 0);
    scrollWin(win.y + d);
  }
  scrollTo(...a) { if (this === document.documentElement) window.scrollTo(...a); }
  scroll(...a) { this.scrollTo(...a); }
  scrollBy(...a) { if (this === document.documentElement) window.scrollBy(...a); }
  get offsetHeight() { return shown(this) ? rectOf(this).height : 0; }
  get offsetWidth() { return shown(this) ? rectOf(this).width : 0; }
  get offsetParent() { return shown(this) ? this.parentElement : null; }
  get offsetTop() { return rectOf(this).top; }
  get clientHeight() { return this === document.documentElement ? innerHeight : this.offsetHeight; }
  get clientWidth() { return this === document.documentElement ? innerWidth : this.offsetWidth; }
  get scrollTop() { return this === document.documentElement ? win.y : 0; }
  set scrollTop(v) { if (this === document.documentElement) scrollWin(+v); }
  get scrollLeft() { return 0; }
  get offsetLeft() { return 0; }
  get clientTop() { return 0; }
  get clientLeft() { return 0; }
  get draggable() { return false; }
  get inert() { return this.hasAttribute('inert'); }
  set inert(v) { this.toggleAttribute('inert', !!v); }
  get scrollWidth() { return this.clientWidth; }
  get scrollHeight() { return this.offsetHeight; }
  get href() { return this.hasAttribute('href') ? new URL(this.getAttribute('href'), document.location.href).href : ''; }
  get hash() { const h = this.getAttribute('href') ?? ''; return h.includes('#') ? h.slice(h.indexOf('#')) : ''; }
  set href(v) { this.setAttribute('href', v); }
  get title() { return this.getAttribute('title') ?? ''; }
  set title(v) { this.setAttribute('title', v); }
  get lang() { return this.getAttribute('lang') ?? ''; }
  get dir() { return this.getAttribute('dir') ?? ''; }
  get type() { return this.getAttribute('type') ?? ''; }
  set type(v) { this.setAttribute('type', v); }
  get src() { return this.getAttribute('src') ?? ''; }
  set src(v) { this.setAttribute('src', v); }
  get role() { return this.getAttribute('role'); }
  get checked() { return this.hasAttribute('checked'); }
  set checked(v) { this.toggleAttribute('checked', !!v); }
  get value() { return this.getAttribute('value') ?? ''; }
  set value(v) { this.setAttribute('value', v); }
  get disabled() { return this.hasAttribute('disabled'); }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get selected() { return this.hasAttribute('selected'); }
  animate() { return { finished: Promise.resolve(), cancel() {} }; }
}
for (const k of ['ariaExpanded', 'ariaHidden', 'ariaLabel', 'ariaDisabled']) {
  const n = 'aria-' + k.slice(4).toLowerCase();
  Object.defineProperty(Element_.prototype, k, { get() { return this.getAttribute(n); }, set(v) { this.setAttribute(n, v); } });
}

// --------------------------------------------------------------------------------- the style sheets
// Only what decides what is seen: the cascade of a few properties, with nesting, generated content and variables.
const SEEN = new Set(['display', 'visibility', 'opacity', 'font-size', 'content', 'white-space', 'white-space-collapse', 'list-style-type', 'text-transform', 'font-weight', 'font-style',
  'counter-increment', 'counter-reset', 'clip-path', 'text-indent', 'direction', 'unicode-bidi', 'color', 'fill', 'stroke', 'background', 'background-color', 'border-color', 'pointer-events',
  'text-decoration', 'text-decoration-line', 'vertical-align', 'position', 'transform', 'transform-style', '-webkit-text-security', 'order', 'flex-direction', 'user-select']);
const INHERITED = new Set(['visibility', 'font-size', 'white-space', 'list-style-type', 'text-transform', 'font-weight', 'font-style', 'text-indent', 'direction', 'color', 'fill', 'stroke', 'pointer-events', '-webkit-text-security']);
const sheet = new Map();      // property, or property::pseudo-element -> declarations
let declared = 0;

function splitTop(s, sep) {
  const out = [];
  let d = 0, q = null, at = 0;
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    if (q) { if (c === '\\') i++; else if (c === q) q = null; } else if (c === '"' || c === "'") q = c; else if (c === '(' || c === '[') d++; else if (c === ')' || c === ']') d--;
    else if (c === sep && d === 0) { out.push(s.slice(at, i)); at = i + 1; }
  }
  out.push(s.slice(at));
  return out.map(x => x.trim()).filter(x => x);
}

function specificity(sel) {
  // [ids, classes, types], as one number
  let n = 0, i = 0;
  while (i < sel.length) {
    const r = sel.slice(i);
    let m;
    if ((m = /^::[-\w]+(\([^)]*\))?/.exec(r))) n += 1;
    else if ((m = /^:(is|not|has|where|matches)\(/i.exec(r))) {
      let d = 1, j = m[0].length;
      while (j < r.length && d) { if (r[j] === '(') d++; if (r[j] === ')') d--; j++; }
      if (m[1].toLowerCase() !== 'where') n += Math.max(0, ...splitTop(r.slice(m[0].length, j - 1), ',').map(specificity));
      i += j;
      continue;
    } else if ((m = /^:[-\w]+(\([^)]*\))?/.exec(r))) n += 1000;
    else if ((m = /^\[[^\]]*\]/.exec(r))) n += 1000;
    else if ((m = /^#(?:\\.|[-\w\u0080-\uffff])+/.exec(r))) n += 1000000;
    else if ((m = /^\.(?:\\.|[-\w\u0080-\uffff])+/.exec(r))) n += 1000;
    else if ((m = /^[a-zA-Z_][-\w]*/.exec(r))) n += 1;
    else m = [r[0]];
    i += m[0].length;
  }
  return n;
}

function applies(query) {
  return query.split(',').some(q => {
    q = q.toLowerCase();
    if (/\bprint\b|\bspeech\b|prefers-|forced-colors|monochrome/.test(q)) return /\bnot\b/.test(q);
    for (const m of q.matchAll(/\((min|max)-width\s*:\s*([\d.]+)(px|em|rem)\)/g)) {
      const px = +m[2] * (m[3] === 'px' ? 1 : 16);
      if (m[1] === 'min' ? 1280 < px : 1280 > px) return false;
    }
    return true;
  });
}

function readSheet(css) {
  css = css.replace(/\/\*[\s\S]*?\*\//g, ' ');
  let i = 0;
  function chunk() {
    let d = 0, q = null;
    const at = i;
    for (; i < css.length; i++) {
      const c = css[i];
      if (q) { if (c === '\\') i++; else if (c === q) q = null; } else if (c === '"' || c === "'") q = c; else if (c === '(' || c === '[') d++; else if (c === ')' || c === ']') d--;
      else if (d <= 0 && (c === ';' || c === '{' || c === '}')) break;
    }
    return css.slice(at, i).trim();
  }
  function declare(parents, text) {
    const at = text.indexOf(':');
    if (at < 1) return;
    let name = text.slice(0, at).trim(), v = text.slice(at + 1).trim();
    if (!name.startsWith('--')) name = name.toLowerCase();
    const important = /!\s*important\s*$/i.test(v);
    v = v.replace(/!\s*important\s*$/i, '').trim();
    if (name === 'list-style') { name = 'list-style-type'; v = v.split(/\s+/).find(x => !/^(inside|outside)$|^url/.test(x)) ?? 'disc'; }
    if (name === 'font' && v.includes(' ')) {
      // style and weight, the size, then the family
      const ts = splitTop(v, ' ');
      const at = ts.findIndex(x => /^(\d*\.?\d+(px|r?em|%|pt)|calc\(|var\(.*size|(xx?-)?(small|large)|medium|larger|smaller)/i.test(x));
      if (at < 0) return;
      const imp = important ? ' !important' : '';
      declare(parents, `font-size: ${splitTop(ts[at], '/')[0]}${imp}`);
      declare(parents, `font-style: ${ts.slice(0, at).find(x => /^(italic|oblique)/i.test(x)) ?? 'normal'}${imp}`);
      declare(parents, `font-weight: ${ts.slice(0, at).find(x => /^(bold|bolder|lighter|\d+|var\(.*weight.*)$/i.test(x)) ?? '400'}${imp}`);
      return;
    }
    if (!name.startsWith('--') && !SEEN.has(name)) return;
    const order = declared++;
    for (const p of parents) {
      const m = /^(.*?)::?(before|after|marker|first-line|first-letter|placeholder|selection|backdrop|-[-\w]+)$/s.exec(p);
      const sel = m ? m[1].trim().replace(/([>+~\s]|^)$/, '$1*') : p;
      if (m && /^:?$/.test(sel)) continue;
      let parsed;
      try { parsed = parseSelector(sel); } catch { continue; }
      const last = splitTop(sel.replace(/\s*([>+~])\s*/g, '$1').replace(/[>+~]/g, ' '), ' ').at(-1).replace(/\(.*\)/gs, '').replace(/\[.*?\]/gs, '');
      const key = /\.((?:[-\w])+)/.exec(last)?.[1] ?? null;
      const k = m ? `${name}::${m[2]}` : name;
      if (!sheet.has(k)) sheet.set(k, []);
      sheet.get(k).push({ parsed, key, v, rank: [important ? 1 : 0, 0, specificity(p), order], sel: p });
    }
  }
  function block(parents, top) {
    for (;;) {
      while (i < css.length && (/\s/.test(css[i]) || (css[i] === ';' && !top))) i++;
      if (i >= css.length) return;
      if (css[i] === '}') { i++; return; }
      const text = chunk();
      if (css[i] === '{') {
        i++;
        if (text.startsWith('@')) {
          const [, n, q] = /^@([-\w]+)\s*([\s\S]*)$/.exec(text);
          if (n === 'media' ? applies(q) : ['supports', 'layer', 'container', 'scope', 'starting-style'].includes(n)) block(parents, top);
          else { let d = 1; while (i < css.length && d) { if (css[i] === '{') d++; if (css[i] === '}') d--; i++; } }
        } else {
          let own = splitTop(text, ',');
          if (parents) {
            const P = parents.filter(p => !/::/.test(p));
            const is = P.length === 1 && !/[\s>+~]/.test(P[0]) && !/^[a-zA-Z]/.test(P[0]) ? P[0] : `:is(${P.join(', ')})`;
            own = own.map(s => (s.includes('&') ? s.replaceAll('&', is) : P.length === 1 ? `${P[0]} ${s}` : `${is} ${s}`));
          }
          block(own, false);
        }
      } else {
        if (css[i] === ';') i++;
        if (parents) declare(parents, text);
      }
    }
  }
  block(null, true);
}
for (const f of fs.readdirSync(STATIC).filter(f => f.endsWith('.css')).sort()) readSheet(fs.readFileSync(path.join(STATIC, f), 'utf8'));

function later(a, b) { for (let k = 0; k < 4; k++) if (a[k] !== b[k]) return a[k] > b[k]; return false; }
function declaredValue(e, prop, pseudo) { return declaration(e, prop, pseudo)?.v ?? null; }
const couldApply = new Map();
function declaration(e, prop, pseudo) {
  // the ones whose class the element has, the strongest first
  const k = `${prop}${pseudo ? '::' + pseudo : ''} ${e.className}`;
  let ds = couldApply.get(k);
  if (!ds) {
    ds = (sheet.get(pseudo ? `${prop}::${pseudo}` : prop) ?? []).filter(d => !d.key || e.classList.contains(d.key)).sort((x, y) => (later(x.rank, y.rank) ? -1 : 1));
    couldApply.set(k, ds);
  }
  let best = ds.find(d => d.parsed.some(x => matchComplex(e, x, e))) ?? null;
  if (!pseudo && e.hasAttribute('style')) {
    const raw = String(e.getAttribute('style')).split(';').map(x => x.split(':')).filter(x => x.length > 1 && x[0].trim().toLowerCase() === prop).map(x => x.slice(1).join(':').trim()).at(-1);
    if (raw) { const imp = /!\s*important$/i.test(raw); const r = [imp ? 1 : 0, 1, 0, 0]; if (!best || later(r, best.rank)) best = { v: raw.replace(/!\s*important$/i, '').trim(), rank: r }; }
  }
  return best;
}
const BLOCKS = new Set('address article aside blockquote body center dd details dialog dir div dl dt fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 header hgroup hr html legend main menu nav ol p pre search section summary ul'.split(' '));
const NONE = new Set('area base datalist head link meta noembed noframes param rp script style template title'.split(' '));
const TABLE = { table: 'table', thead: 'table-header-group', tbody: 'table-row-group', tfoot: 'table-footer-group', tr: 'table-row', td: 'table-cell', th: 'table-cell', caption: 'table-caption', li: 'list-item' };
function initial(e, prop) {
  const n = e.localName;
  switch (prop) {
    case 'display': return e.hidden || NONE.has(n) ? 'none' : BLOCKS.has(n) ? 'block' : TABLE[n] ?? 'inline';
    case 'visibility': return 'visible';
    case 'opacity': return '1';
    case 'white-space': return 'normal';
    case 'list-style-type': return 'disc';
    case 'text-transform': return 'none';
    case 'font-weight': return '400';
    case 'font-style': return 'normal';
    case 'font-size': return '16px';
    default: return '';
  }
}
function own(e, prop) {
  // what the browser's own style sheet says
  const n = e.localName;
  if (prop === 'white-space' && (n === 'pre' || n === 'textarea')) return 'pre';
  if (prop === 'list-style-type' && n === 'ol') return 'decimal';
  if (prop === 'list-style-type' && n === 'ul') return 'disc';
  if (prop === 'font-weight' && /^(strong|b|th|h[1-6])$/.test(n)) return '700';
  if (prop === 'font-style' && /^(em|i|cite|var|dfn|address)$/.test(n)) return 'italic';
  return null;
}
// a variable is worked out where it is declared, and inherited from there
function variable(e, name, busy = []) {
  if (busy.includes(name)) return null;
  for (let p = e; p; p = p.parentElement) {
    const v = declaredValue(p, name);
    if (v !== null && v !== 'inherit') return resolveVars(p, v, [...busy, name]);
  }
  return null;
}
function resolveVars(e, v, busy) {
  for (let k = 0; k < 20 && v !== null && v.includes('var('); k++) {
    const m = /var\(\s*(--[-\w]+)\s*(?:,([^()]*(?:\([^()]*\))?[^()]*))?\)/.exec(v);
    if (!m) return null;
    const x = variable(e, m[1], busy) ?? m[2]?.trim() ?? null;
    if (x === null) return null;
    v = v.slice(0, m.index) + x + v.slice(m.index + m[0].length);
  }
  return v;
}
function computed(e, prop) {
  let v = declaredValue(e, prop);
  if (v !== null) v = resolveVars(e, v) ?? (INHERITED.has(prop) ? 'inherit' : initial(e, prop));
  if (v === 'revert' || v === null) v = own(e, prop);
  if (v === 'initial') return prop === 'display' ? 'inline' : initial(e, prop);
  if (v === 'inherit' || ((v === null || v === 'unset') && INHERITED.has(prop))) return e.parentElement ? computed(e.parentElement, prop) : initial(e, prop);
  if (v === 'unset') return prop === 'display' ? 'inline' : initial(e, prop);
  return v ?? initial(e, prop);
}
const KEYWORDS = { 'xx-small': 9, 'x-small': 10, small: 13, medium: 16, large: 18, 'x-large': 24, 'xx-large': 32, 'xxx-large': 48 };
// a length in pixels; null if it cannot be told
function length(v, base) {
  v = v.trim().toLowerCase();
  let m;
  if (v in KEYWORDS) return KEYWORDS[v];
  if (v === 'larger') return base * 1.2;
  if (v === 'smaller') return base / 1.2;
  if ((m = /^([-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)(px|r?em|%|pt|pc|in|cm|mm|ex|ch|vw|vh|vmin|vmax|d?vw|d?vh)?$/.exec(v)))
    return +m[1] * ({ em: base, rem: 16, '%': base / 100, pt: 4 / 3, pc: 16, in: 96, cm: 96 / 2.54, mm: 9.6 / 2.54, ex: base / 2, ch: base / 2, vw: 12.8, vh: 8, vmin: 8, vmax: 12.8 }[m[2]] ?? 1);
  if ((m = /^(calc|min|max|clamp)?\((.*)\)$/s.exec(v))) {
    const xs = splitTop(m[2], ',').map(x => sum(x, base));
    if (xs.some(x => x === null)) return null;
    return m[1] === 'min' ? Math.min(...xs) : m[1] === 'max' ? Math.max(...xs) : m[1] === 'clamp' ? Math.max(xs[0], Math.min(xs[1], xs[2])) : xs[0];
  }
  return null;
}
function sum(v, base) {
  const ts = splitTop(v.replace(/\s+([*\/])\s*|\s*([*\/])\s+/g, '$1$2'), ' ').flatMap(x => splitOps(x));
  let at = 0;
  const factor = () => length(ts[at++] ?? '', base);
  const term = () => { let x = factor(); while (/^[*\/]$/.test(ts[at] ?? '')) { const o = ts[at++], y = factor(); x = x === null || y === null ? null : o === '*' ? x * y : x / y; } return x; };
  let x = term();
  while (/^[-+]$/.test(ts[at] ?? '')) { const o = ts[at++], y = term(); x = x === null || y === null ? null : o === '+' ? x + y : x - y; }
  return at === ts.length ? x : null;
}
function splitOps(x) {
  const out = [];
  let d = 0, cur = '';
  for (const c of x) { if (c === '(') d++; if (c === ')') d--; if (!d && (c === '*' || c === '/')) { out.push(cur, c); cur = ''; } else cur += c; }
  return [...out, cur];
}
function fontSize(e) {
  const base = e.parentElement ? fontSize(e.parentElement) : 16;
  let v = declaredValue(e, 'font-size');
  if (v === null) return base;
  return length(resolveVars(e, v) ?? '', base) ?? base;
}
const ratio = v => (v.endsWith('%') ? parseFloat(v) / 100 : parseFloat(v));
// the reason why an element is not seen, apart from its ancestors
function unseen(e) {
  if (display(e) === 'none') return 'display';
  if (/^(hidden|collapse)$/.test(computed(e, 'visibility'))) return 'visibility';
  if (ratio(computed(e, 'opacity')) === 0) return 'opacity';
  if (fontSize(e) === 0) return 'font-size';
  return '';
}
// an undefined variable makes a declaration void
function voidVars(e) {
  const out = [];
  for (const [k, ds] of sheet) {
    if (k.startsWith('--')) continue;
    for (const d of ds) if (d.v.includes('var(') && (!d.key || e.classList.contains(d.key)) && d.parsed.some(x => matchComplex(e, x, e)) && resolveVars(e, d.v) === null) out.push(`${k}: ${d.v}`);
  }
  return out;
}
function generated(e) {
  const out = {};
  for (const p of ['before', 'after']) {
    const v = declaredValue(e, 'content', p);
    if (v !== null && !/^(none|normal|inherit|initial|unset|revert|("\s*"|'\s*')(\s*\/.*)?)$/.test(v) && declaredValue(e, 'display', p) !== 'none') out[p] = v;
  }
  return out;
}
// the colour behind an element, null if it has none of its own
function behind(e) {
  const a = declaration(e, 'background'), b = declaration(e, 'background-color');
  const d = a && b ? (later(a.rank, b.rank) ? a : b) : a ?? b;
  const v = d && resolveVars(e, d.v);
  return v && !/^(none|unset|initial|transparent|inherit)$/.test(v) ? splitTop(v, ' ').find(x => /^(#|rgb|hsl|[a-z]+$)/i.test(x) && !/^(none|no-repeat|repeat|scroll|fixed|center|top|left|right|bottom|cover|contain)$/i.test(x)) ?? null : null;
}
function look(req) {
  const out = { unseen: [], gen: [], undef: [], ink: [], props: [] };
  const bg = e => { for (; e; e = e.parentElement) { const v = behind(e); if (v) return v; } return null; };
  for (const e of els) {
    if (!e.isConnected) { out.unseen.push([e._n, 'gone']); continue; }
    const why = unseen(e);
    if (why) out.unseen.push([e._n, why]);
    for (const [k, v] of Object.entries(generated(e))) out.gen.push([e._n, k, v]);
    if (e._kids.some(k => k.nodeType === 3 && k.data.trim())) out.ink.push([e._n, resolveVars(e, computed(e, 'color')), bg(e)]);
  }
  for (const e of document.body.querySelectorAll('*')) {
    // also of what the scripts added
    let o = e;
    while (o._n === undefined && o.parentElement) o = o.parentElement;
    for (const v of voidVars(e)) out.undef.push([o._n ?? 0, `${e.localName} ${e.className}: ${v}`]);
    if (o !== e && unseen(e)) out.unseen.push([o._n ?? 0, `${e.localName} within: ${unseen(e)}`]);
  }
  for (const [n, prop] of req.props ?? []) out.props.push(prop === 'font-size' ? fontSize(els[n]) : prop === 'background' ? bg(els[n]) : prop === 'color' ? resolveVars(els[n], computed(els[n], prop)) : computed(els[n], prop));
  out.hover = [];
  for (const [kind, n] of req.over ?? []) {
    document._hover = kind === 'hover' ? els[n] : null;
    document._active = null;
    if (kind === 'focus') els[n].focus();
    const seen = [];
    for (const e of els) if (e.classList.contains('hr-border-dots') || e.classList.contains('hr-collapse')) {
      let p = e;
      while (p && !unseen(p)) p = p.parentElement;
      if (!p) seen.push(e._n);
    }
    out.hover.push(seen);
  }
  return out;
}
function shownSelf(e) {
  return display(e) !== 'none' && !e.hidden;
}
function shown(e) {
  for (let x = e; x && x.nodeType === 1; x = x.parentElement) if (!shownSelf(x)) return false;
  return true;
}
function display(e) { return computed(e, 'display'); }
function rectOf(e) {
  const t = e._top ?? 0, h = e._height ?? 10;
  return { top: t - win.y, bottom: t + h - win.y, height: h, left: 0, right: 100, width: 100, x: 0, y: t - win.y };
}

function scrollWin(y) {
  y = Math.max(0, y);
  if (y === win.y) return;
  win.y = y;
  queueMicrotask(() => document.dispatchEvent(new Event_('scroll', { bubbles: true })));
}

class Document_ extends Node_ {
  constructor() {
    super(null);
    this.nodeType = 9; this.nodeName = '#document'; this._active = null;
    this.documentElement = new Element_(this, 'html');
    this.head = new Element_(this, 'head');
    this.body = new Element_(this, 'body');
    this.appendChild(this.documentElement);
    this.documentElement.append(this.head, this.body);
    this.readyState = 'complete';
    this.compatMode = 'CSS1Compat';
    this.cookie = '';
    this.title = '';
  }
  get activeElement() { return this._active && this.contains(this._active) && shown(this._active) ? this._active : this.body; }
  get scrollingElement() { return this.documentElement; }
  get defaultView() { return this === document ? window : null; }
  get location() { return win.location; }
  get URL() { return win.location.href; }
  get scripts() { return this.getElementsByTagName('script'); }
  hasFocus() { return true; }
  createElement(t) { return new Element_(this, String(t).toLowerCase()); }
  createElementNS(_, t) { return this.createElement(t); }
  createTextNode(s) { return new Text_(this, String(s)); }
  createComment(s) { return new Comment_(this, String(s)); }
  createDocumentFragment() { return new Fragment_(this); }
  createEvent() { return new Event_(''); }
  getElementById(id) { for (const e of walkEls(this)) if (e.id === id && id !== '') return e; return null; }
  getElementsByName(n) { return listOf(descendants(this).filter(e => e.getAttribute('name') === n)); }
  importNode(n, deep) { return n.cloneNode(deep); }
  adoptNode(n) { n.remove(); return n; }
  get implementation() { return { createHTMLDocument: () => new Document_(), hasFeature: () => true }; }
  createRange() { return { selectNode() {}, selectNodeContents() {}, createContextualFragment: h => { const f = new Fragment_(this); parseHTML(this, h, f); return f; } }; }
  get links() { return listOf(descendants(this).filter(e => e.localName === 'a' && e.hasAttribute('href'))); }
  get images() { return this.getElementsByTagName('img'); }
  get forms() { return this.getElementsByTagName('form'); }
  get styleSheets() { return []; }
  get hidden() { return false; }
  get visibilityState() { return 'visible'; }
  get currentScript() { return null; }
  getSelection() { return window.getSelection(); }
  elementFromPoint() { return null; }
  execCommand() { return false; }
  createTreeWalker(root, what = -1) {
    const all = [];
    (function go(n) { for (const k of n._kids) { if (what === -1 || (what & (1 << (k.nodeType - 1)))) all.push(k); go(k); } })(root);
    let i = -1;
    return { root, get currentNode() { return i < 0 ? root : all[i]; }, nextNode() { return i + 1 < all.length ? all[++i] : null; } };
  }
}
for (const k of ['getElementById', 'querySelector', 'querySelectorAll']) void k;
Fragment_.prototype.getElementById = Document_.prototype.getElementById;

// ------------------------------------------------------------------------------------ window
const win = { y: 0, location: null, clip: [], clipFails: false, timers: [], scripts: [], fails: false, observers: [], rendered: [], typesets: 0 };
const document = new Document_();
const window = globalThis;
for (const k of ['addEventListener', 'removeEventListener', 'dispatchEvent']) window[k] = EventTarget_.prototype[k].bind(window);
window.parentNode = null;

// what the page loads from elsewhere
function loaded(n) {
  if (n.nodeType !== 1 || n.localName !== 'script' || !n.src || !n.isConnected) return;
  win.scripts.push(n.src);
  const bad = win.fails === true || (win.fails && n.src.includes(win.fails));
  queueMicrotask(() => {
    if (!bad && /pseudocode/.test(n.src)) globalThis.pseudocode = { renderElement: (e, o) => win.rendered.push([ref(e), o ?? null]) };
    if (!bad && /mathjax/i.test(n.src)) globalThis.MathJax = { ...globalThis.MathJax, typeset() { win.typesets++; }, typesetPromise: async () => { win.typesets++; } };
    n.dispatchEvent(new Event_(bad ? 'error' : 'load'));
  });
}
class Observer {
  constructor(f) { this.f = f; this.els = new Set(); win.observers.push(this); }
  observe(e) { this.els.add(e); }
  unobserve(e) { this.els.delete(e); }
  disconnect() { this.els.clear(); }
  takeRecords() { return []; }
}
Object.defineProperty(globalThis, 'navigator', { configurable: true, value: {
  clipboard: { writeText: async s => { if (win.clipFails) throw new Error('denied'); win.clip.push(String(s)); } }, userAgent: 'node', platform: '', language: 'en',
} });
Object.assign(globalThis, {
  window, document, self: window, Node: Node_, Element: Element_, HTMLElement: Element_, SVGElement: Element_, Document: Document_, Text: Text_, NodeList: NodeList_, HTMLCollection: NodeList_,
  Event: Event_, CustomEvent: Event_, KeyboardEvent: Event_, MouseEvent: Event_, FocusEvent: Event_, UIEvent: Event_, NodeFilter: { SHOW_ELEMENT: 1, SHOW_TEXT: 4, SHOW_ALL: -1 },
  ResizeObserver: class extends Observer { kind = 'resize'; }, IntersectionObserver: class extends Observer { kind = 'intersection'; }, MutationObserver: class extends Observer { kind = 'mutation'; },
  innerHeight: 600, innerWidth: 900, scrollBy(a, b) { scrollWin(win.y + (+(typeof a === 'object' ? a.top ?? 0 : b) || 0)); },
  scrollTo(a, b) { scrollWin(typeof a === 'object' ? a.top ?? win.y : +b || 0); }, scroll(a, b) { this.scrollTo(a, b); },
  getComputedStyle: e => {
    if (!(e instanceof Element_)) throw new TypeError("Failed to execute 'getComputedStyle': parameter 1 is not of type 'Element'.");
    const own = e.style;
    return new Proxy({}, { get: (_, k) => k === 'display' ? display(e) : k === 'getPropertyValue' ? n => (n === 'display' ? display(e) : own.getPropertyValue(n)) : own[k] });
  },
  HTMLAnchorElement: Element_, HTMLDivElement: Element_, HTMLScriptElement: Element_, HTMLSpanElement: Element_, DOMTokenList: TokenList, DocumentFragment: Fragment_,
  getSelection: () => ({ toString: () => '', removeAllRanges() {}, rangeCount: 0, isCollapsed: true }), devicePixelRatio: 1, scrollX: 0, pageXOffset: 0,
  outerHeight: 700, outerWidth: 900, history: { pushState() {}, replaceState() {}, back() {}, state: null }, open(u) { win.opened.push(String(u)); return null; }, close() {},
  requestIdleCallback: f => { win.timers.push({ f: () => f({ timeRemaining: () => 50, didTimeout: false }) }); return win.timers.length; },
  requestAnimationFrame: f => { win.timers.push({ f: () => f(0) }); return win.timers.length; }, cancelAnimationFrame() {},
  setTimeout: (f, ms, ...a) => { const t = { f: () => f(...a), ms }; win.timers.push(t); return t; }, clearTimeout: t => { win.timers = win.timers.filter(x => x !== t); },
  setInterval: () => 0, clearInterval() {}, matchMedia: () => ({ matches: false, addEventListener() {}, addListener() {} }), alert() {},
  CSS: { escape: s => String(s).replace(/[^\w-\u0080-\uffff]/g, c => '\\' + c).replace(/^(-?)(\d)/, (m, a, d) => `${a}\\3${d} `), supports: () => true },
  DOMParser: class { parseFromString(s) { const d = new Document_(); d.body.innerHTML = s; return d; } },
});
Object.defineProperty(globalThis, 'location', { configurable: true, get: () => win.location });
Object.defineProperty(globalThis, 'scrollY', { configurable: true, get: () => win.y });
Object.defineProperty(globalThis, 'pageYOffset', { configurable: true, get: () => win.y });
for (const k of ['top', 'parent', 'frames']) globalThis[k] = window;
for (const k of ['localStorage', 'sessionStorage']) Object.defineProperty(globalThis, k, { configurable: true, value: (m => ({ getItem: x => m.get(x) ?? null, setItem: (x, v) => void m.set(x, String(v)), removeItem: x => void m.delete(x), clear: () => m.clear() }))(new Map()) });
const log = { out: [] };
globalThis.console = { log() {}, info() {}, debug() {}, warn(...a) { log.out.push(['warn', a.map(String).join(' ')]); }, error(...a) { log.out.push(['error', a.map(String).join(' ')]); }, trace() {}, table() {}, group() {}, groupEnd() {}, assert() {}, time() {}, timeEnd() {} };
process.on('unhandledRejection', report);

// --------------------------------------------------------------------------------- a session
let els = [];
function build(doc, t) {
  if (typeof t === 'string') return new Text_(doc, t);
  const e = new Element_(doc, t[0]);
  for (const [k, v] of Object.entries(t[1])) e._attrs.set(k, v);
  els.push(e);
  e._n = els.length - 1;
  for (const k of t[2]) { const c = build(doc, k); e._kids.push(c); c.parentNode = e; }
  return e;
}
const settle = async () => { for (let i = 0; i < 12; i++) await Promise.resolve(); };
const ref = e => (!e || e === document.body ? -1 : e._n !== undefined && els[e._n] === e ? e._n : -2);

function snapshot() {
  const s = { hide: [], notes: [], collapsed: [], menus: [], active: [], icons: {}, drawn: {}, texts: {}, focus: ref(document.activeElement), y: win.y, errors, log: log.out,
    clip: win.clip, toasts: document.querySelectorAll('.toast').length, toast: [...document.querySelectorAll('.toast')].map(t => `${t.className}|${t.textContent.trim().replace(/\s+/g, ' ')}`), gone: [] };
  for (const e of els) {
    if (!e.isConnected) s.gone.push(e._n);
    const c = e.classList;
    if (!c.contains('hr-menu-zone') && e.isConnected && display(e) === 'none') s.hide.push(e._n);
    if (Object.values(generated(e)).some(t => /\w/.test(t))) s.notes.push(e._n);
    if (c.contains('hr-collapsed')) s.collapsed.push(e._n);
    if (c.contains('active')) s.active.push(e._n);
    if (c.contains('hr-menu-zone') && display(e) !== 'none') s.menus.push(e._n);
    if (c.contains('icon')) {
      s.icons[e._n] = [...c].filter(x => x !== 'icon');
      s.drawn[e._n] = [...e.querySelectorAll('path')].map(p => p.getAttribute('d')).join(' ');
    }
    if (c.contains('hr-menu-item-text')) s.texts[e._n] = e.textContent.trim();
    const off = e.localName === 'stop' ? e.getAttribute('offset') : null;
    if (off !== null) s.icons[e._n] = [off];
    if (e.style.height) (s.heights ??= {})[e._n] = e.style.height;
  }
  errors = []; log.out = []; win.clip = [];
  return s;
}

const mouse = (e, type, more) => e.dispatchEvent(new Event_(type, { bubbles: !/enter|leave/.test(type), cancelable: true, button: 0, ...more }));
function key(k, target) {
  const codes = { Enter: 13, ArrowUp: 38, ArrowDown: 40 };
  const init = { bubbles: true, cancelable: true, key: k, keyCode: codes[k] ?? k.toUpperCase().charCodeAt(0), code: k, ctrlKey: false, altKey: false, metaKey: false, shiftKey: false };
  const t = target ?? document.activeElement;
  const down = t.dispatchEvent(new Event_('keydown', { ...init }));
  (target ?? document.activeElement).dispatchEvent(new Event_('keyup', { ...init }));
  return down;
}

const acts = {
  click(a) {
    // as a mouse does: first the focus moves, then the click
    const e = els[a.el];
    if (a.focus) { let f = e; while (f && !(f.hasAttribute('tabindex') || (f.localName === 'a' && f.hasAttribute('href')))) f = f.parentElement; if (f && shown(f)) f.focus(); else document.activeElement.blur?.(); }
    mouse(e, 'click');
  },
  leave(a) { mouse(els[a.el], 'mouseleave'); },
  enter(a) { mouse(els[a.el], 'mouseenter'); },
  focus(a) { els[a.el].focus(); },
  blur() { document.activeElement?.blur?.(); },
  key(a) { key(a.key); },
  scroll(a) { win.y = a.y; document.dispatchEvent(new Event_('scroll', { bubbles: true })); },
  dismiss(a) { const t = [...document.querySelectorAll('.toast')]; document.activeElement.blur?.(); const c = t[a.n % t.length].querySelector('.close'); if (c) mouse(c, 'click'); },
  tick() { const t = win.timers; win.timers = []; for (const x of t) x.f(); },
  clip(a) { win.clipFails = a.fails; },
  resize(a) {
    const e = els[a.el]; e._height = a.h;
    for (const o of win.observers) if (o.kind === 'resize' && o.els.has(e)) { try { o.f([{ target: e, contentRect: { height: a.h, width: 100 } }], o); } catch (x) { report(x); } }
  },
};

let jq = false;
function reset(req) {
  document._ls = [];
  window._ls = [];
  document._active = null;
  document._hover = null;
  Object.assign(win, { y: 0, clip: [], clipFails: false, timers: [], scripts: [], fails: req.offline ?? false, observers: [], rendered: [], opened: [], typesets: 0, location: new URL(req.url ?? 'http://localhost/index.html') });
  errors = []; log.out = []; els = [];
  document.head.replaceChildren();
  document.body = build(document, req.body);
  document.documentElement.replaceChildren(document.head, document.body);
  for (const [n, t, h] of req.rects ?? []) { els[n]._top = t; els[n]._height = h; }
  delete globalThis.pseudocode;
  delete globalThis.MathJax;
}

async function session(req) {
  reset(req);
  const out = {};
  if ((req.tooltips || req.classic) && !jq) {
    vm.runInThisContext(fs.readFileSync(path.join(STATIC, 'jquery-3.6.0.js'), 'utf8'), { filename: 'jquery.js' });
    jq = true;
  }
  const tips = [];
  if (jq && req.classic) globalThis.$ = globalThis.jQuery;
  if (req.tooltips) {
    const $ = globalThis.jQuery ?? globalThis.$;
    globalThis.$ = globalThis.jQuery = $;
    $.fn.tooltipster = function (o) {
      if (typeof o === 'string') {
        const tip = tips.find(t => t.el === this[0]);
        if (o === 'status') return { open: !!tip?.open };
        if (tip && (o === 'open' || o === 'close')) tip.open = o === 'open';
        return this;
      }
      this.each(function () {
        const tip = { el: this, content: null, open: false };
        tips.push(tip);
        this.classList.add('tooltipstered');
        const inst = { content(c) { if (c === undefined) return tip.content; tip.content = c; return inst; } };
        o.functionInit?.call(this, inst, { origin: this, event: null });
      });
      return this;
    };
  }
  if (req.onload) {
    const m = await import('/static/onload.js');
    await m.onload(...(req.onload.args ?? []));
    await settle();
  } else for (const s of req.setup) {
    const m = await import(`/static/${s}.js`);
    if (s === 'tooltips') m.createTooltips(); else m.setup(document);
  }
  await settle();
  if (req.classic) {
    // scripts that are not modules; then press each button they made
    for (const f of req.classic) vm.runInThisContext(`(function () {${fs.readFileSync(f, 'utf8')}\n})();`, { filename: f });
    window.dispatchEvent(new Event_('load'));
    await settle();
    out.opened = [];
    for (const b of document.querySelectorAll(req.press)) { const n = win.opened.length; mouse(b, 'click'); await settle(); let o = b; while (o._n === undefined) o = o.parentElement; out.opened.push([o._n, win.opened.slice(n)]); }
  }
  out.tips = tips.map(t => [ref(t.el), t.content === null ? null : t.content.length === undefined ? String(t.content) : [...t.content].map(serialize).join('')]);
  out.rendered = win.rendered;
  out.scripts = win.scripts;
  out.svg = els.filter(e => e.classList.contains('icon') && e.querySelector('svg')).map(e => e._n);
  out.tip_errors = [...document.querySelectorAll('a.error')].map(ref);
  out.states = [snapshot()];
  if (req.look) {
    if (req.look.theme) document.documentElement.classList.add(req.look.theme);
    out.look = look(req.look);
    document.documentElement.className = '';
  }
  for (const a of req.actions ?? []) {
    try { acts[a.do](a); } catch (e) { report(e); }
    await settle();
    const s = snapshot();
    s.tips = tips.filter(t => t.open).map(t => ref(t.el));
    out.states.push(s);
  }
  return out;
}

const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
  let res;
  try { res = await session(JSON.parse(line)); } catch (e) { res = { fatal: String(e?.stack || e) }; }
  process.stdout.write(JSON.stringify(res) + '\n');
}
