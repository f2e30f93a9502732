// A small browser: just enough of the DOM for a script that builds a page from messages.
// Line protocol on stdin/stdout, one JSON value per line:
//   {"script": "..."}            the page's script (once, first)
//   {"page":k,"ops":[op, ...]}   ops on page k (0 if absent), see `op` below; answers {"boot":[...],"r":[...]} or
//                                {"fatal":...}; with "new":true on a fresh page at "path" (page 0 ends all others)
"use strict";
const vm = require("vm");

class DOMError extends Error {
  constructor(name, m) { super(name + ": " + m); this.name = name; }
}
const NAME = /^[A-Za-z_:À-￿][A-Za-z0-9_:.\-·À-￿]*$/;

class Event {
  constructor(type, init) {
    this.type = String(type); this.bubbles = !!(init && init.bubbles); this.cancelable = !!(init && init.cancelable);
    this.target = null; this.currentTarget = null; this.srcElement = null; this.defaultPrevented = false; this._stop = false; this._stopNow = false;
    this.isTrusted = false; this.eventPhase = 0; this.timeStamp = 0;
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._stopNow = true; }
  composedPath() { return this._path ? this._path.slice() : []; }
}

class EventTarget {
  constructor() { this._ls = []; }
  addEventListener(type, fn, opt) {
    if (fn === null || fn === undefined) return;
    const capture = typeof opt === "boolean" ? opt : !!(opt && opt.capture), once = !!(opt && opt.once);
    type = String(type);
    if (this._ls.some(l => l.type === type && l.fn === fn && l.capture === capture)) return;
    const l = { type, fn, capture, once, dead: false };
    if (opt && opt.signal) {
      if (opt.signal.aborted) return;
      opt.signal.addEventListener("abort", () => this.removeEventListener(type, fn, capture));
    }
    this._ls.push(l);
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === "boolean" ? opt : !!(opt && opt.capture);
    const i = this._ls.findIndex(l => l.type === String(type) && l.fn === fn && l.capture === capture);
    if (i >= 0) { this._ls[i].dead = true; this._ls.splice(i, 1); }
  }
  dispatchEvent(e) {
    e.target = e.srcElement = this;
    const path = [this];
    for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
    if (this._window) path.push(this._window); else if (path[path.length - 1]._window) path.push(path[path.length - 1]._window);
    e._path = path;
    const call = (n, capture, phase) => {
      e.currentTarget = n; e.eventPhase = phase;
      for (const l of n._ls.slice()) {
        if (l.dead || l.type !== e.type || l.capture !== capture) continue;
        if (l.once) n.removeEventListener(l.type, l.fn, l.capture);
        try { typeof l.fn === "function" ? l.fn.call(n, e) : l.fn.handleEvent(e); } catch (x) { report(x); }
        if (e._stopNow) return;
      }
      if (!capture && typeof n["on" + e.type] === "function") {
        try { n["on" + e.type].call(n, e); } catch (x) { report(x); }
      }
    };
    for (let i = path.length - 1; i > 0 && !e._stop; i--) call(path[i], true, 1);
    if (!e._stop) { call(this, true, 2); if (!e._stopNow) call(this, false, 2); }
    if (e.bubbles) for (let i = 1; i < path.length && !e._stop; i++) call(path[i], false, 3);
    e.currentTarget = null; e.eventPhase = 0;
    return !e.defaultPrevented;
  }
}
class AbortSignal extends EventTarget { constructor() { super(); this.aborted = false; } }
class AbortController { constructor() { this.signal = new AbortSignal(); } abort() { if (!this.signal.aborted) { this.signal.aborted = true; this.signal.dispatchEvent(new Event("abort")); } } }

// an array that is read like a NodeList / HTMLCollection
const list = (a) => { a = a.slice(); Object.defineProperty(a, "item", { value: (i) => (i in a ? a[i] : null), enumerable: false }); return a; };

class Node extends EventTarget {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this._kids = []; }
  get childNodes() { return list(this._kids); }
  get firstChild() { return this._kids[0] || null; }
  get lastChild() { return this._kids[this._kids.length - 1] || null; }
  hasChildNodes() { return this._kids.length > 0; }
  get children() { return list(this._kids.filter(k => k.nodeType === 1)); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  _sib(d, el) {
    if (!this.parentNode) return null;
    const k = el ? this.parentNode.children : this.parentNode._kids;
    return k[k.indexOf(this) + d] || null;
  }
  get nextSibling() { return this._sib(1); }
  get previousSibling() { return this._sib(-1); }
  get nextElementSibling() { return this._sib(1, true); }
  get previousElementSibling() { return this._sib(-1, true); }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  get isConnected() { return this.getRootNode().nodeType === 9; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  compareDocumentPosition() { throw new DOMError("NotSupportedError", "compareDocumentPosition"); }
  _unlink() { const p = this.parentNode; if (p) { p._kids.splice(p._kids.indexOf(this), 1); this.parentNode = null; } }
  insertBefore(n, ref) {
    if (!(n instanceof Node)) throw new TypeError("Failed to execute 'insertBefore' on 'Node': parameter 1 is not of type 'Node'.");
    if (this.nodeType !== 1 && this.nodeType !== 9 && this.nodeType !== 11) throw new DOMError("HierarchyRequestError", "this node has no children");
    if (n.contains(this)) throw new DOMError("HierarchyRequestError", "the new child contains the parent");
    if (n.nodeType === 9) throw new DOMError("HierarchyRequestError", "a document is no child");
    if (ref && ref.parentNode !== this) throw new DOMError("NotFoundError", "the node before which to insert is not a child of this node");
    if (n.nodeType === 11) { for (const k of n._kids.slice()) this.insertBefore(k, ref); return n; }
    if (ref === n) ref = n.nextSibling;
    n._unlink();
    const at = ref ? this._kids.indexOf(ref) : this._kids.length;
    this._kids.splice(at, 0, n);
    n.parentNode = this;
    return n;
  }
  appendChild(n) {
    if (!(n instanceof Node)) throw new TypeError("Failed to execute 'appendChild' on 'Node': parameter 1 is not of type 'Node'.");
    return this.insertBefore(n, null);
  }
  removeChild(n) {
    if (!(n instanceof Node)) throw new TypeError("Failed to execute 'removeChild' on 'Node': parameter 1 is not of type 'Node'.");
    if (n.parentNode !== this) throw new DOMError("NotFoundError", "the node to be removed is not a child of this node");
    n._unlink();
    return n;
  }
  replaceChild(n, old) {
    if (!(n instanceof Node) || !(old instanceof Node)) throw new TypeError("Failed to execute 'replaceChild' on 'Node': parameter is not of type 'Node'.");
    if (old.parentNode !== this) throw new DOMError("NotFoundError", "the node to be replaced is not a child of this node");
    if (n === old) return old;
    if (n.contains(this)) throw new DOMError("HierarchyRequestError", "the new child contains the parent");
    let ref = old.nextSibling; if (ref === n) ref = n.nextSibling;
    old._unlink();
    this.insertBefore(n, ref);
    return old;
  }
  _nodes(xs) { return xs.map(x => x instanceof Node ? x : new Text(doc(this), String(x))); }
  append(...xs) { for (const n of this._nodes(xs)) this.appendChild(n); }
  prepend(...xs) { const ref = this.firstChild; for (const n of this._nodes(xs)) this.insertBefore(n, ref); }
  replaceChildren(...xs) { for (const k of this._kids.slice()) k._unlink(); this.append(...xs); }
  before(...xs) { if (this.parentNode) for (const n of this._nodes(xs)) this.parentNode.insertBefore(n, this); }
  after(...xs) { if (this.parentNode) { const ref = this.nextSibling; for (const n of this._nodes(xs)) this.parentNode.insertBefore(n, ref); } }
  replaceWith(...xs) { const p = this.parentNode; if (!p) return; let ref = this.nextSibling; while (ref && xs.includes(ref)) ref = ref.nextSibling; this._unlink(); for (const n of this._nodes(xs)) p.insertBefore(n, ref); }
  remove() { this._unlink(); }
  normalize() {
    for (const k of this._kids.slice()) {
      if (k.nodeType === 3) {
        if (k.data === "") { k._unlink(); continue; }
        while (k.nextSibling && k.nextSibling.nodeType === 3) { k.data += k.nextSibling.data; k.nextSibling._unlink(); }
      } else k.normalize();
    }
  }
  get textContent() { return this._kids.map(k => k.nodeType === 8 ? "" : k.textContent).join(""); }
  set textContent(v) { for (const k of this._kids.slice()) k._unlink(); v = v === null || v === undefined ? "" : String(v); if (v !== "") this.appendChild(new Text(doc(this), v)); }
  cloneNode(deep) {
    const c = this._clone();
    if (deep) for (const k of this._kids) c.appendChild(k.cloneNode(true));
    return c;
  }
  // the first element below this node, in document order, that satisfies m
  _find(m) {
    const todo = [];
    for (let i = this._kids.length - 1; i >= 0; i--) todo.push(this._kids[i]);
    while (todo.length) {
      const n = todo.pop();
      if (n.nodeType === 1 && m(n)) return n;
      for (let i = n._kids.length - 1; i >= 0; i--) todo.push(n._kids[i]);
    }
    return null;
  }
  _elements() { const all = []; this._find(n => { all.push(n); return false; }); return all; }
  getElementsByTagName(n) { n = String(n).toLowerCase(); return list(this._elements().filter(e => n === "*" || e.localName === n)); }
  getElementsByClassName(n) { return list(this._elements().filter(e => (" " + (e.getAttribute("class") || "") + " ").includes(" " + n + " "))); }
  querySelectorAll(sel) { const m = selector(sel); return list(this._elements().filter(m)); }
  querySelector(sel) { return this._find(selector(sel)); }
}
Object.assign(Node, { ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
Object.assign(Node.prototype, { ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
const doc = (n) => n.nodeType === 9 ? n : n.ownerDocument;

const unescapeCss = (s) => s.replace(/\\([0-9a-fA-F]{1,6}) ?|\\(.)/g, (_, h, c) => h ? String.fromCodePoint(parseInt(h, 16)) : c);
function selector(sel) {
  let m;
  if ((m = /^#((?:\\[0-9a-fA-F]{1,6} ?|\\.|[\w\-À-￿])+)$/.exec(sel)) && !/^#\d/.test(sel)) { const id = unescapeCss(m[1]); return e => e.getAttribute("id") === id; }
  if ((m = /^\[([\w\-]+)=(?:"((?:[^"\\]|\\.)*)"|'((?:[^'\\]|\\.)*)'|([A-Za-z_][\w\-]*))\]$/.exec(sel))) { const v = unescapeCss(m[2] ?? m[3] ?? m[4]); return e => e.getAttribute(m[1]) === v; }
  if ((m = /^\[([\w\-]+)\]$/.exec(sel))) return e => e.hasAttribute(m[1]);
  if ((m = /^\.([\w\-]+)$/.exec(sel))) return e => (" " + (e.getAttribute("class") || "") + " ").includes(" " + m[1] + " ");
  if (/^[a-zA-Z][\w\-]*$/.test(sel)) return e => e.localName === sel.toLowerCase();
  if (sel === "*") return () => true;
  throw new DOMError("SyntaxError", "selector " + sel);
}

class CharacterData extends Node {
  constructor(d, data) { super(d); this._data = String(data); }
  get data() { return this._data; } set data(v) { this._data = v === null ? "" : String(v); }
  get nodeValue() { return this._data; } set nodeValue(v) { this.data = v; }
  get textContent() { return this._data; } set textContent(v) { this.data = v; }
  get length() { return this._data.length; }
  appendData(s) { this._data += s; }
  replaceData(o, n, s) { this._data = this._data.slice(0, o) + s + this._data.slice(o + n); }
  _clone() { return new this.constructor(this.ownerDocument, this._data); }
}
class Text extends CharacterData { get nodeType() { return 3; } get nodeName() { return "#text"; } get wholeText() { return this._data; } }
class Comment extends CharacterData { get nodeType() { return 8; } get nodeName() { return "#comment"; } }

class Attr {
  constructor(el, name, value) { this.ownerElement = el; this.name = name; this._value = value; }
  get localName() { return this.name; } get nodeName() { return this.name; }
  get value() { return this._value; } set value(v) { this._value = String(v); }
  get nodeValue() { return this._value; } set nodeValue(v) { this._value = String(v); }
  get textContent() { return this._value; } set textContent(v) { this._value = String(v); }
  get nodeType() { return 2; } get specified() { return true; } get namespaceURI() { return null; }
  cloneNode() { return new Attr(null, this.name, this._value); }
}
class NamedNodeMap {
  constructor(el) {
    this._el = el;
    return new Proxy(this, { get: (t, k) => typeof k === "string" && /^\d+$/.test(k) ? t._a[k] : k in t ? t[k] : typeof k === "string" ? t._a.find(a => a.name === k) : undefined });
  }
  get _a() { return this._el._attrs; }
  get length() { return this._a.length; }
  item(i) { return this._a[i] || null; }
  getNamedItem(n) { return this._el.getAttributeNode(n); }
  setNamedItem(a) { return this._el.setAttributeNode(a); }
  removeNamedItem(n) { const a = this._el.getAttributeNode(n); if (!a) throw new DOMError("NotFoundError", n); this._el.removeAttribute(n); return a; }
  [Symbol.iterator]() { return this._a.slice()[Symbol.iterator](); }
}

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript"]);
const esc = (s, attr) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(attr ? /"/g : /</g, attr ? "&quot;" : "&lt;").replace(attr ? /$^/ : />/g, "&gt;");

class Element extends Node {
  constructor(d, name) { super(d); this.localName = name; this._attrs = []; this._value = undefined; }
  get nodeType() { return 1; }
  get nodeName() { return this.localName.toUpperCase(); }
  get tagName() { return this.nodeName; }
  get nodeValue() { return null; } set nodeValue(_) {}
  get namespaceURI() { return "http://www.w3.org/1999/xhtml"; }
  get attributes() { return new NamedNodeMap(this); }
  _n(n) { return String(n).toLowerCase(); }
  getAttributeNode(n) { n = this._n(n); return this._attrs.find(a => a.name === n) || null; }
  getAttribute(n) { const a = this.getAttributeNode(n); return a ? a.value : null; }
  hasAttribute(n) { return !!this.getAttributeNode(n); }
  hasAttributes() { return this._attrs.length > 0; }
  getAttributeNames() { return this._attrs.map(a => a.name); }
  setAttribute(n, v) {
    if (!NAME.test(String(n))) throw new DOMError("InvalidCharacterError", JSON.stringify(String(n)) + " is not a valid attribute name");
    n = this._n(n);
    const a = this.getAttributeNode(n);
    if (a) a.value = v; else this._attrs.push(new Attr(this, n, String(v)));
  }
  setAttributeNode(a) {
    if (a.ownerElement && a.ownerElement !== this) throw new DOMError("InUseAttributeError", a.name);
    const old = this.getAttributeNode(a.name);
    if (old === a) return a;
    if (old) { this._attrs[this._attrs.indexOf(old)] = a; old.ownerElement = null; } else this._attrs.push(a);
    a.ownerElement = this;
    return old;
  }
  removeAttributeNode(a) { const i = this._attrs.indexOf(a); if (i < 0) throw new DOMError("NotFoundError", a.name); this._attrs.splice(i, 1); a.ownerElement = null; return a; }
  removeAttribute(n) { n = this._n(n); const i = this._attrs.findIndex(a => a.name === n); if (i >= 0) { this._attrs[i].ownerElement = null; this._attrs.splice(i, 1); } }
  toggleAttribute(n, f) { const has = this.hasAttribute(n); if (has && f !== true) { this.removeAttribute(n); return false; } if (!has && f !== false) { this.setAttribute(n, ""); return true; } return has; }
  setAttributeNS(_, n, v) { this.setAttribute(n, v); }
  getAttributeNS(_, n) { return this.getAttribute(n); }
  removeAttributeNS(_, n) { this.removeAttribute(n); }
  get id() { return this.getAttribute("id") || ""; } set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") || ""; } set className(v) { this.setAttribute("class", v); }
  get classList() {
    const el = this, get = () => (el.getAttribute("class") || "").split(/\s+/).filter(Boolean), set = (a) => el.setAttribute("class", a.join(" "));
    return { contains: c => get().includes(c), add: (...c) => set([...new Set([...get(), ...c])]), remove: (...c) => set(get().filter(x => !c.includes(x))), get length() { return get().length; }, [Symbol.iterator]: () => get()[Symbol.iterator]() };
  }
  get dataset() {
    const el = this, k = p => "data-" + p.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
    return new Proxy({}, { get: (_, p) => typeof p === "string" ? el.getAttribute(k(p)) ?? undefined : undefined, set: (_, p, v) => { el.setAttribute(k(p), v); return true; }, deleteProperty: (_, p) => { el.removeAttribute(k(p)); return true; }, has: (_, p) => el.hasAttribute(k(p)) });
  }
  get value() {
    if (this.localName === "input" || this.localName === "select" || this.localName === "textarea") return this._value !== undefined ? this._value : (this.getAttribute("value") || "");
    if (this.localName === "button" || this.localName === "option") return this.getAttribute("value") || "";
    return this._expando;
  }
  set value(v) {
    if (this.localName === "input" || this.localName === "select" || this.localName === "textarea") this._value = String(v);
    else if (this.localName === "button" || this.localName === "option") this.setAttribute("value", v);
    else this._expando = v;
  }
  get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
  matches(sel) { return selector(sel)(this); }
  closest(sel) { const m = selector(sel); for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (m(n)) return n; return null; }
  insertAdjacentElement(w, n) { ({ beforebegin: () => this.before(n), afterbegin: () => this.prepend(n), beforeend: () => this.append(n), afterend: () => this.after(n) })[w](); return n; }
  insertAdjacentText(w, t) { this.insertAdjacentElement(w, new Text(this.ownerDocument, t)); }
  get innerHTML() { return VOID.has(this.localName) ? "" : this._kids.map(k => html(k, RAW.has(this.localName))).join(""); }
  set innerHTML(v) { for (const k of this._kids.slice()) k._unlink(); parse(this, v === null ? "" : String(v)); }
  get outerHTML() { return html(this); }
  focus() {} blur() {} scrollIntoView() {}
  click() { this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })); }
  _clone() { const c = new Element(this.ownerDocument, this.localName); for (const a of this._attrs) c._attrs.push(new Attr(c, a.name, a.value)); c._value = this._value; return c; }
}
function html(n, raw) {
  if (n.nodeType === 3) return raw ? n.data : esc(n.data);
  if (n.nodeType === 8) return "<!--" + n.data + "-->";
  const open = "<" + n.localName + n._attrs.map(a => " " + a.name + '="' + esc(a.value, true) + '"').join("") + ">";
  return VOID.has(n.localName) ? open : open + n.innerHTML + "</" + n.localName + ">";
}
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const unent = (s) => s.replace(/&(#x[0-9a-fA-F]+|#\d+|\w+);/g, (m, e) => e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1))) : ENT[e] ?? m);
// A fragment parser for what the serializer above writes (no implied tags).
function parse(root, s) {
  const d = doc(root);
  let cur = root, i = 0;
  while (i < s.length) {
    if (s.startsWith("<!--", i)) { let e = s.indexOf("-->", i + 4); if (e < 0) e = s.length; cur.appendChild(new Comment(d, s.slice(i + 4, e))); i = e + 3; continue; }
    let m;
    if ((m = /^<\/([a-zA-Z][^\s>]*)[^>]*>/.exec(s.slice(i)))) {
      i += m[0].length;
      const name = m[1].toLowerCase();
      for (let n = cur; n !== root; n = n.parentNode) if (n.localName === name) { cur = n.parentNode; break; }
      continue;
    }
    if ((m = /^<([a-zA-Z][^\s\/>]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?)*)\s*(\/?)>/.exec(s.slice(i)))) {
      i += m[0].length;
      const el = new Element(d, m[1].toLowerCase());
      for (const a of m[2].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?/g)) if (!el.hasAttribute(a[1])) el._attrs.push(new Attr(el, a[1].toLowerCase(), unent(a[2] ?? a[3] ?? a[4] ?? "")));
      cur.appendChild(el);
      if (!VOID.has(el.localName)) cur = el;
      continue;
    }
    let e = s.indexOf("<", i + 1); if (e < 0) e = s.length;
    const t = unent(s.slice(i, e));
    if (cur.lastChild && cur.lastChild.nodeType === 3) cur.lastChild.data += t; else cur.appendChild(new Text(d, t));
    i = e;
  }
}
class DocumentFragment extends Node { get nodeType() { return 11; } get nodeName() { return "#document-fragment"; } getElementById(id) { id = String(id); return this._find(e => e.getAttribute("id") === id); } _clone() { return new DocumentFragment(this.ownerDocument); } }
class Document extends Node {
  constructor() {
    super(null);
    const mk = (n) => new Element(this, n);
    this.documentElement = mk("html"); this.head = mk("head"); this.body = mk("body");
    this.appendChild(this.documentElement); this.documentElement.append(this.head, this.body);
    this.readyState = "complete"; this.title = ""; this.hidden = false; this.visibilityState = "visible"; this.cookie = "";
  }
  get nodeType() { return 9; } get nodeName() { return "#document"; }
  get defaultView() { return this._window; }
  createElement(n) {
    n = String(n);
    if (!NAME.test(n)) throw new DOMError("InvalidCharacterError", JSON.stringify(n) + " is not a valid name");
    return new Element(this, n.toLowerCase());
  }
  createElementNS(_, n) { return this.createElement(n); }
  createTextNode(t) { return new Text(this, t); }
  createComment(t) { return new Comment(this, t); }
  createDocumentFragment() { return new DocumentFragment(this); }
  createAttribute(n) { return new Attr(null, String(n).toLowerCase(), ""); }
  createEvent() { const e = new Event(""); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = !!b; e.cancelable = !!c; }; return e; }
  importNode(n, deep) { return n.cloneNode(deep); }
  adoptNode(n) { n._unlink(); return n; }
  getElementById(id) { id = String(id); return id === "" ? null : this._find(n => n.getAttribute("id") === id); }
  get activeElement() { return this.body; }
}

// ---------------------------------------------------------------- the page

let script = null, page = null;
const pages = new Map();
function report(x) { page.errors.push(x && x.name !== undefined ? String(x.name === "Error" || !x.message ? x : x.name + ": " + x.message.replace(/^\w+Error: /, "")) : String(x)); }

function newPage(path) {
  const p = { errors: [], sent: [], sockets: [], tasks: [] };
  page = p;
  const document = new Document();
  class WebSocket extends EventTarget {
    constructor(url, protocols) { super(); this.url = String(url); this.readyState = 0; this.binaryType = "blob"; this.bufferedAmount = 0; this.protocol = ""; this.extensions = ""; p.sockets.push(this); }
    send(d) {
      if (this.readyState === 0) throw new DOMError("InvalidStateError", "Still in CONNECTING state.");
      if (this.readyState === 1) p.sent.push(typeof d === "string" ? d.toWellFormed() : { notText: String(d) });
    }
    close() { this.readyState = 3; }
  }
  Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  Object.assign(WebSocket.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  const quiet = () => {};
  const sandbox = new EventTarget();
  const timers = (f, ...a) => { p.tasks.push(() => typeof f === "function" ? f(...a) : vm.runInContext(String(f), p.context)); return p.tasks.length; };
  Object.assign(sandbox, {
    document, WebSocket, Node, Element, HTMLElement: Element, HTMLInputElement: Element, Text, Comment, Document, DocumentFragment, Event, CustomEvent: Event, EventTarget, AbortController, Attr,
    location: { host: "example.org:8080", hostname: "example.org", port: "8080", protocol: "http:", pathname: path, href: "http://example.org:8080" + path, origin: "http://example.org:8080", search: "", hash: "", reload: quiet, toString() { return this.href; } },
    console: { log: quiet, debug: quiet, info: quiet, warn: quiet, error: quiet, trace: quiet, dir: quiet, table: quiet, group: quiet, groupEnd: quiet, assert: quiet, time: quiet, timeEnd: quiet },
    navigator: { userAgent: "model" }, history: { pushState: quiet, replaceState: quiet }, performance: { now: () => 0 },
    setTimeout: (f, _, ...a) => timers(f, ...a), requestAnimationFrame: (f) => timers(f, 0), queueMicrotask: (f) => timers(f), setInterval: () => 0,
    clearTimeout: quiet, clearInterval: quiet, cancelAnimationFrame: quiet, alert: quiet, URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone, CSS: { escape: (s) => String(s).replace(/^\d|[^\w-]/g, c => "\\" + c.codePointAt(0).toString(16) + " ") },
    CharacterData, NamedNodeMap,
  });
  Object.setPrototypeOf(sandbox, Object.prototype);
  for (const m of ["addEventListener", "removeEventListener", "dispatchEvent"]) sandbox[m] = EventTarget.prototype[m].bind(sandbox);
  sandbox.window = sandbox.self = sandbox.globalThis = sandbox.top = sandbox.parent = sandbox.frames = sandbox;
  document._window = sandbox;
  document.location = sandbox.location;
  vm.createContext(sandbox);
  p.document = document; p.context = sandbox;
  try { script.runInContext(sandbox); } catch (x) { report(x); }
  for (const s of p.sockets) { s.readyState = 1; s.dispatchEvent(new Event("open")); }
  flush();
  return p;
}
function guard(f) { try { f(); } catch (x) { report(x); } }
function flush() { for (let n = 0; page.tasks.length && n < 1000; n++) guard(page.tasks.shift()); }

function dump(n) {
  const attrs = {};
  let id = null;
  for (const a of n._attrs) if (a.name === "id") id = a.value; else attrs[a.name] = a.value;
  let text = "", late = false, kids = [];
  for (const k of n._kids) {
    if (k.nodeType === 3) { if (k.data !== "" && kids.length) late = true; text += k.data; }
    else if (k.nodeType === 1) kids.push(dump(k));
  }
  return { name: n.localName, id, attrs, text, late, kids };
}

function op(o) {
  page.errors = [];
  page.sent = [];
  let out = {};
  if ("m" in o) {
    // a message from the server, on the page's socket
    const ws = page.sockets[0];
    if (!ws) throw new Error("the page opened no socket");
    ws.dispatchEvent(Object.assign(new Event("message"), { data: o.m }));
  } else if ("f" in o) {
    // an event on the nth element (document order) below the body
    const els = page.document.body._elements();
    const el = els[o.f];
    if (!el) throw new Error("no element " + o.f + " of " + els.length);
    if ("v" in o) el.value = o.v;
    el.dispatchEvent(new Event(o.e, { bubbles: true, cancelable: true }));
  }
  flush();
  out.err = page.errors;
  out.sent = page.sent;
  if (o.d) out.dom = page.document.body._kids.map(k => k.nodeType === 1 ? dump(k) : { stray: k.data });
  if (o.u) out.urls = page.sockets.map(s => s.url);
  return out;
}

// ---------------------------------------------------------------- protocol

let buf = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  buf += d;
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    let ans;
    try {
      const q = JSON.parse(line);
      if (q.script !== undefined) {
        try { script = new vm.Script(q.script, { filename: "index.js" }); ans = {}; } catch (x) { ans = { syntax: String(x) }; }
      } else {
        let boot = [];
        const k = q.page || 0;
        if (q.new) { if (k === 0) pages.clear(); newPage(q.path || "/app/page/"); pages.set(k, page); boot = page.errors; }
        page = pages.get(k);
        ans = { boot, r: q.ops.map(op) };
      }
    } catch (x) { ans = { fatal: String(x && x.stack || x) }; }
    let answer = JSON.stringify(ans);
    // half a surrogate pair has no place in JSON that Rust reads
    if (/\\ud[89a-f]/.test(answer)) answer = JSON.stringify(ans, (_, v) => typeof v === "string" && !v.isWellFormed() ? v.toWellFormed() + " (cut inside a character)" : v);
    process.stdout.write(answer + "\n");
  }
});
process.stdin.on("end", () => process.exit(0));
