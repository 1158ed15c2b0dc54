// A small document object model: what coin2html's viewer and the d3 stand-in need of a browser, with the same meaning.
// Accesses to properties that it does not have are recorded in `missing`: an exception after one of those proves nothing.
"use strict";
const XHTML = "http://www.w3.org/1999/xhtml", SVG = "http://www.w3.org/2000/svg";
const missing = new Set();
const known = new Set(["toJSON", "then", "constructor", "toString", "valueOf", "inspect", "nodeUid", "clipUid"]);
const base = new Proxy(Object.create(null), {
  get(t, p) {
    if (p in Object.prototype) return Object.prototype[p];
    if (typeof p == "string" && !p.startsWith("_") && !known.has(p)) missing.add(p);
    return undefined;
  },
  has: () => false,
});

class Node {
  constructor(doc) {
    def(this, "ownerDocument", doc);
    def(this, "parentNode", null);
    def(this, "childNodes", []);
    def(this, "listeners", []);
  }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get children() { return this.childNodes.filter((c) => c instanceof Element); }
  get childElementCount() { return this.children.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
  get nextSibling() { const s = this.parentNode?.childNodes; return s?.[s.indexOf(this) + 1] ?? null; }
  get previousSibling() { const s = this.parentNode?.childNodes; return s?.[s.indexOf(this) - 1] ?? null; }
  get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element)) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element)) n = n.previousSibling; return n; }
  hasChildNodes() { return this.childNodes.length > 0; }
  get isConnected() { return this === this.ownerDocument || (this.parentNode?.isConnected ?? false); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  appendChild(n) { return this.insertBefore(n, null); }
  insertBefore(n, ref) {
    if (n === ref) return n;
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    if (n.contains(this)) throw new Error("HierarchyRequestError");
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new Error("NotFoundError: insertBefore");
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error("NotFoundError: removeChild");
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  nodesOf(list) { return list.map((n) => (n instanceof Node ? n : new Text(this.ownerDocument, String(n)))); }
  append(...list) { for (const n of this.nodesOf(list)) this.appendChild(n); }
  prepend(...list) { const f = this.firstChild; for (const n of this.nodesOf(list)) this.insertBefore(n, f); }
  before(...list) { for (const n of this.nodesOf(list)) this.parentNode.insertBefore(n, this); }
  after(...list) { const f = this.nextSibling; for (const n of this.nodesOf(list)) this.parentNode.insertBefore(n, f); }
  replaceWith(...list) { this.before(...list); this.remove(); }
  replaceChildren(...list) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...list); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) {
    this.replaceChildren();
    if (v !== null && v !== undefined && v !== "") this.appendChild(new Text(this.ownerDocument, String(v)));
  }
  cloneNode(deep) {
    const c = this.copy();
    if (deep) for (const n of this.childNodes) c.appendChild(n.cloneNode(true));
    return c;
  }
  addEventListener(type, f, o) {
    const capture = o === true || !!(o && o.capture);
    if (!this.listeners.some((l) => l.type == type && l.f == f && l.capture == capture))
      this.listeners.push({ type, f, capture, once: !!(o && o.once) });
  }
  removeEventListener(type, f, o) {
    const capture = o === true || !!(o && o.capture);
    this.listeners = this.listeners.filter((l) => !(l.type == type && l.f == f && l.capture == capture));
  }
  dispatchEvent(e) {
    e.target = this;
    const path = [];
    for (let n = this; n; n = n.parentNode) path.push(n);
    const call = (n, capture) => {
      for (const l of [...n.listeners]) {
        if (l.type != e.type || l.capture != capture || e.stoppedNow) continue;
        e.currentTarget = n;
        if (l.once) n.removeEventListener(l.type, l.f, l.capture);
        typeof l.f == "function" ? l.f.call(n, e) : l.f.handleEvent(e);
      }
      const on = n["on" + e.type];
      if (!capture && typeof on == "function" && !e.stoppedNow) { e.currentTarget = n; on.call(n, e); }
    };
    for (const n of [...path].reverse()) if (!e.stopped) call(n, true);
    for (const n of path) { if (!e.stopped && (n === this || e.bubbles)) call(n, false); }
    e.currentTarget = null;
    return !e.defaultPrevented;
  }
  all() { return this.childNodes.flatMap((c) => (c instanceof Element ? [c, ...c.all()] : [])); }
  querySelectorAll(sel) { const s = parseSelector(sel); return this.all().filter((e) => matches(e, s, this)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  getElementsByTagName(n) { return this.all().filter((e) => n == "*" || e.localName == n.toLowerCase()); }
  getElementsByClassName(n) { return this.all().filter((e) => n.trim().split(/\s+/).every((c) => e.classList.contains(c))); }
}
Object.setPrototypeOf(Node.prototype, base);
for (const t of ["click", "dblclick", "change", "input", "mouseover", "mouseout", "load", "keydown", "keyup", "submit"]) Node.prototype["on" + t] = null;
function def(o, k, value) { Object.defineProperty(o, k, { value, writable: true, enumerable: false, configurable: true }); }

class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
  copy() { return new Text(this.ownerDocument, this.data); }
}
class Comment extends Text {
  get nodeType() { return 8; }
  get nodeName() { return "#comment"; }
  get textContent() { return ""; }
}
class Fragment extends Node {
  get nodeType() { return 11; }
  copy() { return new Fragment(this.ownerDocument); }
}

class Style {
  constructor() { def(this, "props", new Map()); }
  setProperty(k, v) { this.props.set(k, String(v)); }
  getPropertyValue(k) { return this.props.get(k) ?? ""; }
  removeProperty(k) { this.props.delete(k); }
  get display() { return this.getPropertyValue("display"); }
  set display(v) { this.setProperty("display", v); }
  get cssText() { return [...this.props].map(([k, v]) => `${k}: ${v};`).join(" "); }
}
class ClassList {
  constructor(e) { this.e = e; }
  get list() { return (this.e.getAttribute("class") ?? "").split(/\s+/).filter((c) => c); }
  add(...cs) { this.e.setAttribute("class", [...new Set([...this.list, ...cs])].join(" ")); }
  remove(...cs) { this.e.setAttribute("class", this.list.filter((c) => !cs.includes(c)).join(" ")); }
  contains(c) { return this.list.includes(c); }
  toggle(c, on = !this.contains(c)) { on ? this.add(c) : this.remove(c); return on; }
  get length() { return this.list.length; }
}

class Element extends Node {
  constructor(doc, name, ns = XHTML) {
    super(doc);
    this.localName = ns == XHTML ? name.toLowerCase() : name;
    this.namespaceURI = ns;
    def(this, "attrs", new Map());
    def(this, "styleObject", new Style());
  }
  get nodeType() { return 1; }
  get tagName() { return this.namespaceURI == XHTML ? this.localName.toUpperCase() : this.localName; }
  get nodeName() { return this.tagName; }
  get style() { return this.styleObject; }
  get classList() { return new ClassList(this); }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v) { this.setAttribute("class", v); }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v) { this.setAttribute("id", v); }
  get title() { return this.getAttribute("title") ?? ""; }
  set title(v) { this.setAttribute("title", v); }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { v ? this.setAttribute("hidden", "") : this.removeAttribute("hidden"); }
  get dataset() { return (this.data_ ??= {}); }
  setAttribute(k, v) { this.attrs.set(k, String(v)); }
  setAttributeNS(ns, k, v) { this.attrs.set(k, String(v)); }
  getAttribute(k) { return this.attrs.get(k) ?? null; }
  getAttributeNS(ns, k) { return this.attrs.get(k) ?? null; }
  hasAttribute(k) { return this.attrs.has(k); }
  removeAttribute(k) { this.attrs.delete(k); }
  removeAttributeNS(ns, k) { this.attrs.delete(k); }
  toggleAttribute(k, on = !this.hasAttribute(k)) { on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
  matches(sel) { return matches(this, parseSelector(sel), null); }
  closest(sel) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(sel)) return n; return null; }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.childNodes.map((c) => (c instanceof Element ? c.outerHTML : c.textContent)).join(""); }
  set innerHTML(v) { this.replaceChildren(); parseInto(this, String(v)); }
  get outerHTML() { return `<${this.localName}>${this.innerHTML}</${this.localName}>`; }
  get clientWidth() { return 1000; }
  get clientHeight() { return 800; }
  get offsetWidth() { return 1000; }
  get offsetHeight() { return 800; }
  getBoundingClientRect() { return { x: 0, y: 0, left: 0, top: 0, right: 1000, bottom: 800, width: 1000, height: 800 }; }
  scrollIntoView() {}
  focus() {}
  blur() {}
  click() { this.dispatchEvent(new Event_("click", { bubbles: true })); }
  copy() {
    const c = this.ownerDocument.createElementNS(this.namespaceURI, this.localName);
    for (const [k, v] of this.attrs) c.setAttribute(k, v);
    return c;
  }
}
function reflect(cls, ...names) {
  for (const n of names)
    Object.defineProperty(cls.prototype, n, {
      get() { return this.getAttribute(n) ?? ""; }, set(v) { this.setAttribute(n, v); }, configurable: true });
}
class SVGElement extends Element {
  get width() { return { baseVal: { value: 1000 } }; }
  get height() { return { baseVal: { value: 800 } }; }
  getBBox() { return { x: 0, y: 0, width: 100, height: 10 }; }
  getComputedTextLength() { return 8 * this.textContent.length; }
}
class Input extends Element {
  get type() { return this.getAttribute("type") ?? "text"; }
  set type(v) { this.setAttribute("type", v); }
  get value() { return this.val ?? this.getAttribute("value") ?? (this.type == "checkbox" ? "on" : ""); }
  set value(v) {
    v = v === null ? "" : String(v);
    if (this.type == "date" && !/^\d{4,}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])$/.test(v)) v = "";
    if (this.type == "number" && !/^-?\d+(\.\d+)?$/.test(v)) v = "";
    this.val = v;
  }
  get valueAsNumber() { return this.value == "" ? NaN : this.type == "date" ? Date.parse(this.value) : Number(this.value); }
  set valueAsNumber(v) { this.type == "date" ? (this.valueAsDate = new Date(v)) : (this.value = v); }
  get valueAsDate() { return this.type != "date" || this.value == "" ? null : new Date(Date.parse(this.value)); }
  set valueAsDate(d) {
    if (d === null || isNaN(d.getTime())) { this.value = ""; return; }
    this.value = d.toISOString().split("T")[0];
  }
  get checked() { return this.chk ?? this.hasAttribute("checked"); }
  set checked(v) { this.chk = !!v; }
}
reflect(Input, "min", "max", "name", "placeholder", "step");
class Select extends Element {
  get options() { return this.all().filter((e) => e instanceof Option); }
  get length() { return this.options.length; }
  get selectedIndex() {
    const o = this.options;
    for (let i = o.length - 1; i >= 0; i--) if (o[i].sel) return i;
    return o.length > 0 ? 0 : -1;
  }
  set selectedIndex(i) { this.options.forEach((o, j) => (o.sel = i == j)); }
  get selectedOptions() { const i = this.selectedIndex; return i < 0 ? [] : [this.options[i]]; }
  get value() { const i = this.selectedIndex; return i < 0 ? "" : this.options[i].value; }
  set value(v) { this.selectedIndex = this.options.findIndex((o) => o.value == v); }
}
reflect(Select, "name");
class Option extends Element {
  get owner() { let n = this.parentNode; while (n && !(n instanceof Select)) n = n.parentNode; return n; }
  get selected() { const s = this.owner; return s ? s.options[s.selectedIndex] === this : !!this.sel; }
  set selected(v) {
    const s = this.owner;
    if (v && s) for (const o of s.options) o.sel = false;
    this.sel = !!v;
  }
  get value() { return this.getAttribute("value") ?? this.textContent; }
  set value(v) { this.setAttribute("value", v); }
  get text() { return this.textContent; }
  set text(v) { this.textContent = v; }
  get label() { return this.getAttribute("label") ?? this.text; }
  get index() { return this.owner ? this.owner.options.indexOf(this) : 0; }
}
class Label extends Element {}
reflect(Label, "for", "htmlFor");
class Anchor extends Element {}
reflect(Anchor, "href", "target");
class Output extends Element {
  get value() { return this.textContent; }
  set value(v) { this.textContent = v; }
}
reflect(Element, "lang", "role");
for (const n of ["rowSpan", "colSpan", "disabled", "scrollTop", "scrollLeft", "tabIndex"]) def(Element.prototype, n, undefined);

class Event_ {
  constructor(type, o = {}) { this.type = type; this.bubbles = !!o.bubbles; this.detail = o.detail; this.timeStamp = Date.now(); }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.stoppedNow = true; }
  preventDefault() { this.defaultPrevented = true; }
}

class Document extends Node {
  constructor() {
    super(null);
    def(this, "ownerDocument", this);
    this.documentElement = this.appendChild(this.createElement("html"));
    this.head = this.documentElement.appendChild(this.createElement("head"));
    this.body = this.documentElement.appendChild(this.createElement("body"));
  }
  get nodeType() { return 9; }
  get nodeName() { return "#document"; }
  get namespaceURI() { return XHTML; }
  get readyState() { return this.state ?? "loading"; }
  get defaultView() { return globalThis; }
  createElement(n) { return this.createElementNS(XHTML, n); }
  createElementNS(ns, n) {
    if (ns == SVG) return new SVGElement(this, n, ns);
    const cls = { input: Input, select: Select, option: Option, label: Label, a: Anchor, output: Output }[n.toLowerCase()] ?? Element;
    return new cls(this, n, ns);
  }
  createTextNode(s) { return new Text(this, String(s)); }
  createComment(s) { return new Comment(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  getElementById(id) { return this.all().find((e) => e.getAttribute("id") == id) ?? null; }
}

// selectors: lists of compounds joined by descendant, child and sibling combinators
const selectors = new Map();
function parseSelector(src) {
  let res = selectors.get(src);
  if (res) return res;
  res = src.split(",").map((one) => {
    const steps = [];
    let rest = one.trim(), comb = null;
    while (rest != "") {
      const m = /^(\*|[A-Za-z][\w-]*)?((?:[#.][\w-]+|\[[^\]]*\]|:[a-z-]+(?:\([^)]*\))?)*)\s*([>+~]?)\s*/.exec(rest);
      if (!m || m[0] == "") throw new Error(`SyntaxError: unknown selector ${src}`);
      const tests = [];
      for (const [s] of m[2].matchAll(/[#.][\w-]+|\[[^\]]*\]|:[a-z-]+(?:\([^)]*\))?/g)) tests.push(s);
      steps.push({ comb, tag: m[1], tests });
      comb = m[3] || " ";
      rest = rest.slice(m[0].length);
    }
    return steps;
  });
  selectors.set(src, res);
  return res;
}
function matches(e, sel, scope) { return sel.some((steps) => matchSteps(e, steps, steps.length - 1, scope)); }
function matchSteps(e, steps, i, scope) {
  if (!matchOne(e, steps[i], scope)) return false;
  if (i == 0) return true;
  const comb = steps[i].comb;
  if (comb == ">") return e.parentNode instanceof Element && matchSteps(e.parentNode, steps, i - 1, scope);
  if (comb == "+") { const p = e.previousElementSibling; return !!p && matchSteps(p, steps, i - 1, scope); }
  if (comb == "~") { for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (matchSteps(p, steps, i - 1, scope)) return true; return false; }
  for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (matchSteps(p, steps, i - 1, scope)) return true;
  return false;
}
function matchOne(e, { tag, tests }, scope) {
  if (tag && tag != "*" && e.localName.toLowerCase() != tag.toLowerCase()) return false;
  return tests.every((t) => {
    if (t[0] == "#") return e.getAttribute("id") == t.slice(1);
    if (t[0] == ".") return e.classList.contains(t.slice(1));
    if (t[0] == "[") {
      const m = /^\[\s*([\w-]+)\s*(?:=\s*["']?([^"'\]]*)["']?\s*)?\]$/.exec(t);
      if (!m) throw new Error(`SyntaxError: unknown selector ${t}`);
      return e.hasAttribute(m[1]) && (m[2] === undefined || e.getAttribute(m[1]) == m[2]);
    }
    const sibs = e.parentNode ? e.parentNode.children : [e], n = /\((.*)\)/.exec(t)?.[1];
    switch (t.replace(/\(.*/, "")) {
      case ":first-child": return sibs[0] === e;
      case ":last-child": return sibs[sibs.length - 1] === e;
      case ":nth-child": return n == "odd" ? sibs.indexOf(e) % 2 == 0 : n == "even" ? sibs.indexOf(e) % 2 == 1 : sibs.indexOf(e) + 1 == Number(n);
      case ":nth-last-child": return sibs.length - sibs.indexOf(e) == Number(n);
      case ":scope": return e === scope;
      case ":checked": return !!e.checked || !!e.selected;
      case ":not": return !matches(e, parseSelector(n), scope);
    }
    throw new Error(`SyntaxError: unknown selector ${t}`);
  });
}

// a parser for the pages that coin2html writes and for body.html
const VOID = new Set(["input", "br", "hr", "img", "meta", "link", "col", "source", "area", "base", "wbr", "embed", "param", "track"]);
const RAW = new Set(["script", "style", "textarea", "title"]);
function entities(s) {
  return s.replace(/&(#\d+|#x[0-9a-f]+|\w+);/gi, (m, e) =>
    e[0] == "#" ? String.fromCodePoint(e[1] == "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1)))
      : ({ lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", nbsp: "\u00a0" })[e] ?? m);
}
function parseInto(root, src) {
  const doc = root.ownerDocument;
  let at = root, i = 0;
  const text = (s) => s != "" && at.appendChild(doc.createTextNode(entities(s)));
  while (i < src.length) {
    const lt = src.indexOf("<", i);
    if (lt < 0) { text(src.slice(i)); break; }
    text(src.slice(i, lt));
    if (src.startsWith("<!--", lt)) { const e = src.indexOf("-->", lt); i = e < 0 ? src.length : e + 3; continue; }
    if (src[lt + 1] == "!") { const e = src.indexOf(">", lt); i = e < 0 ? src.length : e + 1; continue; }
    const m = /^<(\/?)([A-Za-z][\w:-]*)((?:\s+[\w:@.-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>/.exec(src.slice(lt));
    if (!m) { text("<"); i = lt + 1; continue; }
    i = lt + m[0].length;
    const name = m[2].toLowerCase();
    if (m[1]) {
      for (let n = at; n !== root; n = n.parentNode) if (n.localName == name) { at = n.parentNode; break; }
      continue;
    }
    const e = ["html", "head", "body"].includes(name) ? null : doc.createElement(name);
    if (!e) continue; // the structure around is there already
    for (const a of m[3].matchAll(/([\w:@.-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g))
      e.setAttribute(a[1].toLowerCase(), entities(a[2] ?? a[3] ?? a[4] ?? ""));
    at.appendChild(e);
    if (RAW.has(name)) {
      const rest = src.slice(i), end = rest.search(new RegExp(`</${name}[\\s/>]`, "i"));
      const raw = end < 0 ? rest : rest.slice(0, end);
      if (raw != "") e.appendChild(doc.createTextNode(name == "script" || name == "style" ? raw : entities(raw)));
      i = end < 0 ? src.length : src.indexOf(">", i + end) + 1;
    } else if (!VOID.has(name) && !m[4]) at = e;
  }
}

module.exports = { Document, Node, Element, Text, Event: Event_, SVGElement, Input, Select, Option, parseInto, missing };
