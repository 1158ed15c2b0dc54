// Stands in for the d3 modules that coin2html's viewer is built with, which cannot be fetched here.
// Selections, time intervals and scales do what d3 7 documents; layouts and axes only as far as texts are concerned.

// ---- d3-selection
const NS = { svg: "http://www.w3.org/2000/svg", xhtml: "http://www.w3.org/1999/xhtml", xlink: "http://www.w3.org/1999/xlink" };
export const namespaces = NS;
export function namespace(name) {
  const i = name.indexOf(":");
  if (i >= 0) { const p = name.slice(0, i); if (p != "xmlns") name = name.slice(i + 1); return p in NS ? { space: NS[p], local: name } : name; }
  return name;
}
export function creator(name) {
  const full = namespace(name);
  if (full.local) return function () { return this.ownerDocument.createElementNS(full.space, full.local); };
  return function () {
    const doc = this.ownerDocument, uri = this.namespaceURI;
    if (name == "svg") return doc.createElementNS(NS.svg, name);
    return uri === NS.xhtml || uri === undefined ? doc.createElement(name) : doc.createElementNS(uri, name);
  };
}
export function selector(s) { return s == null ? () => undefined : function () { return this.querySelector(s); }; }
export function selectorAll(s) { return s == null ? () => [] : function () { return this.querySelectorAll(s); }; }
export function matcher(s) { return function () { return this.matches(s); }; }
const array = (x) => (x == null ? [] : Array.isArray(x) ? x : Array.from(x));
const fn = (v) => (typeof v == "function" ? v : () => v);
const root = [null];

class EnterNode {
  constructor(parent, datum) {
    this.ownerDocument = parent.ownerDocument;
    this.namespaceURI = parent.namespaceURI;
    this._next = null;
    this._parent = parent;
    this.__data__ = datum;
  }
  appendChild(c) { return this._parent.insertBefore(c, this._next); }
  insertBefore(c, next) { return this._parent.insertBefore(c, next); }
  querySelector(s) { return this._parent.querySelector(s); }
  querySelectorAll(s) { return this._parent.querySelectorAll(s); }
}

export class Selection {
  constructor(groups, parents) { this._groups = groups; this._parents = parents; }
  select(s) {
    if (typeof s != "function") s = selector(s);
    return new Selection(this._groups.map((g) => Array.from(g, (n, i) => {
      if (!n) return undefined;
      const sub = s.call(n, n.__data__, i, g);
      if (sub && "__data__" in n) sub.__data__ = n.__data__;
      return sub;
    })), this._parents);
  }
  selectAll(s) {
    const f = typeof s == "function" ? s : selectorAll(s);
    const groups = [], parents = [];
    for (const g of this._groups)
      for (let i = 0; i < g.length; i++) if (g[i]) { groups.push(array(f.call(g[i], g[i].__data__, i, g))); parents.push(g[i]); }
    return new Selection(groups, parents);
  }
  selectChild(m) { return this.select(function () { return [...this.children].find((c) => m == null || c.matches(m)); }); }
  selectChildren(m) { return this.selectAll(function () { return [...this.children].filter((c) => m == null || c.matches(m)); }); }
  filter(m) {
    if (typeof m != "function") m = matcher(m);
    return new Selection(this._groups.map((g) => g.filter((n, i) => n && m.call(n, n.__data__, i, g))), this._parents);
  }
  data(value, key) {
    if (!arguments.length) return Array.from(this, (n) => n.__data__);
    const f = fn(value), m = this._groups.length, update = [], enter = [], exit = [];
    for (let j = 0; j < m; j++) {
      const parent = this._parents[j], group = this._groups[j];
      const data = arrayOf(f.call(parent, parent && parent.__data__, j, this._parents));
      const e = (enter[j] = new Array(data.length)), u = (update[j] = new Array(data.length)), x = (exit[j] = new Array(group.length));
      if (key) {
        const byKey = new Map(), keys = new Array(group.length);
        group.forEach((n, i) => {
          if (!n) return;
          const k = (keys[i] = key.call(n, n.__data__, i, group) + "");
          if (byKey.has(k)) x[i] = n; else byKey.set(k, n);
        });
        for (let i = 0; i < data.length; i++) {
          const k = key.call(parent, data[i], i, data) + "", n = byKey.get(k);
          if (n) { u[i] = n; n.__data__ = data[i]; byKey.delete(k); } else e[i] = new EnterNode(parent, data[i]);
        }
        group.forEach((n, i) => { if (n && byKey.get(keys[i]) === n) x[i] = n; });
      } else {
        let i = 0;
        for (; i < data.length; i++) {
          if (group[i]) { group[i].__data__ = data[i]; u[i] = group[i]; } else e[i] = new EnterNode(parent, data[i]);
        }
        for (; i < group.length; i++) if (group[i]) x[i] = group[i];
      }
      for (let i0 = 0, i1 = 0; i0 < data.length; ++i0) {
        const previous = e[i0];
        if (previous) {
          if (i0 >= i1) i1 = i0 + 1;
          let next;
          while (!(next = u[i1]) && ++i1 < data.length);
          previous._next = next || null;
        }
      }
    }
    const res = new Selection(update, this._parents);
    res._enter = enter;
    res._exit = exit;
    return res;
  }
  enter() { return new Selection(this._enter || this._groups.map((g) => new Array(g.length)), this._parents); }
  exit() { return new Selection(this._exit || this._groups.map((g) => new Array(g.length)), this._parents); }
  join(onenter, onupdate, onexit) {
    let enter = this.enter(), update = this, exit = this.exit();
    if (typeof onenter == "function") { enter = onenter(enter); if (enter) enter = enter.selection(); } else enter = enter.append(onenter + "");
    if (onupdate != null) { update = onupdate(update); if (update) update = update.selection(); }
    if (onexit == null) exit.remove(); else onexit(exit);
    return enter && update ? enter.merge(update).order() : update;
  }
  selection() { return this; }
  merge(other) {
    const o = other.selection ? other.selection() : other;
    const groups = this._groups.map((g, j) => { const h = o._groups[j]; return h ? Array.from(g, (n, i) => n || h[i]) : g; });
    return new Selection(groups, this._parents);
  }
  order() {
    for (const g of this._groups) {
      let next = null;
      for (let i = g.length - 1; i >= 0; i--) {
        const n = g[i];
        if (!n) continue;
        if (next && n.nextSibling !== next) next.parentNode.insertBefore(n, next);
        next = n;
      }
    }
    return this;
  }
  sort(compare = ascending) {
    const cmp = (a, b) => (a && b ? compare(a.__data__, b.__data__) : !a - !b);
    return new Selection(this._groups.map((g) => Array.from(g).sort(cmp)), this._parents).order();
  }
  call(f, ...args) { f(this, ...args); return this; }
  nodes() { return Array.from(this); }
  node() { for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) return g[i]; return null; }
  size() { return this.nodes().length; }
  empty() { return !this.node(); }
  each(f) {
    for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) f.call(g[i], g[i].__data__, i, g);
    return this;
  }
  attr(name, value) {
    const full = namespace(name), key = full.local ? name : full;
    if (arguments.length < 2) return this.node().getAttribute(key);
    const f = fn(value);
    return this.each(function (d, i, g) { const v = value == null ? null : f.call(this, d, i, g); v == null ? this.removeAttribute(key) : this.setAttribute(key, v); });
  }
  style(name, value, priority) {
    if (arguments.length < 2) return this.node().style.getPropertyValue(name);
    const f = fn(value);
    return this.each(function (d, i, g) { const v = value == null ? null : f.call(this, d, i, g); v == null ? this.style.removeProperty(name) : this.style.setProperty(name, v, priority); });
  }
  property(name, value) {
    if (arguments.length < 2) return this.node()[name];
    const f = fn(value);
    return this.each(function (d, i, g) { const v = value == null ? null : f.call(this, d, i, g); v == null ? delete this[name] : (this[name] = v); });
  }
  classed(names, value) {
    const list = (names + "").trim().split(/\s+/).filter((c) => c);
    if (arguments.length < 2) { const n = this.node(); return list.every((c) => n.classList.contains(c)); }
    const f = fn(value);
    return this.each(function (d, i, g) { f.call(this, d, i, g) ? this.classList.add(...list) : this.classList.remove(...list); });
  }
  text(value) {
    if (!arguments.length) return this.node().textContent;
    const f = fn(value);
    return this.each(function (d, i, g) { const v = value == null ? null : f.call(this, d, i, g); this.textContent = v == null ? "" : v; });
  }
  html(value) {
    if (!arguments.length) return this.node().innerHTML;
    const f = fn(value);
    return this.each(function (d, i, g) { const v = value == null ? null : f.call(this, d, i, g); this.innerHTML = v == null ? "" : v; });
  }
  raise() { return this.each(function () { if (this.nextSibling) this.parentNode.appendChild(this); }); }
  lower() { return this.each(function () { if (this.previousSibling) this.parentNode.insertBefore(this, this.parentNode.firstChild); }); }
  append(name) {
    const create = typeof name == "function" ? name : creator(name);
    return this.select(function (...a) { return this.appendChild(create.apply(this, a)); });
  }
  insert(name, before) {
    const create = typeof name == "function" ? name : creator(name);
    const sel = before == null ? () => null : typeof before == "function" ? before : selector(before);
    return this.select(function (...a) { return this.insertBefore(create.apply(this, a), sel.apply(this, a) || null); });
  }
  remove() { return this.each(function () { const p = this.parentNode; if (p) p.removeChild(this); }); }
  clone(deep) { return this.select(function () { const c = this.cloneNode(deep), p = this.parentNode; return p ? p.insertBefore(c, this.nextSibling) : c; }); }
  datum(value) { return arguments.length ? this.property("__data__", value) : this.node().__data__; }
  on(typename, value, options) {
    const names = (typename + "").trim().split(/\s+/).map((t) => { const i = t.indexOf("."); return i >= 0 ? { name: t.slice(i + 1), type: t.slice(0, i) } : { name: "", type: t }; });
    if (arguments.length < 2) {
      const on = this.node()?.__on;
      for (const o of on || []) for (const n of names) if (n.type == o.type && n.name == o.name) return o.value;
      return undefined;
    }
    return this.each(function () {
      for (const { type, name } of names) {
        const on = this.__on || (this.__on = []);
        for (let i = on.length - 1; i >= 0; i--)
          if ((type == "" || on[i].type == type) && on[i].name == name) { this.removeEventListener(on[i].type, on[i].listener, on[i].options); on.splice(i, 1); }
        if (value == null) continue;
        const listener = function (event) { value.call(this, event, this.__data__); };
        this.addEventListener(type, listener, options);
        on.push({ type, name, value, listener, options });
      }
    });
  }
  dispatch(type, params = {}) {
    return this.each(function () { const e = new Event(type, typeof params == "function" ? params.apply(this, arguments) : params); this.dispatchEvent(e); });
  }
  *[Symbol.iterator]() { for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) yield g[i]; }
}
function arrayOf(d) { return typeof d == "object" && d !== null && "length" in d ? d : Array.from(d); }
export function selection() { return new Selection([[document.documentElement]], root); }
export function select(s) {
  return typeof s == "string" ? new Selection([[document.querySelector(s)]], [document.documentElement]) : new Selection([[s]], root);
}
export function selectAll(s) {
  return typeof s == "string" ? new Selection([document.querySelectorAll(s)], [document.documentElement]) : new Selection([array(s)], root);
}
export function create(name) { return select(creator(name).call(document.documentElement)); }
export function pointer(e) { return [e.pageX || 0, e.pageY || 0]; }

// ---- d3-array
export const ascending = (a, b) => (a == null || b == null ? NaN : a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN);
export const descending = (a, b) => (a == null || b == null ? NaN : b < a ? -1 : b > a ? 1 : b >= a ? 0 : NaN);
const number = (v) => v != null && (v = +v) >= v;
function* values(it, f) { let i = -1; for (const x of it) { const v = f ? f(x, ++i, it) : x; if (v != null && v >= v) yield v; } }
export function min(it, f) { let m; for (const v of values(it, f)) if (m === undefined || v < m) m = v; return m; }
export function max(it, f) { let m; for (const v of values(it, f)) if (m === undefined || v > m) m = v; return m; }
export function extent(it, f) { return [min(it, f), max(it, f)]; }
export function sum(it, f) { let s = 0, i = -1; for (const x of it) { const v = +(f ? f(x, ++i, it) : x); if (v) s += v; } return s; }
export function mean(it, f) { let s = 0, n = 0, i = -1; for (const x of it) { const v = f ? f(x, ++i, it) : x; if (number(v)) { s += +v; n++; } } return n ? s / n : undefined; }
export function range(a, b, s = 1) { if (b === undefined) { b = a; a = 0; } return Array.from({ length: Math.max(0, Math.ceil((b - a) / s)) }, (_, i) => a + i * s); }
function nest(it, map, reduce, keys) {
  return (function re(vs, i) {
    if (i >= keys.length) return reduce(vs);
    const groups = new Map();
    let n = -1;
    for (const v of vs) { let k = keys[i](v, ++n, vs); for (const g of groups.keys()) if (k instanceof Date && g instanceof Date && +g == +k) k = g; groups.has(k) ? groups.get(k).push(v) : groups.set(k, [v]); }
    for (const [k, g] of groups) groups.set(k, re(g, i + 1));
    return map(groups);
  })(Array.from(it), 0);
}
export function group(it, ...keys) { return nest(it, (m) => m, (v) => v, keys); }
export function groups(it, ...keys) { return nest(it, Array.from, (v) => v, keys); }
export function rollup(it, f, ...keys) { return nest(it, (m) => m, f, keys); }
export function rollups(it, f, ...keys) { return nest(it, Array.from, f, keys); }
export function index(it, ...keys) { return nest(it, (m) => m, (v) => v[0], keys); }
export function merge(arrays) { return Array.from(arrays).flatMap((a) => Array.from(a)); }
export function zip(...as) { return Array.from({ length: min(as, (a) => a.length) || 0 }, (_, i) => as.map((a) => a[i])); }
export function cumsum(it, f) { let s = 0, i = 0; return Array.from(it, (v) => (s += +(f ? f(v, i++, it) : v) || 0)); }
export function reverse(it) { return Array.from(it).reverse(); }
export function sort(it, ...fs) {
  const f = fs[0];
  if (!f) return Array.from(it).sort(ascending);
  if (f.length == 2) return Array.from(it).sort(f);
  return Array.from(it).sort((a, b) => { for (const g of fs) { const c = ascending(g(a), g(b)); if (c) return c; } return 0; });
}
export function bisector(f) {
  const cmp = f.length == 2 ? f : (d, x) => ascending(f(d), x);
  const left = (a, x, lo = 0, hi = a.length) => { while (lo < hi) { const m = (lo + hi) >>> 1; cmp(a[m], x) < 0 ? (lo = m + 1) : (hi = m); } return lo; };
  const right = (a, x, lo = 0, hi = a.length) => { while (lo < hi) { const m = (lo + hi) >>> 1; cmp(a[m], x) <= 0 ? (lo = m + 1) : (hi = m); } return lo; };
  return { left, right, center: left };
}
const asc = bisector((d, x) => ascending(d, x));
export const bisect = asc.right, bisectRight = asc.right, bisectLeft = asc.left;
export function greatest(it, f = ascending) { let m, has; const c = f.length == 1 ? (a, b) => ascending(f(a), f(b)) : f; for (const v of it) if (!has || c(v, m) > 0) { m = v; has = true; } return m; }
export function least(it, f = ascending) { let m, has; const c = f.length == 1 ? (a, b) => ascending(f(a), f(b)) : f; for (const v of it) if (!has || c(v, m) < 0) { m = v; has = true; } return m; }
function tickStep(a, b, n) {
  const raw = Math.abs(b - a) / Math.max(0, n);
  let step = 10 ** Math.floor(Math.log10(raw));
  const e = raw / step;
  if (e >= Math.sqrt(50)) step *= 10; else if (e >= Math.sqrt(10)) step *= 5; else if (e >= Math.sqrt(2)) step *= 2;
  return b < a ? -step : step;
}
export function ticks(a, b, n) { if (!(n > 0) || a === b) return a === b ? [a] : []; const s = Math.abs(tickStep(a, b, n)), lo = Math.ceil(Math.min(a, b) / s), hi = Math.floor(Math.max(a, b) / s), r = []; for (let i = lo; i <= hi; i++) r.push(i * s); return b < a ? r.reverse() : r; }

// ---- d3-time
const t0 = new Date(), t1 = new Date();
export function timeInterval(floori, offseti, count, field) {
  const interval = (date) => (floori((date = date === undefined ? new Date() : new Date(+date))), date);
  interval.floor = (date) => (floori((date = new Date(+date))), date);
  interval.ceil = (date) => (floori((date = new Date(date - 1))), offseti(date, 1), floori(date), date);
  interval.round = (date) => { const d0 = interval(date), d1 = interval.ceil(date); return date - d0 < d1 - date ? d0 : d1; };
  interval.offset = (date, step) => (offseti((date = new Date(+date)), step == null ? 1 : Math.floor(step)), date);
  interval.range = (start, stop, step) => {
    const range = [];
    start = interval.ceil(start);
    step = step == null ? 1 : Math.floor(step);
    if (!(start < stop) || !(step > 0)) return range;
    let previous;
    do range.push((previous = new Date(+start))), offseti(start, step), floori(start);
    while (previous < start && start < stop);
    return range;
  };
  interval.filter = (test) =>
    timeInterval(
      (date) => { if (date >= date) while ((floori(date), !test(date))) date.setTime(date - 1); },
      (date, step) => {
        if (date >= date) {
          if (step < 0) while (++step <= 0) while ((offseti(date, -1), !test(date)));
          else while (--step >= 0) while ((offseti(date, +1), !test(date)));
        }
      });
  if (count) {
    interval.count = (start, end) => { t0.setTime(+start); t1.setTime(+end); floori(t0); floori(t1); return Math.floor(count(t0, t1)); };
    interval.every = (step) => {
      step = Math.floor(step);
      return !isFinite(step) || !(step > 0) ? null : !(step > 1) ? interval
        : interval.filter(field ? (d) => field(d) % step === 0 : (d) => interval.count(0, d) % step === 0);
    };
  }
  return interval;
}
const DAY = 864e5, WEEK = 7 * DAY, tz = (a, b) => (b.getTimezoneOffset() - a.getTimezoneOffset()) * 6e4;
export const timeMillisecond = timeInterval(() => {}, (d, s) => d.setTime(+d + s), (a, b) => b - a);
export const utcMillisecond = timeMillisecond;
export const timeSecond = timeInterval((d) => d.setTime(d - d.getMilliseconds()), (d, s) => d.setTime(+d + s * 1e3), (a, b) => (b - a) / 1e3, (d) => d.getUTCSeconds());
export const utcSecond = timeSecond;
export const timeMinute = timeInterval((d) => d.setTime(d - d.getMilliseconds() - d.getSeconds() * 1e3), (d, s) => d.setTime(+d + s * 6e4), (a, b) => (b - a) / 6e4, (d) => d.getMinutes());
export const utcMinute = timeInterval((d) => d.setUTCSeconds(0, 0), (d, s) => d.setTime(+d + s * 6e4), (a, b) => (b - a) / 6e4, (d) => d.getUTCMinutes());
export const timeHour = timeInterval((d) => d.setTime(d - d.getMilliseconds() - d.getSeconds() * 1e3 - d.getMinutes() * 6e4), (d, s) => d.setTime(+d + s * 36e5), (a, b) => (b - a) / 36e5, (d) => d.getHours());
export const utcHour = timeInterval((d) => d.setUTCMinutes(0, 0, 0), (d, s) => d.setTime(+d + s * 36e5), (a, b) => (b - a) / 36e5, (d) => d.getUTCHours());
export const timeDay = timeInterval((d) => d.setHours(0, 0, 0, 0), (d, s) => d.setDate(d.getDate() + s), (a, b) => (b - a - tz(a, b)) / DAY, (d) => d.getDate() - 1);
export const utcDay = timeInterval((d) => d.setUTCHours(0, 0, 0, 0), (d, s) => d.setUTCDate(d.getUTCDate() + s), (a, b) => (b - a) / DAY, (d) => d.getUTCDate() - 1);
export const unixDay = timeInterval((d) => d.setUTCHours(0, 0, 0, 0), (d, s) => d.setUTCDate(d.getUTCDate() + s), (a, b) => (b - a) / DAY, (d) => Math.floor(d / DAY));
const weekday = (i) => timeInterval((d) => { d.setDate(d.getDate() - ((d.getDay() + 7 - i) % 7)); d.setHours(0, 0, 0, 0); }, (d, s) => d.setDate(d.getDate() + s * 7), (a, b) => (b - a - tz(a, b)) / WEEK);
const utcWeekday = (i) => timeInterval((d) => { d.setUTCDate(d.getUTCDate() - ((d.getUTCDay() + 7 - i) % 7)); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCDate(d.getUTCDate() + s * 7), (a, b) => (b - a) / WEEK);
export const timeSunday = weekday(0), timeMonday = weekday(1), timeTuesday = weekday(2), timeWednesday = weekday(3), timeThursday = weekday(4), timeFriday = weekday(5), timeSaturday = weekday(6), timeWeek = timeSunday;
export const utcSunday = utcWeekday(0), utcMonday = utcWeekday(1), utcTuesday = utcWeekday(2), utcWednesday = utcWeekday(3), utcThursday = utcWeekday(4), utcFriday = utcWeekday(5), utcSaturday = utcWeekday(6), utcWeek = utcSunday;
export const timeMonth = timeInterval((d) => { d.setDate(1); d.setHours(0, 0, 0, 0); }, (d, s) => d.setMonth(d.getMonth() + s),
  (a, b) => b.getMonth() - a.getMonth() + (b.getFullYear() - a.getFullYear()) * 12, (d) => d.getMonth());
export const utcMonth = timeInterval((d) => { d.setUTCDate(1); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCMonth(d.getUTCMonth() + s),
  (a, b) => b.getUTCMonth() - a.getUTCMonth() + (b.getUTCFullYear() - a.getUTCFullYear()) * 12, (d) => d.getUTCMonth());
export const timeYear = timeInterval((d) => { d.setMonth(0, 1); d.setHours(0, 0, 0, 0); }, (d, s) => d.setFullYear(d.getFullYear() + s), (a, b) => b.getFullYear() - a.getFullYear(), (d) => d.getFullYear());
export const utcYear = timeInterval((d) => { d.setUTCMonth(0, 1); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCFullYear(d.getUTCFullYear() + s), (a, b) => b.getUTCFullYear() - a.getUTCFullYear(), (d) => d.getUTCFullYear());
timeYear.every = (k) => (!isFinite((k = Math.floor(k))) || !(k > 0) ? null : timeInterval((d) => { d.setFullYear(Math.floor(d.getFullYear() / k) * k); d.setMonth(0, 1); d.setHours(0, 0, 0, 0); }, (d, s) => d.setFullYear(d.getFullYear() + s * k)));
utcYear.every = (k) => (!isFinite((k = Math.floor(k))) || !(k > 0) ? null : timeInterval((d) => { d.setUTCFullYear(Math.floor(d.getUTCFullYear() / k) * k); d.setUTCMonth(0, 1); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCFullYear(d.getUTCFullYear() + s * k)));
for (const [n, i] of Object.entries({ timeSecond, timeMinute, timeHour, timeDay, timeWeek, timeMonth, timeYear })) void n, i;
const rangeOf = (i) => (a, b, s) => i.range(a, b, s);
export const timeDays = rangeOf(timeDay), timeWeeks = rangeOf(timeWeek), timeMonths = rangeOf(timeMonth), timeYears = rangeOf(timeYear);
export const utcDays = rangeOf(utcDay), utcWeeks = rangeOf(utcWeek), utcMonths = rangeOf(utcMonth), utcYears = rangeOf(utcYear);

// ---- d3-time-format
const pad = (n, w = 2) => String(n).padStart(w, "0");
const format = (g) => (spec) => (d) => spec.replace(/%[-_0]?([YmdjHMSLyBbAaeqZsQ%])/g, (m, c) => {
  switch (c) {
    case "Y": return pad(g(d, "FullYear"), 4); case "y": return pad(g(d, "FullYear") % 100); case "m": return pad(g(d, "Month") + 1);
    case "d": return pad(g(d, "Date")); case "e": return String(g(d, "Date")).padStart(2); case "H": return pad(g(d, "Hours")); case "M": return pad(g(d, "Minutes"));
    case "S": return pad(g(d, "Seconds")); case "L": return pad(g(d, "Milliseconds"), 3); case "q": return String(1 + Math.floor(g(d, "Month") / 3));
    case "B": case "b": { const s = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"][g(d, "Month")]; return c == "B" ? s : s.slice(0, 3); }
    case "A": case "a": { const s = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"][g(d, "Day")]; return c == "A" ? s : s.slice(0, 3); }
    case "Q": return String(+d); case "s": return String(Math.floor(+d / 1e3));
  }
  return c == "%" ? "%" : m;
});
export const timeFormat = format((d, f) => d["get" + f]()), utcFormat = format((d, f) => d["getUTC" + f]());
export const isoFormat = (d) => d.toISOString();

// ---- d3-scale
function continuous(domain, range) {
  let dom = domain, rng = range, clamp = false, unknown;
  const num = (x) => +x;
  const scale = (x) => {
    if (x == null || isNaN((x = num(x)))) return unknown;
    const d = dom.map(num);
    if (clamp) x = Math.max(Math.min(d[0], d[d.length - 1]), Math.min(Math.max(d[0], d[d.length - 1]), x));
    let i = 1;
    const up = d[d.length - 1] >= d[0];
    while (i < Math.min(d.length, rng.length) - 1 && (up ? x > d[i] : x < d[i])) i++;
    const a = d[i - 1], b = d[i], t = b - a ? (x - a) / (b - a) : isNaN(b) ? NaN : 0.5;
    return typeof rng[i] == "number" ? rng[i - 1] * (1 - t) + rng[i] * t : t < 0.5 ? rng[i - 1] : rng[i];
  };
  scale.domain = (d) => (d === undefined ? dom.slice() : ((dom = Array.from(d)), scale));
  scale.range = (r) => (r === undefined ? rng.slice() : ((rng = Array.from(r)), scale));
  scale.rangeRound = (r) => scale.range(r);
  scale.clamp = (c) => (c === undefined ? clamp : ((clamp = !!c), scale));
  scale.unknown = (u) => (u === undefined ? unknown : ((unknown = u), scale));
  scale.interpolate = () => scale;
  scale.invert = (y) => { const d = dom.map(num), t = rng[1] - rng[0] ? (y - rng[0]) / (rng[1] - rng[0]) : 0.5; return d[0] + t * (d[1] - d[0]); };
  scale.ticks = (n = 10) => ticks(+dom[0], +dom[dom.length - 1], n);
  scale.tickFormat = () => String;
  scale.nice = (n = 10) => {
    let [a, b] = [+dom[0], +dom[dom.length - 1]];
    if (isFinite(a) && isFinite(b) && a != b) { const s = Math.abs(tickStep(a, b, n)); dom = [Math.floor(a / s) * s, ...dom.slice(1, -1), Math.ceil(b / s) * s]; }
    return scale;
  };
  scale.copy = () => continuous(dom, rng).clamp(clamp);
  return scale;
}
const args = (f, d0) => (a, b) => (b === undefined ? f(d0, a ?? [0, 1]) : f(a, b));
export const scaleLinear = args(continuous, [0, 1]);
export const scalePow = scaleLinear, scaleSqrt = scaleLinear, scaleSymlog = scaleLinear, scaleLog = scaleLinear;
function temporal(d, r) {
  const s = continuous(d, r), inv = s.invert, nice = s;
  s.invert = (y) => new Date(inv(y));
  s.domain = ((f) => (x) => (x === undefined ? f().map((t) => new Date(+t)) : f(x)))(s.domain);
  s.ticks = (i) => (i && i.range ? i.range(s.domain()[0], new Date(+s.domain()[1] + 1)) : []);
  s.nice = () => nice;
  return s;
}
export const scaleTime = args(temporal, [new Date(2000, 0, 1), new Date(2000, 0, 2)]);
export const scaleUtc = args(temporal, [new Date(Date.UTC(2000, 0, 1)), new Date(Date.UTC(2000, 0, 2))]);
export function scaleOrdinal(domain, range) {
  if (range === undefined) { range = domain; domain = []; }
  const keys = new Map();
  let dom = [], rng = Array.from(range ?? []);
  const key = (d) => (d instanceof Date ? +d : d);
  const scale = (d) => {
    if (!keys.has(key(d))) keys.set(key(d), dom.push(d) - 1);
    return rng.length ? rng[keys.get(key(d)) % rng.length] : undefined;
  };
  scale.domain = (d) => { if (d === undefined) return dom.slice(); dom = []; keys.clear(); for (const v of d) if (!keys.has(key(v))) keys.set(key(v), dom.push(v) - 1); return scale; };
  scale.range = (r) => (r === undefined ? rng.slice() : ((rng = Array.from(r)), scale));
  scale.unknown = () => scale;
  scale.copy = () => scaleOrdinal(dom, rng);
  return scale.domain(domain ?? []);
}
export function scaleBand(domain, range) {
  if (range === undefined) { range = domain ?? [0, 1]; domain = []; }
  let dom = Array.from(domain), rng = Array.from(range);
  const step = () => (rng[1] - rng[0]) / Math.max(1, dom.length), at = (d) => dom.findIndex((x) => +x === +d || x === d);
  const scale = (d) => { const i = at(d); return i < 0 ? undefined : rng[0] + i * step(); };
  scale.bandwidth = scale.step = step;
  scale.domain = (d) => (d === undefined ? dom.slice() : ((dom = Array.from(d)), scale));
  scale.range = scale.rangeRound = (r) => (r === undefined ? rng.slice() : ((rng = Array.from(r)), scale));
  scale.padding = scale.paddingInner = scale.paddingOuter = scale.align = scale.round = () => scale;
  scale.copy = () => scaleBand(dom, rng);
  return scale;
}
export const scalePoint = scaleBand;
export function scaleSequential(domain, interpolator) {
  if (interpolator === undefined) { interpolator = typeof domain == "function" ? domain : (t) => t; domain = [0, 1]; }
  let dom = domain, f = interpolator;
  const scale = (x) => f(dom[1] - dom[0] ? (x - dom[0]) / (dom[1] - dom[0]) : 0);
  scale.domain = (d) => (d === undefined ? dom.slice() : ((dom = Array.from(d)), scale));
  scale.interpolator = (i) => (i === undefined ? f : ((f = i), scale));
  scale.clamp = () => scale;
  scale.copy = () => scaleSequential(dom, f);
  return scale;
}
export const scaleQuantize = scaleSequential, scaleDiverging = scaleSequential;

// ---- d3-scale-chromatic
const colors = (n) => Array.from({ length: n }, (_, i) => `#${pad((i * 123457).toString(16), 6)}`);
export const schemeCategory10 = colors(10), schemeAccent = colors(8), schemeDark2 = colors(8), schemePaired = colors(12), schemePastel1 = colors(9), schemePastel2 = colors(8),
  schemeSet1 = colors(9), schemeSet2 = colors(8), schemeSet3 = colors(12), schemeTableau10 = colors(10), schemeObservable10 = colors(10);
const interpolate = (t) => `rgb(${Math.round(255 * (1 - t))}, ${Math.round(255 * (1 - t))}, 255)`;
export const interpolateBlues = interpolate, interpolateGreens = interpolate, interpolateGreys = interpolate, interpolateOranges = interpolate, interpolatePurples = interpolate,
  interpolateReds = interpolate, interpolateBuGn = interpolate, interpolateViridis = interpolate, interpolateTurbo = interpolate, interpolateRainbow = interpolate, interpolateSpectral = interpolate;

// ---- d3-axis: nothing that is checked is on an axis
function axis(scale) {
  const a = () => {};
  for (const m of ["scale", "ticks", "tickArguments", "tickValues", "tickFormat", "tickSize", "tickSizeInner", "tickSizeOuter", "tickPadding", "offset"]) a[m] = () => a;
  return a;
}
export const axisTop = axis, axisLeft = axis, axisBottom = axis, axisRight = axis;

// ---- d3-shape: stacks
export function stack() {
  let ks = () => [], val = (d, k) => d[k];
  const s = (data) => ks(data).map((key, i, all) => Object.assign(Array.from(data, (d, j) => {
    let lo = 0;
    for (let n = 0; n < i; n++) lo += +val(d, all[n], j, data);
    return Object.assign([lo, lo + +val(d, key, j, data)], { data: d });
  }), { key, index: i }));
  s.keys = (k) => ((ks = typeof k == "function" ? k : () => Array.from(k)), s);
  s.value = (v) => ((val = fn(v)), s);
  s.order = s.offset = () => s;
  return s;
}

// ---- d3-hierarchy
export class HierarchyNode {
  constructor(data) { this.data = data; this.depth = this.height = 0; this.parent = null; }
  *[Symbol.iterator]() { let q = [this]; while (q.length) { const next = []; for (const n of q) { yield n; if (n.children) next.push(...n.children); } q = next; } }
  each(f, that) { let i = -1; for (const n of this) f.call(that, n, ++i, this); return this; }
  eachBefore(f) { f(this); for (const c of this.children ?? []) c.eachBefore(f); return this; }
  eachAfter(f) { for (const c of this.children ?? []) c.eachAfter(f); f(this); return this; }
  find(f) { for (const n of this) if (f(n)) return n; return undefined; }
  sum(value) { return this.eachAfter((n) => { let s = +value(n.data) || 0; for (const c of n.children ?? []) s += c.value; n.value = s; }); }
  count() { return this.eachAfter((n) => { n.value = n.children ? sum(n.children, (c) => c.value) : 1; }); }
  sort(compare) { return this.eachBefore((n) => { if (n.children) n.children.sort(compare); }); }
  descendants() { return Array.from(this); }
  leaves() { return this.descendants().filter((n) => !n.children); }
  ancestors() { const r = []; for (let n = this; n; n = n.parent) r.push(n); return r; }
  path(end) { return [...this.ancestors(), ...end.ancestors().reverse()]; }
  links() { return this.descendants().filter((n) => n.parent).map((n) => ({ source: n.parent, target: n })); }
  copy() { return hierarchy(this, (n) => n.children).each((n) => { n.data = n.data.data; }); }
}
function heights(root) { root.eachBefore((n) => { n.depth = n.parent ? n.parent.depth + 1 : 0; }); return root.eachAfter((n) => { n.height = n.children ? 1 + max(n.children, (c) => c.height) : 0; }); }
export function hierarchy(data, children = (d) => d.children) {
  const make = (d, parent) => {
    const n = new HierarchyNode(d);
    n.parent = parent;
    const cs = Array.from(children(d) ?? []);
    if (cs.length) n.children = cs.map((c) => make(c, n));
    return n;
  };
  return heights(make(data, null));
}
export function stratify() {
  let id = (d) => d.id, parentId = (d) => d.parentId;
  const s = (data) => {
    const nodes = Array.from(data, (d) => new HierarchyNode(d)), by = new Map();
    let top;
    nodes.forEach((n, i) => {
      const k = id(n.data, i, data);
      if (k != null && k !== "") { n.id = String(k); by.set(n.id, by.has(n.id) ? null : n); }
    });
    nodes.forEach((n, i) => {
      const k = parentId(n.data, i, data);
      if (k == null || k === "") { if (top) throw new Error("multiple roots"); top = n; return; }
      const p = by.get(String(k));
      if (p === undefined) throw new Error("missing: " + k);
      if (p === null) throw new Error("ambiguous: " + k);
      p.children ? p.children.push(n) : (p.children = [n]);
      n.parent = p;
    });
    if (!top) throw new Error("no root");
    heights(top);
    if (top.descendants().length < nodes.length) throw new Error("cycle");
    return top;
  };
  s.id = (f) => (f === undefined ? id : ((id = f), s));
  s.parentId = (f) => (f === undefined ? parentId : ((parentId = f), s));
  return s;
}
function layout() {
  let w = 1, h = 1;
  const tm = (root) => {
    root.x0 = root.y0 = 0; root.x1 = w; root.y1 = h;
    root.eachBefore((n) => {
      let x = n.x0, total = n.value || 1;
      for (const c of n.children ?? []) { c.x0 = x; c.x1 = x += ((n.x1 - n.x0) * c.value) / total; c.y0 = n.y0 + 20; c.y1 = Math.max(c.y0, n.y1); c.x = c.x0; c.y = c.y0; c.r = 1; }
    });
    return root;
  };
  for (const m of ["tile", "round", "padding", "paddingInner", "paddingOuter", "paddingTop", "paddingRight", "paddingBottom", "paddingLeft", "nodeSize", "separation", "radius"]) tm[m] = () => tm;
  tm.size = (s) => (s === undefined ? [w, h] : (([w, h] = s), tm));
  return tm;
}
export const treemap = layout, partition = layout, pack = layout, tree = layout, cluster = layout;
export const treemapSquarify = () => {}, treemapBinary = () => {}, treemapDice = () => {}, treemapSlice = () => {}, treemapSliceDice = () => {}, treemapResquarify = () => {};
