// node run.js VIEWER.js PAGE.html BODY.html ACTIONS.json: opens the page that coin2html wrote with the viewer's code, acts on it
// as a user would, and prints what it shows after every action, a JSON object per line.
"use strict";
const fs = require("fs"), vm = require("vm"), dom = require("./dom.js");
const [viewer, page, bodyFile, actionsFile] = process.argv.slice(2);
const actions = JSON.parse(fs.readFileSync(actionsFile, "utf8"));
const document = new dom.Document();
const windowListeners = [];
const store = new Map();
Object.assign(globalThis, {
  document, window: globalThis, self: globalThis, Event: dom.Event, CustomEvent: dom.Event, MouseEvent: dom.Event, Node: dom.Node, Element: dom.Element,
  HTMLElement: dom.Element, SVGElement: dom.SVGElement, HTMLInputElement: dom.Input, HTMLSelectElement: dom.Select, HTMLOptionElement: dom.Option,
  addEventListener: (type, f) => windowListeners.push({ type, f }), removeEventListener: () => {}, requestAnimationFrame: (f) => setImmediate(() => f(0)),
  innerWidth: 1200, innerHeight: 900, alert: () => {}, getComputedStyle: (e) => e.style,
  localStorage: { getItem: (k) => store.get(k) ?? null, setItem: (k, v) => store.set(k, String(v)), removeItem: (k) => store.delete(k), clear: () => store.clear() },
  location: { hash: "", search: "", href: "file:///coin.html", pathname: "/coin.html", protocol: "file:" },
});
globalThis.sessionStorage = globalThis.localStorage;
console.log = console.info = console.debug = console.warn = () => {};

const one = (s, from = document) => from.querySelector(s), all = (s, from = document) => from.querySelectorAll(s);
const text = (e) => (e ? e.textContent : null);
function table(e) {
  if (!e) return null;
  return {
    head: all("thead th", e).map(text),
    rows: all("tbody tr", e).map((tr) => all("td", tr).map(text)),
  };
}
const selectState = (e) => (e ? { options: e.options.map(text), selected: e.selectedIndex < 0 ? "" : text(e.options[e.selectedIndex]) } : null);
const value = (e) => (e ? e.value : null), checked = (e) => (e ? e.checked : null);
function dump() {
  const main = one("#main section#view"), details = one("#details"), svg = one("svg", main);
  return {
    heading: all("#main output#account span#name a").map(text), commodity: (text(one("#main output#account span#commodity")) ?? "").trim(),
    roots: selectState(one("#sidebar select#root")), list: all("#sidebar ul#accounts li").map(text), views: selectState(one("#controls select#view")),
    start: value(one("#controls input#start")), end: value(one("#controls input#end")), closed: checked(one("#controls input#closedAccounts")),
    sub: checked(one("#includeSubAccounts")), aggregate: selectState(one("#aggregate")), style: selectState(one("#aggregationStyle")),
    max: value(one("#subAccountMax")), depth: value(one("#balanceDepth")), notes: checked(one("#includeNotes")), location: checked(one("#showLocation")),
    excluded: one("#excludedSubAccounts") ? all("span", one("#excludedSubAccounts")).map((s) => text(s).trim()) : null,
    table: table(one("table", main)), tables: all("table", main).length,
    chart: svg ? { layers: all(".layer", svg).map((g) => all("rect", g).map((r) => text(one("title", r)))), legend: all(".legend text", svg).map(text),
      titles: all("title", svg).map(text),
      bars: all(".layer", svg).map((g) => all("rect", g).map((r) => ["x", "width", "y"].map((a) => Number(r.getAttribute(a))))),
      nodes: all("title", svg).map((t) => ({ title: text(t), texts: all("text tspan", t.parentNode).map(text),
        width: one("rect", t.parentNode) ? Number(one("rect", t.parentNode).getAttribute("width")) : null })) } : null,
    details: details && !details.hidden ? table(one("table", details)) : null,
  };
}
const fire = (e, type) => e.dispatchEvent(new dom.Event(type, { bubbles: true }));
function change(e) { fire(e, "input"); fire(e, "change"); }
function check(e) { if (!e) return null; e.checked = !e.checked; fire(e, "click"); change(e); return String(e.checked); }
function choose(e, n) {
  if (!e || e.options.length == 0) return null;
  const i = n % e.options.length, label = text(e.options[i]);
  e.selectedIndex = i;
  change(e);
  return label;
}
function enter(e, v) { if (!e) return null; e.value = v; change(e); return e.value; }
function click(list, n) {
  if (list.length == 0) return null;
  const e = list[n % list.length], t = text(e);
  fire(e, "click");
  return t;
}
function act(a) {
  const main = one("#main section#view");
  switch (a.op) {
    case "load": return "";
    case "root": return choose(one("#sidebar select#root"), a.n);
    case "li": return click(all("#sidebar ul#accounts li"), a.n);
    case "dbl": {
      const l = all("#sidebar ul#accounts li");
      if (l.length == 0) return null;
      const e = l[a.n % l.length], t = text(e);
      fire(e, "click"); fire(e, "click"); fire(e, "dblclick");
      return t;
    }
    case "head": {
      const l = all("#main output#account span#name a");
      if (l.length == 0) return null;
      const i = a.n % l.length, t = l.slice(0, i + 1).map(text).join(":");
      fire(l[i], "click");
      return t;
    }
    case "view": return choose(one("#controls select#view"), a.n);
    case "start": return enter(one("#controls input#start"), a.v);
    case "end": return enter(one("#controls input#end"), a.v);
    case "closed": return check(one("#controls input#closedAccounts"));
    case "sub": return check(one("#includeSubAccounts"));
    case "aggregate": return choose(one("#aggregate"), a.n);
    case "style": return choose(one("#aggregationStyle"), a.n);
    case "max": return enter(one("#subAccountMax"), a.v);
    case "depth": return enter(one("#balanceDepth"), a.v);
    case "notes": return check(one("#includeNotes"));
    case "location": return check(one("#showLocation"));
    case "exclude": { // the heading of a sub-account's column
      if (!one("#excludedSubAccounts")) return null;
      const ths = one("table", main) ? all("thead th", one("table", main)) : all(".legend text", main);
      return click(ths.filter((t) => text(t).startsWith(":")), a.n);
    }
    case "include": return click(one("#excludedSubAccounts") ? all("span", one("#excludedSubAccounts")) : [], a.n);
    case "cell": {
      if (!one("#aggregationStyle")) return null;
      const tds = all("tbody td", main);
      if (tds.length == 0) return null;
      const td = tds[a.n % tds.length], tr = td.parentNode;
      fire(td, "click");
      return `${tr.parentNode.children.indexOf(tr)} ${tr.children.indexOf(td)}`;
    }
    case "bar": {
      const gs = all(".layer", main), rects = gs.flatMap((g) => all("rect", g));
      if (rects.length == 0) return null;
      const r = rects[a.n % rects.length], g = r.closest(".layer");
      fire(r, "click");
      return `${gs.indexOf(g)} ${all("rect", g).indexOf(r)}`;
    }
    case "node": { // a rectangle of the balances chart
      if (!one("svg", main) || one("#aggregationStyle")) return null;
      const rects = all("rect", main);
      if (rects.length == 0) return null;
      const r = rects[a.n % rects.length], t = text(one("title", r.parentNode));
      fire(a.v == "text" ? one("text", r.parentNode) : r, "click");
      return t;
    }
    case "hide": return one("#details") && !one("#details").hidden ? click(all("a", one("#details")), 0) : null;
  }
  throw new Error("unknown action " + a.op);
}
const settle = () => new Promise((r) => setImmediate(() => setImmediate(r)));
let late = null;
process.on("uncaughtException", (e) => { late ??= e; });
process.on("unhandledRejection", (e) => { late ??= e; });
async function step(a, f) {
  const before = new Set(dom.missing);
  let error = null, target = null, state = null;
  late = null;
  try { target = f(); await settle(); state = dump(); } catch (e) { error = e; }
  error ??= late;
  const inconclusive = error && ((error instanceof TypeError && [...dom.missing].some((m) => error.message.includes(m) || /^Cannot read properties of undefined/.test(error.message) && !before.has(m))) || (error instanceof ReferenceError && /is not defined/.test(error.message)) || /^SyntaxError: unknown selector/.test(error.message));
  fs.writeSync(1, JSON.stringify({ action: a.op, target, error: error ? String(error.stack ?? error).split("\n").slice(0, 4).join(" | ") : null,
    inconclusive: inconclusive ? `${error.message} (after ${[...dom.missing].join(", ")})` : null, state }) + "\n");
  return !error;
}
(async () => {
  dom.parseInto(document.body, fs.readFileSync(page, "utf8"));
  dom.parseInto(document.body, fs.readFileSync(bodyFile, "utf8"));
  const code = fs.readFileSync(viewer, "utf8");
  const ok = await step({ op: "load" }, () => {
    vm.runInThisContext(code, { filename: "viewer.js" });
    document.state = "complete";
    fire(document, "DOMContentLoaded");
    for (const { type, f } of windowListeners) if (type == "DOMContentLoaded" || type == "load") f(new dom.Event(type));
    return "";
  });
  if (ok) for (const a of actions) if (!(await step(a, () => act(a)))) break;
})();
