// Explores the live editor of the site: the unchanged scripts and document run in a page of our own.
//   node --experimental-vm-modules explore.mjs DIR WORKER WORKERS TIER OUT
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { pathToFileURL } from "node:url";
import { FakeEvent, Page, Storage, scan } from "./dom.mjs";

const [dir, workerArg, workersArg, tier, outPath] = process.argv.slice(2);
const worker = Number(workerArg), workers = Number(workersArg), thorough = tier === "thorough";

// ---------------------------------------------------------------------------------------------- the library
const library = fs.readFileSync(path.join(dir, "ulight.wasm"));
const trampoline = fs.readFileSync(path.join(dir, "f_i32_i32_i32_to_void.wasm"));
globalThis.fetch = async uri => new Response(new Uint8Array(path.basename(String(uri)) === "ulight.wasm" ? library : trampoline), { headers: { "content-type": "application/wasm" } });
const instantiate = WebAssembly.instantiate.bind(WebAssembly);
WebAssembly.instantiateStreaming = async (response, imports) => {
    const env = { ...imports?.env };
    const module = await WebAssembly.compile(new Uint8Array(await (await response).arrayBuffer()));
    for (const i of WebAssembly.Module.imports(module))
        if (i.module === "env" && i.kind === "function" && !(i.name in env)) env[i.name] = () => { throw new Error(`call of ${i.name}`); };
    return { module, instance: await instantiate(module, { ...imports, env }) };
};
const realError = console.error;
console.error = console.warn = console.log = () => { };
const wrapper = await import(pathToFileURL(path.join(dir, "ulight.mjs")).href);
const wasm = await wrapper.loadWasm();
const languages = wasm.getLanguageList();

// ---------------------------------------------------------------------------------------------- the page
const www = JSON.parse(fs.readFileSync(path.join(dir, "www.json"), "utf8"));
const tags = scan(www["index.html"]);
const scripts = tags.filter(t => t.tag === "script");

const setGlobals = page => {
    const g = { document: page.document, window: page.window, localStorage: page.storage, InputEvent: FakeEvent, Event: FakeEvent, CustomEvent: FakeEvent, KeyboardEvent: FakeEvent,
        matchMedia: page.window.matchMedia, requestAnimationFrame: f => (f(0), 1), cancelAnimationFrame() { }, addEventListener: page.window.addEventListener.bind(page.window) };
    for (const [n, v] of Object.entries(g)) Object.defineProperty(globalThis, n, { value: v, configurable: true, writable: true });
};
const cached = {};
async function runModules(page, names) {
    const modules = page.modules ??= new Map();
    const make = name => {
        if (modules.has(name)) return modules.get(name);
        let m;
        if (name === "js/ulight.js") {
            const exports = Object.keys(wrapper);
            m = new vm.SyntheticModule(exports, function () {
                for (const n of exports) this.setExport(n, n === "loadWasm" ? async () => wasm : wrapper[n]);
            }, { identifier: name });
        } else {
            if (www[name] === undefined) throw new Error(`no script ${name}`);
            m = new vm.SourceTextModule(www[name], { identifier: name, cachedData: cached[name] });
            cached[name] ??= m.createCachedData();
        }
        modules.set(name, m);
        return m;
    };
    for (const name of names) {
        const m = make(name);
        if (m.status === "unlinked") await m.link((s, from) => make(path.posix.join(path.posix.dirname(from.identifier), s)));
        await m.evaluate();
    }
}
/** Loads the page. A script that may run at any time runs as early or as late as possible. */
async function load(storage, scheme, early = false) {
    const page = new Page(storage, scheme);
    setGlobals(page);
    const later = [];
    for (const t of tags) {
        page.parse(t);
        if (t.tag !== "script") continue;
        const kind = t.attrs.type ?? "";
        try {
            if (kind === "module" && (t.attrs.async === undefined || !early)) later.push(t);
            else if (kind === "module") await runModules(page, [t.attrs.src]);
            else if (t.attrs.src === undefined) vm.runInThisContext(t.code);
            else if (t.attrs.defer !== undefined || (t.attrs.async !== undefined && !early)) later.push(t);
            else vm.runInThisContext(www[t.attrs.src]);
        } catch (e) { page.errors.push(e); }
        if (page.firstTheme === undefined) page.firstTheme = page.document.documentElement.getAttribute("data-ulight-theme");
    }
    page.document.readyState = "interactive";
    const modules = later.filter(t => t.attrs.type === "module");
    try {
        for (const t of later) if (t.attrs.type !== "module") vm.runInThisContext(www[t.attrs.src]);
        await runModules(page, modules.map(t => t.attrs.src));
    } catch (e) { page.errors.push(e); }
    page.document.readyState = "complete";
    page.document.dispatchEvent(new FakeEvent("DOMContentLoaded", { bubbles: true }));
    page.window.dispatchEvent(new FakeEvent("load"));
    for (const n of ["code-input", "code-highlight", "output", "language-id", "theme-picker", "container", "separator", "input-line-numbers", "output-line-numbers",
        "button-split-vertical", "button-split-horizontal", "code-input-container", "output-container"])
        page[n] = page.document.getElementById(n);
    return page;
}

// ---------------------------------------------------------------------------------------------- the user
function input(page) { page["code-input"].dispatchEvent(new FakeEvent("input", { bubbles: true })); }
function insert(page, text) {
    const c = page["code-input"], v = c.value, s = c.selectionStart, e = c.selectionEnd;
    c.value = v.slice(0, s) + text + v.slice(e);
    c.setSelectionRange(s + text.length, s + text.length);
    input(page);
}
/** Presses a key; what the browser does by itself happens unless the page prevents it. */
function press(page, key, shiftKey = false) {
    const e = new FakeEvent("keydown", { key, code: key, shiftKey, ctrlKey: false, altKey: false, metaKey: false, isComposing: false, bubbles: true, cancelable: true });
    const allowed = page["code-input"].dispatchEvent(e);
    if (!allowed) return;
    if (key === "Enter") insert(page, "\n");
    else if (key.length === 1) insert(page, key);
    else if (key === "Backspace") {
        const c = page["code-input"];
        if (c.selectionStart === c.selectionEnd && c.selectionStart > 0 && c.selectionStart < c.value.length + 1) c.setSelectionRange(c.selectionStart - 1, c.selectionEnd);
        insert(page, "");
    }
}
function choose(select, value) {
    if (select.value === String(value)) return;
    select.value = value;
    select.dispatchEvent(new FakeEvent("input", { bubbles: true }));
    select.dispatchEvent(new FakeEvent("change", { bubbles: true }));
}
function mouse(page, target, type, x, y) { return target.dispatchEvent(new FakeEvent(type, { clientX: x, clientY: y, button: 0, buttons: 1, bubbles: true, cancelable: true })); }

// ---------------------------------------------------------------------------------------------- what should be
/** The state of an editor: text, selection, language, theme, orientation and fraction. */
const fresh = () => ({ text: "", start: 0, end: 0, lang: 1, theme: "default", vertical: false, fraction: null, scheme: "light" });

/** The states that the key may lead to. */
function afterKey(s, key, shift) {
    const lineStart = s.text.lastIndexOf("\n", s.start - 1) + 1, from = s.start === 0 ? 0 : lineStart;
    const lineEnd = s.text.indexOf("\n", s.start) < 0 ? s.text.length : s.text.indexOf("\n", s.start);
    const replaced = t => ({ ...s, text: s.text.slice(0, s.start) + t + s.text.slice(s.end), start: s.start + t.length, end: s.start + t.length });
    if (key === "Tab" && !shift)
        return [{ ...s, text: s.text.slice(0, from) + "    " + s.text.slice(from), start: s.start + 4, end: s.end + 4 }];
    if (key === "Tab") {
        let n = 0;
        while (n < 4 && s.text[from + n] === " ") ++n;
        return [{ ...s, text: s.text.slice(0, from) + s.text.slice(from + n), start: Math.max(from, s.start - n), end: Math.max(from, s.end - n) }];
    }
    if (key === "Enter") {
        if (shift || s.start !== s.end) return [replaced("\n")];
        let e = from;
        while (e < lineEnd && " \t".includes(s.text[e])) ++e;
        const before = s.text.slice(from, s.start).replace(/[ \t\r]+$/, "");
        const extra = before.endsWith("{") ? "    " : "";
        // In the indentation itself, that before the cursor may be all that counts.
        return [...new Set([e, Math.min(e, s.start)])].map(k => replaced("\n" + s.text.slice(from, k) + extra));
    }
    if (key === "Backspace") return s.start === s.end && s.start > 0 ? [{ ...replaced(""), text: s.text.slice(0, s.start - 1) + s.text.slice(s.end), start: s.start - 1, end: s.start - 1 }] : [replaced("")];
    return [replaced(key)];
}

const result = { evaluations: 0, nontrivial: 0, transitions: 0, states: 0, families: {}, samples: [], violations: [] };
const perKind = {};
let label = "", lastSample = 0;
function fail(kind, detail) {
    perKind[kind] = (perKind[kind] ?? 0) + 1;
    if (perKind[kind] > 4) return;
    result.violations.push({ kind, text: label.slice(0, 300), detail: String(detail).slice(0, 600) });
}
let counter = 0;
function begin(family, text) {
    if (counter++ % workers !== worker) return false;
    label = text;
    ++result.evaluations;
    result.families[family] = (result.families[family] ?? 0) + 1;
    if (result.samples.length < 4 && result.evaluations >= lastSample * 4) {
        result.samples.push(label.slice(0, 160));
        lastSample = result.evaluations;
    }
    return true;
}
const show = s => JSON.stringify(s).slice(0, 200);
const lines = s => Array.from({ length: s.split("\n").length }, (_, k) => k + 1).join("\n");
const htmlCache = new Map();
function html(text, lang) {
    const key = `${lang}/${text}`;
    let r = htmlCache.get(key);
    if (r === undefined) {
        if (htmlCache.size > 50000) htmlCache.clear();
        htmlCache.set(key, r = wasm.toHtml(text, lang));
    }
    return r;
}

/** Compares what the page shows of the text with what the state says. */
function compareText(page, s) {
    const c = page["code-input"];
    if (c.value !== s.text) { fail("text", `the text is ${show(c.value)} instead of ${show(s.text)}`); return false; }
    if (page["code-highlight"].textContent !== s.text) { fail("view", `the text ${show(s.text)} is shown as ${show(page["code-highlight"].textContent)}`); return false; }
    if (page["input-line-numbers"].textContent !== lines(s.text)) { fail("lines", `the lines of ${show(s.text)} are numbered ${show(page["input-line-numbers"].textContent)}`); return false; }
    const h = html(s.text, s.lang), hh = html(h, "html");
    if (page["code-highlight"].innerHTML !== h) { fail("highlight", `${show(s.text)} is highlighted as ${show(page["code-highlight"].innerHTML)} instead of ${show(h)}`); return false; }
    if (page["output"].innerHTML !== hh) { fail("output", `the output of ${show(s.text)} is ${show(page["output"].innerHTML)} instead of ${show(hh)}`); return false; }
    if (page["output-line-numbers"].textContent !== lines(h)) { fail("lines", `the lines of the output ${show(h)} are numbered ${show(page["output-line-numbers"].textContent)}`); return false; }
    return true;
}
function compareSelection(page, s) {
    const c = page["code-input"];
    if (c.selectionStart !== s.start || c.selectionEnd !== s.end) { fail("selection", `${c.selectionStart} to ${c.selectionEnd} of ${show(s.text)} is selected instead of ${s.start} to ${s.end}`); return false; }
    return true;
}
function compareRest(page, s) {
    if (page["language-id"].value !== String(s.lang)) { fail("language", `the chosen language is ${page["language-id"].value} instead of ${s.lang}`); return false; }
    if (page["theme-picker"].value !== s.theme) { fail("theme", `the chosen theme is ${page["theme-picker"].value} instead of ${s.theme}`); return false; }
    const theme = s.theme === "default" ? `${s.scheme}-ulight` : s.theme;
    for (const [n, x] of [["document", page.document.documentElement], ["input", page["code-input-container"]], ["output", page["output-container"]]])
        if (x.getAttribute("data-ulight-theme") !== theme) { fail("theme", `the theme of the ${n} is ${x.getAttribute("data-ulight-theme")} instead of ${theme}`); return false; }
    if (page.document.body.classList.contains("vertical") !== s.vertical) { fail("orientation", `the split is ${s.vertical ? "not " : ""}vertical`); return false; }
    const want = s.fraction === null ? null : s.fraction;
    const style = page["container"].style, [own, other] = s.vertical ? [style.gridTemplateRows, style.gridTemplateColumns] : [style.gridTemplateColumns, style.gridTemplateRows];
    const m = /^([\d.e-]+)fr var\(--separator-width\) ([\d.e-]+)fr$/.exec(own);
    const ok = want === null ? own === "" : m && Math.abs(Number(m[1]) - want) < 1e-9 && Math.abs(Number(m[2]) - (1 - want)) < 1e-9;
    if (!ok || other !== "") { fail("split", `the parts are ${show(own)} and ${show(other)} with the fraction ${want}, ${s.vertical ? "vertical" : "horizontal"}`); return false; }
    if (page["document"].body.classList.contains("while-dragging")) { fail("drag", "the mark of dragging stays"); return false; }
    return true;
}
function compareErrors(page) {
    const e = page.errors[0];
    if (e) { fail("error", `${e.message} ${e.stack?.split("\n")[1] ?? ""}`); return false; }
    return true;
}
const compare = (page, s) => compareErrors(page) && compareText(page, s) && compareRest(page, s);
/** After loading, the document has its theme before anything is drawn. */
function compareLoaded(page, s) {
    const theme = s.theme === "default" ? `${s.scheme}-ulight` : s.theme;
    if (page.firstTheme !== theme) { fail("first-theme", `the theme is ${page.firstTheme} instead of ${theme} at first`); return false; }
    return compare(page, s);
}

// ---------------------------------------------------------------------------------------------- the space
function* strings(symbols, max) {
    yield "";
    let level = [""];
    for (let n = 1; n <= max; ++n) {
        const next = [];
        for (const p of level) for (const c of symbols) { next.push(p + c); yield p + c; }
        level = next;
    }
}

// 1. Every text, selection and key.
{
    const storage = new Storage();
    const page = await load(storage, "light");
    const c = page["code-input"];
    if (!c || page.errors.length) begin("keys", "loading"), fail("error", String(page.errors[0]?.stack));
    const keys = [["Tab", false], ["Tab", true], ["Enter", false], ["Enter", true], ["a", false], ["Backspace", false]];
    const run = (family, text, start, end, seq) => {
        if (!begin(family, `${show(text)} ${start} to ${end}: ${seq.map(k => (k[1] ? "Shift+" : "") + k[0]).join(" ")}`)) return;
        c.value = text;
        c.setSelectionRange(start, end);
        let states = [{ ...fresh(), text, start, end }];
        let changed = false;
        for (const [key, shift] of seq) {
            const before = c.value;
            press(page, key, shift);
            changed ||= c.value !== before;
            const next = states.flatMap(s => afterKey(s, key, shift));
            const exact = next.filter(s => s.text === c.value);
            ++result.transitions;
            if (!exact.length) { fail("text", `the text is ${show(c.value)} instead of ${next.map(s => show(s.text)).join(" or ")}`); return; }
            states = exact;
            if (!compareSelection(page, exact.length === 1 ? exact[0] : exact.find(s => s.start === c.selectionStart && s.end === c.selectionEnd) ?? exact[0])) return;
        }
        ++result.nontrivial;
        if (page.errors.length) { fail("error", `${page.errors[0].stack?.slice(0, 300)}`); page.errors.length = 0; return; }
        if (!changed) return;
        if (!compareText(page, states[0])) return;
        if (storage.getItem("editorContents") !== c.value) fail("stored", `${show(storage.getItem("editorContents"))} is stored for ${show(c.value)}`);
    };
    const within = (text, k) => /[\ud800-\udbff]/.test(text[k - 1] ?? "") && /[\udc00-\udfff]/.test(text[k] ?? "");
    const each = (text, f) => { for (let s = 0; s <= text.length; ++s) for (let e = s; e <= text.length; ++e) if (!within(text, s) && !within(text, e)) f(s, e); };
    if (c && !page.errors.length) {
        for (const text of strings([" ", "x", "\n", "{", "\t"], thorough ? 6 : 5)) each(text, (s, e) => { for (const k of keys) run("keys", text, s, e, [k]); });
        for (const text of strings(["  ", "x", "\n", "{"], thorough ? 3 : 2)) each(text, (s, e) => { for (const a of keys) for (const b of keys) for (const d of thorough ? keys : keys.slice(0, 3)) run("key sequences", text, s, e, [a, b, d]); });
        for (const text of strings(["    ", "  ", "x\n", "{ ", "\n", "}"], thorough ? 4 : 3)) for (let s = 0; s <= text.length; ++s) for (const k of keys.slice(0, 3)) run("keys in indented code", text, s, s, [k]);
        for (const text of ["<", "&amp;", "\u00e9\u20ac\ud83d\ude00", "a\u00a0b", "\"'", "\n\n\n", " \n", "</pre>", "x".repeat(3000), "x\n".repeat(2000)]) each(text.slice(0, 8), (s, e) => { for (const k of text.charCodeAt(s - 1) >= 0xdc00 ? keys.slice(0, 5) : keys) run("other texts", text, s, e, [k]); });
    }
}

// 2. Every session of a few actions, and what is left of it after loading the page again.
const box = { left: 100, top: 50, width: 800, height: 400 };
const clamp = f => Math.min(Math.max(f, 0.1), 0.9);
const some = [languages.find(l => l.name === "cpp" || l.name === "c++")?.id ?? 2, 10, languages.at(-1).id];
const themes = [];
{
    let on = false;
    for (const t of tags) {
        if (t.tag === "select") on = t.attrs.id === "theme-picker";
        if (on && t.tag === "option") themes.push(t.attrs.value);
    }
}
const actions = {
    "type x": [p => press(p, "x"), s => ({ ...s, text: s.text.slice(0, s.start) + "x" + s.text.slice(s.end), start: s.start + 1, end: s.start + 1 })],
    "paste": [p => insert(p, "int i; // <b>\n{"), s => ({ ...s, text: s.text.slice(0, s.start) + "int i; // <b>\n{" + s.text.slice(s.end), start: s.start + 15, end: s.start + 15 })],
    "enter": [p => press(p, "Enter"), s => afterKey(s, "Enter", false)[0]],
    "clear": [p => { p["code-input"].value = ""; input(p); }, s => ({ ...s, text: "", start: 0, end: 0 })],
    "vertical": [p => mouse(p, p["button-split-vertical"], "click", 1, 1), s => ({ ...s, vertical: true })],
    "horizontal": [p => mouse(p, p["button-split-horizontal"], "click", 1, 1), s => ({ ...s, vertical: false })],
    "move": [p => { mouse(p, p.document.body, "mousemove", 300, 300); mouse(p, p.document.body, "mouseup", 300, 300); }, s => s],
};
for (const [n, x, y] of [["drag", 300, 330], ["drag far", 5000, 5000], ["drag out", 0, 0]])
    actions[n] = [p => {
        mouse(p, p.separator, "mousedown", 500, 200);
        mouse(p, p.document.body, "mousemove", 400, 210);
        mouse(p, p.document.body, "mousemove", x, y);
        mouse(p, p.document.body, "mouseup", x, y);
        mouse(p, p.document.body, "mousemove", 200, 60);
    }, s => ({ ...s, fraction: clamp(s.vertical ? (y - box.top) / box.height : (x - box.left) / box.width) })];
for (const id of some) actions[`language ${id}`] = [p => choose(p["language-id"], id), s => ({ ...s, lang: id })];
for (const t of ["default", "light-github", "dark-vs-plus"]) actions[`theme ${t}`] = [p => choose(p["theme-picker"], t), s => s.theme === t ? s : ({ ...s, theme: t, resolved: s.scheme })];
const names = Object.keys(actions);
async function session(family, seq, early = false, start = fresh(), storage = new Storage()) {
    if (!begin(family, seq.join(", "))) return;
    ++result.nontrivial;
    let s = start;
    let page = await load(storage, s.scheme, early);
    if (!compareLoaded(page, s)) return;
    for (const a of [...seq, "reload"]) {
        ++result.transitions;
        if (a === "reload" || a === "other scheme") {
            if (a === "other scheme") s = { ...s, scheme: s.scheme === "light" ? "dark" : "light" };
            page = await load(storage, s.scheme, early);
            s = { ...s, start: 0, end: 0 };
            page["code-input"]?.setSelectionRange(0, 0);
            if (!compareLoaded(page, s)) return;
            continue;
        }
        s = actions[a][1](s);
        actions[a][0](page);
        if (!compare(page, s)) return;
    }
}
const withLoads = [...names, "reload", "other scheme"];
for (const early of [false, true]) await session("sessions", [], early);
for (const a of withLoads) for (const early of [false, true]) await session("sessions", [a], early);
for (const a of withLoads) for (const b of withLoads) {
    await session("sessions", [a, b]);
    for (const c of withLoads) {
        await session("sessions", [a, b, c]);
        if (thorough) for (const d of withLoads) await session("sessions", [a, b, c, d]);
    }
}
for (const l of languages) for (const a of ["type x", "paste", "reload"]) {
    actions[`language ${l.id}`] ??= [p => choose(p["language-id"], l.id), s => ({ ...s, lang: l.id })];
    await session("languages", [a, `language ${l.id}`, "type x"]);
    await session("languages", [`language ${l.id}`, "other scheme", a, "language 2"]);
}
for (const t of themes) {
    actions[`theme ${t}`] ??= [p => choose(p["theme-picker"], t), s => ({ ...s, theme: t })];
    for (const b of ["theme default", "theme dark-vs-plus", "reload", "other scheme"]) {
        await session("themes", [`theme ${t}`, b]);
        await session("themes", ["other scheme", `theme ${t}`, b, "reload"]);
        await session("themes", [b, `theme ${t}`, "other scheme"]);
    }
}
// The pages of the picker are those of the style sheet.
if (begin("themes", "style sheet")) for (const t of themes) if (t !== "default" && !www["css/theme.css"].includes(`[data-ulight-theme=${t}]`)) fail("picker", `there is no style for the theme ${t}`);

// 3. Whatever is stored, the page loads, and what is valid is used.
{
    const texts = ["", "x", "\nx", "a\r\nb", "<b>&amp;", "\ud83d\ude00", "{\n    "];
    const stored = { editorFraction: [null, "0.25", "0.9", "0.1"], editorIsVertical: [null, "true", "false"], editorContents: [null, ...texts], languageId: [null, "1", "10", "25"], theme: [null, "default", "dark-wg21"] };
    for (const f of stored.editorFraction) for (const v of stored.editorIsVertical) for (const t of stored.editorContents) for (const l of stored.languageId) for (const th of stored.theme) {
        const storage = new Storage();
        for (const [n, x] of [["editorFraction", f], ["editorIsVertical", v], ["editorContents", t], ["languageId", l], ["theme", th]]) if (x !== null) storage.items.set(n, x);
        const start = { ...fresh(), text: (t ?? "").replace(/\r\n?/g, "\n"), fraction: f === null ? null : Number(f), vertical: v === "true", lang: Number(l ?? 1), theme: th ?? "default" };
        await session("stored", [], false, start, storage);
    }
    for (const l of ["0", "999", "", "abc", "-1", "1.5"]) for (const t of texts) {
        if (!begin("strange languages", `${l} ${show(t)}`)) continue;
        const storage = new Storage();
        storage.items.set("languageId", l);
        storage.items.set("editorContents", t);
        const page = await load(storage, "light"), text = t.replace(/\r\n?/g, "\n");
        if (page.errors.length) { fail("error", page.errors[0].stack?.slice(0, 300)); continue; }
        if (page["code-input"].value !== text || page["code-highlight"].textContent !== text || page["input-line-numbers"].textContent !== lines(text)) fail("view", `${show(text)} is shown as ${show(page["code-highlight"].textContent)}`);
        choose(page["language-id"], 2);
        compareText(page, { ...fresh(), text, lang: 2 });
    }
}

// 4. The storage is full: nothing is kept, but everything works.
for (const a of names) for (const b of names) for (const c of thorough ? names : ["paste"]) {
    if (!begin("full storage", `${a}, ${b}, ${c}`)) continue;
    const storage = new Storage();
    const page = await load(storage, "light");
    storage.failing = true;
    let s = fresh();
    for (const x of [a, b, c]) {
        s = actions[x][1](s);
        actions[x][0](page);
        page.errors.length = 0;
        if (!compare(page, s)) break;
    }
}
fs.writeFileSync(outPath, JSON.stringify(result));
