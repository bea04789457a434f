// Explores the theme compiler: runs the real script on enumerated themes and options, and evaluates the style sheet.
//   node explore.cjs SCRIPT TYPES THEMES SITE_CSS TMP WORKER WORKERS TIER OUT
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const [script, typesPath, themesDir, siteCss, tmp, workerArg, workersArg, tier, outPath] = process.argv.slice(2);
const worker = Number(workerArg), workers = Number(workersArg), thorough = tier === "thorough";
const makeYargs = require("./yargs.cjs");

// ---------------------------------------------------------------------------------------------- the script
class Exit extends Error { }
const source = fs.readFileSync(script, "utf8").replace(/^#!.*/, "");
const compiled = vm.runInThisContext(`(function (require, process, console, module, exports, __filename, __dirname) {${source}\n})`, { filename: script });

/** Runs the script with the arguments; the result has the exit code and the printed texts. */
function run(args) {
    const r = { code: null, out: "", err: "", thrown: "" };
    const fakeProcess = {
        argv: ["node", script, ...args], env: {}, exitCode: undefined, platform: process.platform, cwd: () => tmp,
        exit(code = 0) { r.code ??= code; throw new Exit(`exit ${code}`); },
        stdout: { write(s) { r.out += s; return true; } },
        stderr: { write(s) { r.err += s; return true; } },
        on() { },
    };
    const log = (...a) => { r.err += a.map(String).join(" ") + "\n"; };
    const fakeConsole = { error: log, warn: log, info: log, debug: log, log(...a) { r.out += a.map(String).join(" ") + "\n"; } };
    const yargs = makeYargs(fakeProcess, fakeConsole);
    const fakeRequire = name => {
        const n = name.replace(/^node:/, "");
        if (n === "yargs") return yargs;
        if (n === "yargs/helpers") return { hideBin: a => a.slice(2) };
        if (n === "process") return fakeProcess;
        return require(n);
    };
    const module = { exports: {} };
    try {
        compiled(fakeRequire, fakeProcess, fakeConsole, module, module.exports, script, path.dirname(script));
    } catch (e) {
        if (!(e instanceof Exit)) {
            r.code ??= 1;
            r.thrown = String(e);
        }
    }
    r.code ??= fakeProcess.exitCode ?? 0;
    return r;
}

// ---------------------------------------------------------------------------------------------- style sheets
/** Parses a style sheet into rules { media, selectors, declarations }. Throws if it is malformed. */
function parseCss(text) {
    const rules = [];
    let p = 0;
    const space = () => { while (p < text.length && /\s/.test(text[p])) ++p; };
    const until = stop => {
        const begin = p;
        while (p < text.length && !stop.includes(text[p])) ++p;
        if (p >= text.length) throw new Error(`nothing of "${stop}" after ${JSON.stringify(text.slice(begin, begin + 40))}`);
        return text.slice(begin, p);
    };
    const block = media => {
        for (;;) {
            space();
            if (p >= text.length) {
                if (media !== null) throw new Error("media query without end");
                return;
            }
            if (text[p] === "}") {
                if (media === null) throw new Error(`unexpected } at ${p}`);
                ++p;
                return;
            }
            const prelude = until("{}").trim();
            if (text[p] !== "{") throw new Error(`no block after ${JSON.stringify(prelude)}`);
            ++p;
            if (prelude.startsWith("@")) {
                if (media !== null) throw new Error("nested media query");
                const m = /^@media\s*\(prefers-color-scheme:\s*(light|dark)\)$/.exec(prelude);
                if (!m) throw new Error(`unknown rule ${prelude}`);
                block(m[1]);
                continue;
            }
            const declarations = [];
            for (;;) {
                space();
                if (text[p] === "}") break;
                const name = until(":;}");
                if (text[p] !== ":") throw new Error(`no value of ${JSON.stringify(name)}`);
                ++p;
                const value = until(";}");
                declarations.push([name.trim(), value.trim()]);
                if (text[p] === ";") ++p;
            }
            ++p;
            rules.push({ media, selectors: prelude.split(",").map(s => parseSelector(s.trim())), declarations });
        }
    };
    block(null);
    return rules;
}

/** A selector is a list of compound selectors, each { tag, classes, attrs: [name, op, value] }. */
function parseSelector(s) {
    return s.split(/\s+/).map(c => {
        const m = /^(\*|[a-zA-Z][\w-]*)?((?:\.[\w-]+|\[[^\]]+\]|:root)*)$/.exec(c);
        if (!m || c === "") throw new Error(`unknown selector ${JSON.stringify(s)}`);
        const r = { tag: m[1] && m[1] !== "*" ? m[1] : null, classes: [], attrs: [] };
        for (const part of m[2].match(/\.[\w-]+|\[[^\]]+\]|:root/g) ?? []) {
            if (part[0] === ".") r.classes.push(part.slice(1));
            else if (part === ":root") r.tag = "html";
            else {
                const a = /^\[([\w-]+)(\^=|=)"?([\w-]+)"?\]$/.exec(part);
                if (!a || /^-?\d/.test(a[3])) throw new Error(`unknown selector ${JSON.stringify(s)}`);
                r.attrs.push(a.slice(1));
            }
        }
        return r;
    });
}

const matchesCompound = (c, e) => (!c.tag || c.tag === e.tag) && c.classes.every(k => e.classes.includes(k))
    && c.attrs.every(([n, op, v]) => n in e.attrs && (op === "=" ? e.attrs[n] === v : e.attrs[n].startsWith(v)));
function matches(selector, chain) {
    if (!matchesCompound(selector.at(-1), chain.at(-1))) return false;
    let k = selector.length - 2;
    for (let j = chain.length - 2; j >= 0 && k >= 0; --j) if (matchesCompound(selector[k], chain[j])) --k;
    return k < 0;
}
const specificity = s => s.reduce((n, c) => n + (c.tag ? 1 : 0) + 1000 * (c.classes.length + c.attrs.length), 0);

/** What the cascade gives the last element of the chain. */
function cascade(rules, system, chain) {
    const best = new Map();
    rules.forEach(r => {
        if (r.media !== null && r.media !== system) return;
        let s = -1;
        for (const sel of r.selectors) if (matches(sel, chain)) s = Math.max(s, specificity(sel));
        if (s < 0) return;
        for (const [n, v] of r.declarations) {
            const b = best.get(n);
            if (!b || b[0] <= s) best.set(n, [s, v]);
        }
    });
    return new Map([...best].map(([n, [, v]]) => [n, v]));
}

// ---------------------------------------------------------------------------------------------- what a theme says
const types = fs.readFileSync(typesPath, "utf8").trim().split("\n").map(l => l.split(" ")).map(([, long, short]) => ({ long, short }));
const byLong = new Map(types.map(t => [t.long, t]));

const resolve = (theme, v) => {
    for (let k = 0; k < 50; ++k) {
        if (!v.startsWith("$")) return v;
        const p = theme.palette ?? {};
        if (!Object.hasOwn(p, v.slice(1)) || typeof p[v.slice(1)] !== "string") return null;
        v = p[v.slice(1)];
    }
    return null;
};
/** The declarations that the theme gives the type in a variant. */
function expectedType(theme, variant, short) {
    const r = new Map();
    const keys = Object.keys(theme[variant] ?? {}).filter(k => byLong.has(k) && short.startsWith(byLong.get(k).short));
    keys.sort((a, b) => byLong.get(a).short.length - byLong.get(b).short.length);
    for (const k of keys) {
        const v = theme[variant][k];
        if (typeof v === "string") r.set("color", resolve(theme, v));
        else for (const [n, x] of Object.entries(v)) r.set(n, resolve(theme, x));
    }
    return r;
}
function expectedCode(theme, variant, isBlock, opt) {
    const r = new Map(), d = theme[variant] ?? {};
    if (d.background !== undefined && isBlock && !opt.noBackground) {
        r.set("background-color", resolve(theme, d.background));
        r.set("border-color", resolve(theme, d.background));
    }
    if (d.foreground !== undefined && !opt.noForeground) r.set("color", resolve(theme, d.foreground));
    return r;
}
/** Whether the theme is one that the compiler has to reject. */
function isBad(theme, opt) {
    for (const [k, d] of Object.entries(theme)) {
        if (["meta", "palette", "$schema"].includes(k)) continue;
        if (k !== "light" && k !== "dark") return `variant ${k}`;
        for (const [t, v] of Object.entries(d)) {
            const special = t === "background" || t === "foreground";
            if (special && typeof v !== "string") return `${t} is no string`;
            if (t === "background" && opt.noBackground || t === "foreground" && opt.noForeground) continue;
            if (!special && !byLong.has(t)) return `type ${t}`;
            if (v === "") return "empty value";
            for (const x of typeof v === "string" ? [v] : Object.values(v)) if (resolve(theme, x) === null) return `value ${x}`;
        }
    }
    return "";
}

// ---------------------------------------------------------------------------------------------- the comparison
const result = { evaluations: 0, nontrivial: 0, transitions: 0, families: {}, samples: [], violations: [] };
const perKind = {};
let label = "", lastSample = 0;
function fail(kind, detail) {
    perKind[kind] = (perKind[kind] ?? 0) + 1;
    if (perKind[kind] > 4) return;
    result.violations.push({ kind, text: label.slice(0, 300), detail: String(detail).slice(0, 600) });
}
const el = (tag, classes = [], attrs = {}) => ({ tag, classes, attrs });
const showMap = m => [...m].map(([n, v]) => `${n}: ${v}`).join("; ") || "nothing";
const same = (a, b) => a.size === b.size && [...a].every(([n, v]) => b.get(n) === v);

/** Evaluates the style sheet everywhere and compares it with the themes. */
function compare(css, themes, opt) {
    let rules;
    try { rules = parseCss(css); } catch (e) {
        fail("malformed", `${e.message} in ${JSON.stringify(css.slice(0, 300))}`);
        return;
    }
    const both = opt.all ? types : types.filter(t => themes.some(({ theme }) => ["light", "dark"].some(v => theme[v] && Object.keys(theme[v]).some(k => {
        const b = byLong.get(k);
        return b && (t.short.startsWith(b.short) || b.short.startsWith(t.short) || t.long.startsWith(b.long));
    }))));
    const list = both.length ? both : types.slice(0, 3);
    const check = (what, system, chain, expected) => {
        const got = cascade(rules, system, chain);
        if (!same(got, expected)) fail(what, `${chain.map(e => `${e.tag}${e.classes.map(c => "." + c).join("")}${Object.entries(e.attrs).map(([n, v]) => `[${n}=${v}]`).join("")}`).join(" ")} with the ${system} scheme gets ${showMap(got)} instead of ${showMap(expected)}`);
    };
    // What is around the code, and the variant that it selects of each theme.
    const contexts = [];
    if (opt.themed) {
        const names = themes.map(t => t.name);
        for (const name of [...names, "other"]) for (const v of ["light", "dark"]) {
            const own = themes.find(t => t.name === name);
            const attr = { "data-ulight-theme": `${v}-${name}` };
            const layers = own ? [[own.theme, v]] : [];
            contexts.push({ around: [el("html"), el("body"), el("div", [], attr)], self: {}, layers }, { around: [el("html", [], attr), el("body")], self: {}, layers });
            contexts.push({ around: [el("html"), el("body")], self: attr, layers });
        }
        contexts.push({ around: [el("html"), el("body")], self: {}, layers: [] });
    } else if (opt.cowel) {
        for (const c of ["light", "dark", null]) contexts.push({ around: [el("html", c ? [c] : []), el("body")], self: {}, cls: c });
    } else contexts.push({ around: [el("html"), el("body")], self: {} });
    for (const system of ["light", "dark"]) for (const x of contexts) {
        const layers = x.layers ?? themes.flatMap(t => [[t.theme, system]]).concat(x.cls ? themes.map(t => [t.theme, x.cls]) : []);
        const merge = f => layers.reduce((m, [theme, v]) => { for (const [n, y] of f(theme, v)) m.set(n, y); return m; }, new Map());
        for (const [cls, isBlock] of [["ulight-code", false], ["ulight-code-block", true]])
            check("code", system, [...x.around, el(isBlock ? "pre" : "code", [cls], x.self)], merge((t, v) => expectedCode(t, v, isBlock, opt)));
        for (const t of list)
            check("type", system, [...x.around, el("code", ["ulight-code"], x.self), el("h-", [], { "data-h": t.short })], merge((th, v) => expectedType(th, v, t.short)));
        check("other", system, [...x.around, el("p")], new Map());
    }
}

let counter = 0;
const nameOf = f => path.basename(f).replace(/\.[^.]*$/, "").replace("_", "-");
/** One case: themes as files, and options. */
function one(family, files, args, opt = {}) {
    if (counter++ % workers !== worker) return;
    ++result.evaluations;
    result.families[family] = (result.families[family] ?? 0) + 1;
    const names = Object.keys(files);
    label = `${args.join(" ")} ${JSON.stringify(files)}`;
    if (result.samples.length < 4 && result.evaluations >= lastSample * 4) {
        result.samples.push(label.slice(0, 160));
        lastSample = result.evaluations;
    }
    const dir = path.join(tmp, `d${worker}`);
    fs.rmSync(dir, { recursive: true, force: true });
    fs.mkdirSync(dir);
    for (const [n, t] of Object.entries(files)) fs.writeFileSync(path.join(dir, n), typeof t === "string" ? t : JSON.stringify(t));
    const output = path.join(tmp, `o${worker}.css`);
    fs.rmSync(output, { force: true });
    const input = opt.directory ? dir : path.join(dir, names[0]);
    const o = {
        themed: args.some(a => a === "-t" || a === "--themed"), cowel: args.some(a => a === "-M" || a === "--cowel"),
        noBackground: args.some(a => a === "-B" || a === "--no-block-background"),
        noForeground: args.some(a => a === "-F" || a === "--no-foreground"), all: opt.all,
    };
    const r = run([...(opt.long ? ["--input", input] : ["-i", input]), ...(opt.output ? [opt.long ? "--output" : "-o", output] : []), ...args]);
    const used = (opt.directory ? names.filter(n => n.endsWith(".json") && n !== "ulight-theme.schema.json") : names).filter(n => typeof files[n] === "object");
    const bad = opt.bad || used.map(n => isBad(files[n], o)).find(x => x);
    const written = fs.existsSync(output);
    if (bad) {
        ++result.nontrivial;
        if (r.code === 0) fail("accepted", `${bad}: the result is ${JSON.stringify(r.out.slice(0, 200))}`);
        else if (written) fail("written", `${bad}: a style sheet is written despite the error`);
        else if (r.out) fail("printed", `${bad}: a style sheet is printed despite the error`);
        else if (!r.err.trim()) fail("silent", `${bad}: no message (${r.thrown})`);
        return;
    }
    if (r.code !== 0 || r.thrown) {
        fail("rejected", `exit code ${r.code}: ${r.err}${r.thrown}`);
        return;
    }
    if (written !== Boolean(opt.output)) fail("output", `the style sheet is ${written ? "" : "not "}written to a file`);
    if (opt.output && r.out.trim()) fail("output", "the style sheet is printed as well");
    const css = opt.output ? (written ? fs.readFileSync(output, "utf8") : "") : r.out;
    if (css.trim()) ++result.nontrivial;
    compare(css, used.map(n => ({ name: nameOf(n), theme: files[n] })), o);
}

// ---------------------------------------------------------------------------------------------- the space
const meta = { name: "T" };
const palette = { a: "#010101", b: "$a", c: "$b", _d1: "rgb(1, 2, 3)", e: "red" };
const values = ["#123456", "red", "$a", "$b", "$c", "$_d1", { color: "$b" }, { "font-style": "italic" },
    { "font-weight": "bold", color: "#abcdef" }, { color: "$c", "text-decoration": "underline", "background-color": "$a" }];
const optionSets = [];
for (const mode of [[], ["-t"], ["--themed"], ["-M"], ["--cowel"]])
    for (const b of [[], ["-B"], ["--no-block-background"]]) for (const f of [[], ["-F"], ["--no-foreground"]]) optionSets.push([...mode, ...b, ...f]);

// Every type with every kind of value.
for (const t of types) values.forEach((v, k) => one("each type", { "t.json": { meta, palette, light: { [t.long]: v } } }, [["-t"], [], ["-M"]][k % 3], { all: k === 0 }));
// All options with backgrounds and foregrounds.
for (const args of optionSets) for (const shape of [
    { light: { background: "#fff", foreground: "#111", string: "red" } },
    { dark: { foreground: "$a", background: "$b", keyword: "$c" }, light: { string: "blue", background: "white" } },
    { light: { name: "a1", "name-var": { "font-style": "x" }, foreground: "y" }, dark: {} },
    { dark: { "text-emph": { "font-style": "italic" } } },
    { light: { foreground: "red" }, dark: { background: "$_d1" } },
]) for (const output of [false, true]) for (const long of [false, true])
    one("options", { "a_b.json": { $schema: "x", meta, palette, ...shape } }, args, { output, long });
// Pairs of types, in both orders: what is said of the more special one wins.
const pairValues = [["#111", "#222"], [{ color: "#111", "font-style": "italic" }, "#222"], ["#111", { "font-weight": "bold" }]];
for (let i = 0; i < types.length; ++i) for (let j = 0; j < types.length; ++j) {
    if (i === j) continue;
    const near = types[j].short.startsWith(types[i].short) || types[i].short.startsWith(types[j].short) || types[i].long.startsWith(types[j].long) || types[j].long.startsWith(types[i].long);
    pairValues.forEach((v, k) => {
        if (!near && (k > 0 || i > j && !thorough)) return;
        one("pairs", { "t.json": { meta, light: { [types[i].long]: v[0], [types[j].long]: v[1] } } }, [[], ["-t"], ["-M"]][(i + j + k) % 3]);
    });
}
// Chains of three, in all orders, and the special keys among them.
const chains = [];
for (const a of types) for (const b of types) if (b.long.startsWith(a.long + "-")) for (const c of types) if (c.long.startsWith(b.long + "-")) chains.push([a.long, b.long, c.long]);
for (const t of types) chains.push([t.long, "background", "foreground"]);
for (const c of chains) for (const order of [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
    for (const variant of ["light", "dark"]) one("chains", { "t.json": { meta, [variant]: Object.fromEntries(order.map(k => [c[k], `#00${k}`])) } }, [["-M"], [], ["-t"]][order[0]]);
// The palette: all assignments of three entries.
const entries = ["#1", "$x", "$y", "$z", "$w", "$", 5, null, {}, ["a"]];
for (const x of entries) for (const y of entries) for (const z of entries)
    for (const v of ["$x", { color: "$y", "font-style": "$x" }]) {
        one("palette", { "t.json": { meta, palette: { x, y, z }, light: { string: v } } }, []);
        if (thorough || x === y || y === z) one("palette", { "t.json": { meta, palette: { x, y, z }, dark: { background: "$x", foreground: "$y" } } }, ["-t"]);
    }
for (const v of ["$x", "$constructor", "$__proto__", "$toString", "$", "$$", "$a "]) {
    one("palette", { "t.json": { meta, light: { string: v } } }, []);
    one("palette", { "t.json": { meta, palette, light: { string: { color: v } } } }, []);
    one("palette", { "t.json": { meta, palette: {}, light: { foreground: v } } }, ["-t"]);
}
// What is not a theme.
const wrong = new Set(["", " ", "constructor", "toString", "hasOwnProperty", "valueOf", "Background", "backgrounds", "meta", "palette", "light"]);
for (const t of types) {
    for (let k = 0; k < t.long.length; ++k) {
        wrong.add(t.long.slice(0, k) + t.long.slice(k + 1));
        wrong.add(t.long.slice(0, k) + (t.long[k] === "-" ? "_" : t.long[k].toUpperCase()) + t.long.slice(k + 1));
    }
    wrong.add(t.long + "-delim-delim").add(t.long + " ").add(t.short);
}
for (const w of wrong) if (!byLong.has(w)) one("unknown types", { "t.json": { meta, light: { string: "red", [w]: "blue" } } }, w.length % 2 ? ["-t"] : []);
for (const w of ["Light", "lights", "", "black", "dark ", "$light", "toString", "palettes", "metadata"]) for (const d of [{}, { string: "red" }])
    for (const first of [true, false]) one("unknown variants", { "t.json": first ? { meta, [w]: d, light: { string: "red" } } : { meta, dark: { name: "red" }, [w]: d } }, []);
for (const t of ["string", "background", "foreground", "name-var"]) for (const v of ["", "$", "$q"]) for (const args of optionSets) one("bad values", { "t.json": { meta, light: { [t]: v } } }, args);
for (const t of ["background", "foreground"]) for (const v of [{}, { color: "red" }, 5, null, ["a"], true]) for (const args of optionSets) one("bad values", { "t.json": { meta, dark: { [t]: v } } }, args);
for (const text of ["", "{", "{}}", "nothing", "[", "{\"light\":}", "{'light':{}}"]) one("no JSON", { "t.json": text }, [], { bad: "not JSON" });
one("no JSON", {}, [], { directory: true });
// Directories.
const files = { "a.json": { meta, light: { string: "#1", background: "#2" } }, "b_c.json": { meta, dark: { string: "#3", foreground: "#4" }, light: { name: "#5" } }, "d-e.json": { meta, palette, dark: { keyword: "$b" }, light: { keyword: "$c" } }, "ulight-theme.schema.json": { type: "object", properties: {} }, "readme.txt": "text", "x.json5": "text" };
// Names which only resemble the one that is left out.
for (const n of ["my-schema.json", "schema.json", "ulight-theme.json", "ulight-schema.json", "x-ulight-theme.schema.json", "theme-schema.json", "package.json", "tsconfig.json", "index.json", "-.json", ".json", "0.json"])
    for (const m of [{ [n]: files["a.json"] }, { [n]: files["a.json"], "b_c.json": files["b_c.json"], "ulight-theme.schema.json": { type: "object" } }]) one("directories", m, [], { directory: true, output: true });
const all = Object.keys(files);
for (let mask = 0; mask < 1 << all.length; ++mask) for (const output of [false, true])
    one("directories", Object.fromEntries(all.filter((_, k) => mask >> k & 1).map(n => [n, files[n]])), mask % 2 ? ["-t"] : ["--themed", "-B"], { directory: true, output });
for (const [n, t] of [["bad", { meta, light: { nothing: "red" } }], ["a", { meta, lite: {} }]])
    for (let mask = 0; mask < 8; ++mask) one("directories", { ...Object.fromEntries(all.slice(0, 3).filter((_, k) => mask >> k & 1).map(x => [x, files[x]])), [`${n}z.json`]: t }, ["-t"], { directory: true, output: true });
for (const n of ["a.b.json", "x.y.z.json"]) one("names", { [n]: { meta, light: { string: "red" } } }, ["-t"], { bad: `the name ${n}` });
for (const n of ["a.b.json", "ab.json", "noext", "x.y"]) one("names", { [n]: { meta, light: { string: "red" } } }, []);
for (const n of ["ab.json", "noext", "x.y", "a_b", "A-b.json"]) one("names", { [n]: { meta, light: { string: "red" } } }, ["-t"]);
// The themes of the repository, and the style sheet of the site.
const own = fs.readdirSync(themesDir).filter(f => f.endsWith(".json") && f !== "ulight-theme.schema.json").sort();
const ownFiles = Object.fromEntries(own.map(f => [f, JSON.parse(fs.readFileSync(path.join(themesDir, f), "utf8"))]));
for (const f of own) for (const args of optionSets) one("own themes", { [f]: ownFiles[f] }, args, { all: true });
one("own themes", ownFiles, ["-t"], { directory: true, output: true, all: true });
if (counter++ % workers === worker) {
    label = "the style sheet of the site";
    compare(fs.readFileSync(siteCss, "utf8"), own.map(f => ({ name: nameOf(f), theme: ownFiles[f] })), { themed: true, all: true });
}
// Sets of types of one theme, all at once.
const step = thorough ? 1 : 4;
for (let k = 0; k < types.length; k += step) for (const width of [5, 20, types.length]) {
    const data = {};
    for (let j = 0; j < width; ++j) data[types[(k + j * 7) % types.length].long] = j % 3 ? `#${j}` : { color: `#${j}`, "font-style": `s${j}` };
    one("many types", { "t.json": { meta, light: data, dark: Object.fromEntries(Object.entries(data).reverse()) } }, [["-t"], [], ["-M"]][k / step % 3], { all: true });
}
fs.writeFileSync(outPath, JSON.stringify(result));
