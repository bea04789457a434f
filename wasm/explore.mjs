// Explores the JavaScript wrapper over the library compiled to WebAssembly.
//   node explore.mjs DIR WORKER WORKERS TIER OUT
import fs from "node:fs";
import path from "node:path";
import { pathToFileURL } from "node:url";

const [dir, workerArg, workersArg, tier, outPath] = process.argv.slice(2);
const worker = Number(workerArg), workers = Number(workersArg), thorough = tier === "thorough";
const tables = JSON.parse(fs.readFileSync(path.join(dir, "tables.json"), "utf8"));

// The environment of the wrapper: the two modules come from files.
const library = fs.readFileSync(path.join(dir, "ulight.wasm"));
const trampoline = fs.readFileSync(path.join(dir, "f_i32_i32_i32_to_void.wasm"));
const wanted = [];
globalThis.fetch = async uri => {
    const file = path.basename(String(uri));
    wanted.push(file);
    const bytes = file === "ulight.wasm" ? library : file === "f_i32_i32_i32_to_void.wasm" ? trampoline : null;
    if (!bytes) throw new Error(`unexpected file ${uri}`);
    return new Response(new Uint8Array(bytes), { headers: { "content-type": "application/wasm" } });
};
const missing = new Set();
const instantiate = WebAssembly.instantiate.bind(WebAssembly);
WebAssembly.instantiateStreaming = async (response, imports) => {
    const bytes = new Uint8Array(await (await response).arrayBuffer());
    // Functions that the module imports from emscripten's library only if the compiler happens to need them.
    const env = { ...imports?.env };
    const module = await WebAssembly.compile(bytes);
    for (const i of WebAssembly.Module.imports(module))
        if (i.module === "env" && i.kind === "function" && !(i.name in env)) env[i.name] = () => {
            missing.add(i.name);
            throw new Error(`call of ${i.name}`);
        };
    return { module, instance: await instantiate(module, { ...imports, env }) };
};
let logged = [];
console.error = (...args) => { logged.push(args.map(String).join(" ")); };
console.warn = console.error;

const wrapper = await import(pathToFileURL(path.join(dir, "ulight.mjs")).href);

const result = { evaluations: 0, nontrivial: 0, transitions: 0, traces: 0, families: {}, samples: [], violations: [] };
const perKind = {};
let label = "", lastSample = 0;
function begin(family, text) {
    label = text;
    ++result.evaluations;
    result.families[family] = (result.families[family] ?? 0) + 1;
    if (result.samples.length < 6 && result.evaluations >= lastSample * 4) {
        result.samples.push(text.slice(0, 120));
        lastSample = result.evaluations;
    }
}
function fail(kind, detail) {
    perKind[kind] = (perKind[kind] ?? 0) + 1;
    if (perKind[kind] > 5) return;
    result.violations.push({ kind, text: label.slice(0, 300), detail: String(detail).slice(0, 500) });
}
const show = v => typeof v === "string" ? JSON.stringify(v.length > 120 ? `${v.slice(0, 60)}...(${v.length})` : v) : String(v);

function fnv32(bytes, h) {
    for (let i = 0; i < bytes.length; ++i) h = Math.imul(h ^ bytes[i], 16777619);
    return h >>> 0;
}

async function fresh() {
    const u = await wrapper.loadWasm();
    // Addresses in use by what the library keeps, if anything.
    const x = u.wasm.instance.exports;
    return { u, x, base: x.vx_live() };
}

let w = await fresh();
begin("initialization", "loadWasm");
if (w.base !== 0) fail("initialization", "memory is allocated");

function balance(what) {
    if (w.x.vx_live() !== w.base) {
        fail("leak", `${what}: ${w.x.vx_live() - w.base} allocations are not freed`);
        w.base = w.x.vx_live();
    }
    if (w.x.vx_errors() !== 0) fail("free", `${what}: something is freed twice`);
}

// ------------------------------------------------------------------------------------------------
// Tables.
if (worker === 0) {
    begin("tables", "language list");
    if (JSON.stringify(w.u.getLanguageList()) !== JSON.stringify(tables.list)) fail("list", "the list of languages differs");
    if (w.u.getLanguageListLength() !== tables.list.length) fail("list", "the length of the list differs");
    for (const [name, id] of tables.ids) {
        begin("tables", `name ${show(name)}`);
        if (w.u.getLanguageId(name) !== id) fail("id", `got ${w.u.getLanguageId(name)}, expected ${id}`);
        const got = w.u.getLanguageDisplayName(name), want = id === 0 ? null : tables.display[id];
        if (got !== want) fail("display-name", `got ${show(got)}, expected ${show(want)}`);
        balance("lookup");
        if (id) ++result.nontrivial;
    }
    for (let id = 1; id < tables.display.length; ++id) {
        begin("tables", `id ${id}`);
        if (w.u.getLanguageDisplayName(id) !== tables.display[id]) fail("display-name", show(w.u.getLanguageDisplayName(id)));
    }
}

// ------------------------------------------------------------------------------------------------
// Sources.
const fatal = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
function decode(bytes) {
    try {
        return fatal.decode(bytes);
    } catch {
        return null;
    }
}
function expectHtml(make, want, what) {
    let got;
    try {
        got = make();
    } catch (e) {
        return fail("throws", `${what} throws ${show(e?.message ?? e)}`);
    }
    if (!want(got)) fail("html", `${what} differs from the native library: ${show(got)}`);
}
{
    const names = {};
    for (const l of tables.list) (names[l.id] ??= []).push(l.name);
    const data = fs.readFileSync(path.join(dir, `shard.${worker}`));
    let p = 0, count = 0;
    while (p < data.length) {
        const [lang, family, status, srcLength, htmlLength, kept, h1, h2] = new Uint32Array(data.buffer.slice(data.byteOffset + p, data.byteOffset + p + 32));
        p += 32;
        const src = new Uint8Array(data.subarray(p, p + srcLength));
        p += srcLength;
        const html = kept ? data.subarray(p, p + htmlLength) : null;
        if (kept) p += htmlLength;
        const text = decode(src);
        begin(tables.families[family], `${lang} ${show(text ?? Buffer.from(src).toString("latin1"))}`);
        const id = (count++ & 1) && names[lang] ? names[lang][count % names[lang].length] : lang;
        if (text === null) {
            // The output is no text; an error or a replacement may be reported.
            try {
                w.u.toHtml(src, id);
            } catch { }
            balance("malformed text");
            continue;
        }
        logged = [];
        if (status !== 0) {
            let threw = false;
            try {
                w.u.toHtml(text, id);
            } catch {
                threw = true;
            }
            if (!threw) fail("accepts", `the native library returns ${status}`);
            balance("failure");
            continue;
        }
        const wantText = html ? decode(html) : null;
        const same = got => typeof got === "string" && (html ? got === wantText : (() => {
            const bytes = Buffer.from(got, "utf8");
            return bytes.length === htmlLength && fnv32(bytes, 2166136261) === h1 && fnv32(bytes, 0x9747b28c) === h2;
        })());
        expectHtml(() => w.u.toHtml(text, id), same, "toHtml(string)");
        balance("toHtml");
        if (srcLength > 60000 || count % 4 === 0) {
            expectHtml(() => w.u.toHtml(src, id), same, "toHtml(bytes)");
            balance("toHtml");
        }
        if (htmlLength > srcLength) ++result.nontrivial;
    }
}

// ------------------------------------------------------------------------------------------------
// Histories: all sequences of operations, with growth of the memory or a failure at every allocation of the last one.
const render = (text, lang) => w.u.toHtml(text, lang);
const reference = {};
const ops = [
    ["toHtml string", () => render("int x = 1; // \u00e9\n", "cpp")],
    ["toHtml bytes", () => render(new TextEncoder().encode("{\"a\": [1, null]}"), "json")],
    ["toHtml empty", () => render("", 13)],
    ["toHtml large", () => render("\u20ac<a> ".repeat(12000), "txt")],
    ["toHtml yaml", () => render("a: [1, {b: c}]\nd: |\n  e\n", "yaml")],
    ["toHtml bad id", () => render("a", 255)],
    ["toHtml bad name", () => render("a", "nonesuch")],
    ["list", () => JSON.stringify(w.u.getLanguageList())],
    ["length", () => w.u.getLanguageListLength()],
    ["id", () => w.u.getLanguageId("kotlin")],
    ["bad name", () => w.u.getLanguageId("nonesuch\u00e9")],
    ["display name of name", () => w.u.getLanguageDisplayName("c++")],
    ["display name of id", () => w.u.getLanguageDisplayName(3)],
    ["display name of bad name", () => w.u.getLanguageDisplayName("nonesuch")],
];
const run = f => {
    logged = [];
    try {
        return { value: f(), log: logged.join("|") };
    } catch (e) {
        return { threw: true, error: e, log: logged.join("|") };
    }
};
const same = (a, b) => a.threw === b.threw && (a.threw ? true : a.value === b.value);
for (const [name, f] of ops) {
    w = await fresh(); // on their own
    reference[name] = run(f);
}
const bad = n => n.startsWith("toHtml bad");
const expected = {
    "toHtml bad id": true, "toHtml bad name": true,
};
for (const [name] of ops) {
    begin("operations", name);
    if (Boolean(reference[name].threw) !== Boolean(expected[name])) fail("operation", `${name}: ${reference[name].error}`);
}
async function history(list) {
    const names = list.map(k => ops[k][0]);
    for (let k = 0; k < list.length; ++k) {
        const [name, f] = ops[list[k]];
        begin("histories", names.join("; "));
        ++result.transitions;
        const r = run(f);
        if (!same(r, reference[name])) fail("history", `${name} is different: ${show(r.value ?? r.error)}`);
        if (bad(name) && r.log !== reference[name].log) fail("message", `${name}: ${r.log}, expected ${reference[name].log}`);
        balance(name);
    }
    ++result.traces;
    ++result.nontrivial;
}
const depth = thorough ? 4 : 3;
w = await fresh();
let serial = 0;
for (let d = 1; d <= depth; ++d) {
    const total = ops.length ** d;
    for (let k = 0; k < total; ++k) {
        if (serial++ % workers !== worker) continue;
        const list = [];
        for (let r = k, i = 0; i < d; ++i, r = Math.floor(r / ops.length)) list.push(r % ops.length);
        await history(list);
    }
}
// Growth.
for (let a = 0; a < ops.length; ++a) {
    for (let b = 0; b < ops.length; ++b) {
        for (let at = 0; at < 9; ++at) {
            if (serial++ % workers !== worker) continue;
            w = await fresh();
            const [first, f] = ops[a], [second, g] = ops[b];
            for (const two of [false, true]) {
                begin("growth", `${first}; ${second} growth at ${at}`);
                ++result.transitions;
                w.x.vx_plan(-1, at);
                const r = run(f);
                if (!two) w.x.vx_plan(-1, -1);
                const s = run(g);
                w.x.vx_plan(-1, -1);
                if (!same(r, reference[first])) fail("growth", `${first} is different: ${show(r.value ?? r.error)}`);
                if (!same(s, reference[second])) fail("growth", `${second} is different afterwards: ${show(s.value ?? s.error)}`);
                if (bad(first) && r.log !== reference[first].log) fail("growth-message", `${first}: ${r.log}, expected ${reference[first].log}`);
                balance(first);
            }
            ++result.traces;
            ++result.nontrivial;
        }
        // Failures.
        for (let at = 0; at < 9; ++at) {
            if (serial++ % workers !== worker) continue;
            const [first, f] = ops[a], [second, g] = ops[b];
            begin("failing allocations", `${first}; ${second} failure at ${at}`);
            w = await fresh();
            const before = w.x.vx_allocations();
            w.x.vx_plan(at, -1);
            const r = run(f);
            const failed = w.x.vx_allocations() - before > at;
            w.x.vx_plan(-1, -1);
            // Allocations of the library itself cannot fail without the end of the program.
            if (failed && r.error instanceof WebAssembly.RuntimeError) continue;
            if (failed) {
                if (!r.threw) fail("failure", `${first} does not throw although an allocation fails`);
                else if (!(r.error instanceof Error)) fail("failure", `${first} throws ${r.error}`);
                else if (!/alloc/i.test(r.error.message)) fail("failure-message", `${first} throws ${r.error}`);
                ++result.transitions;
            }
            else if (!same(r, reference[first])) fail("failure", `${first} is different without a failure`);
            balance(`${first} after a failure`);
            const s = run(g);
            if (!same(s, reference[second])) fail("failure", `${second} is different afterwards: ${show(s.value ?? s.error)}`);
            balance(second);
            ++result.traces;
        }
    }
}
result.missing = [...missing];
fs.writeFileSync(outPath, JSON.stringify(result));
