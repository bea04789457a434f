// The parts of a browser's page that the live editor uses, as the HTML standard defines them.

const entities = { amp: "&", lt: "<", gt: ">", quot: "\"", apos: "'", nbsp: "\u00a0", micro: "\u00b5" };
const decode = s => s.replace(/&(#x([0-9a-fA-F]+)|#(\d+)|(\w+));/g, (m, _, h, d, n) => h ? String.fromCodePoint(parseInt(h, 16)) : d ? String.fromCodePoint(Number(d)) : entities[n] ?? m);
const encode = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\u00a0/g, "&nbsp;");
const toUnsigned = v => Number(v) >>> 0;

export class FakeEvent {
    constructor(type, init = {}) {
        this.type = type;
        this.defaultPrevented = false;
        this.cancelBubble = false;
        Object.assign(this, { bubbles: false, cancelable: false }, init);
    }
    preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
    stopPropagation() { this.cancelBubble = true; }
    stopImmediatePropagation() { this.cancelBubble = true; this.stopped = true; }
}

class Target {
    listeners = [];
    addEventListener(type, f, opt) { if (!this.listeners.some(l => l[0] === type && l[1] === f)) this.listeners.push([type, f, opt?.once]); }
    removeEventListener(type, f) { this.listeners = this.listeners.filter(l => l[0] !== type || l[1] !== f); }
    dispatchEvent(e) {
        e.target ??= this;
        for (let t = this; t; t = e.bubbles ? t.parent : null) {
            e.currentTarget = t;
            for (const l of [...t.listeners]) {
                if (l[0] !== e.type || e.stopped) continue;
                if (l[2]) t.listeners.splice(t.listeners.indexOf(l), 1);
                // An exception is reported, and the other listeners are called.
                try { typeof l[1] === "function" ? l[1].call(t, e) : l[1].handleEvent(e); } catch (x) { this.page.errors.push(x); }
            }
            const on = t["on" + e.type];
            if (typeof on === "function") try { on.call(t, e); } catch (x) { this.page.errors.push(x); }
            if (e.cancelBubble) break;
        }
        return !e.defaultPrevented;
    }
}

export class Element extends Target {
    constructor(page, tag, attrs = {}) {
        super();
        Object.assign(this, { page, tagName: tag.toUpperCase(), attrs, parent: null, children: [], style: {}, html: "" });
        for (const n of ["gridTemplateRows", "gridTemplateColumns"]) this.style[n] = "";
        this.style.setProperty = (n, v) => { this.style[n.replace(/-(.)/g, (_, c) => c.toUpperCase())] = String(v); };
        this.style.removeProperty = n => this.style.setProperty(n, "");
        this.style.getPropertyValue = n => this.style[n.replace(/-(.)/g, (_, c) => c.toUpperCase())] ?? "";
        const classes = () => (attrs.class ?? "").split(/\s+/).filter(x => x);
        this.classList = {
            contains: c => classes().includes(c),
            add: (...cs) => { attrs.class = [...new Set([...classes(), ...cs])].join(" "); },
            remove: (...cs) => { attrs.class = classes().filter(c => !cs.includes(c)).join(" "); },
            toggle: (c, force) => {
                const on = force ?? !classes().includes(c);
                this.classList[on ? "add" : "remove"](c);
                return on;
            },
        };
        const key = n => "data-" + n.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
        this.dataset = new Proxy({}, { get: (_, n) => attrs[key(n)], set: (_, n, v) => { attrs[key(n)] = String(v); return true; }, deleteProperty: (_, n) => delete attrs[key(n)] });
        if (tag === "select") this.options = [], this.selectedIndex = -1;
        if (tag === "textarea") Object.assign(this, { raw: "", dirty: false, start: 0, end: 0 });
    }
    get id() { return this.attrs.id ?? ""; }
    get className() { return this.attrs.class ?? ""; }
    set className(v) { this.attrs.class = String(v); }
    getAttribute(n) { return this.attrs[n] ?? null; }
    setAttribute(n, v) { this.attrs[n] = String(v); }
    removeAttribute(n) { delete this.attrs[n]; }
    hasAttribute(n) { return n in this.attrs; }
    getBoundingClientRect() { return { left: 100, top: 50, width: 800, height: 400, right: 900, bottom: 450, x: 100, y: 50 }; }
    focus() { this.page.document.activeElement = this; }
    appendChild(e) {
        this.children.push(e);
        e.parent = this;
        if (this.tagName === "SELECT") {
            this.options.push(e);
            if (this.selectedIndex < 0 || e.attrs.selected !== undefined) this.selectedIndex = this.selectedIndex < 0 ? 0 : this.options.length - 1;
        }
        return e;
    }
    append(...es) { for (const e of es) this.appendChild(e); }
    add(e) { this.appendChild(e); }
    replaceChildren(...es) {
        this.children = [];
        this.html = "";
        if (this.tagName === "SELECT") this.options = [], this.selectedIndex = -1;
        this.append(...es);
    }
    get innerHTML() { return this.html; }
    set innerHTML(v) {
        this.html = String(v);
        ++this.page.writes;
    }
    get textContent() {
        if (this.tagName === "OPTION") return this.text ?? "";
        if (this.tagName === "TEXTAREA") return this.defaultValue;
        return decode(this.html.replace(/<[^>]*>/g, ""));
    }
    set textContent(v) {
        v = v === null ? "" : String(v);
        if (this.tagName === "OPTION") this.text = v;
        else if (this.tagName === "TEXTAREA") this.defaultValue = v;
        else this.html = encode(v);
        if (this.tagName === "SELECT") this.replaceChildren();
    }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get defaultValue() { return this.childText ?? ""; }
    set defaultValue(v) {
        this.childText = String(v);
        if (!this.dirty) {
            this.raw = this.childText;
            this.start = this.end = this.value.length < this.end ? this.value.length : this.end;
        }
    }
    get value() {
        if (this.tagName === "TEXTAREA") return this.raw.replace(/\r\n?/g, "\n");
        if (this.tagName === "SELECT") return this.options[this.selectedIndex]?.value ?? "";
        if (this.tagName === "OPTION") return this.attrs.value ?? this.textContent;
        return this.attrs.value ?? "";
    }
    set value(v) {
        v = v === null && this.tagName === "TEXTAREA" ? "" : String(v);
        if (this.tagName === "TEXTAREA") {
            const old = this.value;
            this.raw = v;
            this.dirty = true;
            if (old !== this.value) this.start = this.end = this.value.length;
        } else if (this.tagName === "SELECT") this.selectedIndex = this.options.findIndex(o => o.value === v);
        else this.attrs.value = v;
    }
    get selectionStart() { return this.start; }
    set selectionStart(v) { this.setSelectionRange(v, Math.max(this.end, toUnsigned(v))); }
    get selectionEnd() { return this.end; }
    set selectionEnd(v) { this.setSelectionRange(this.start, v); }
    setSelectionRange(start, end) {
        const n = this.value.length;
        this.end = Math.min(toUnsigned(end), n);
        this.start = Math.min(toUnsigned(start), this.end);
    }
    setRangeText(text, start = this.start, end = this.end, mode = "preserve") {
        const s = this.start, e = this.end, n = this.value.length;
        start = Math.min(toUnsigned(start), n);
        end = Math.min(toUnsigned(end), n);
        const v = this.value;
        this.raw = v.slice(0, start) + text + v.slice(end);
        this.dirty = true;
        const newEnd = start + text.length, delta = text.length - (end - start);
        if (mode === "select") [this.start, this.end] = [start, newEnd];
        else if (mode === "start") this.start = this.end = start;
        else if (mode === "end") this.start = this.end = newEnd;
        else {
            this.start = s > end ? s + delta : s > start ? start : s;
            this.end = e > end ? e + delta : e > start ? newEnd : e;
        }
    }
}

export class Storage {
    items = new Map();
    failing = false;
    getItem(k) { return this.items.get(String(k)) ?? null; }
    setItem(k, v) {
        if (this.failing) throw new Error("QuotaExceededError");
        this.items.set(String(k), String(v));
    }
    removeItem(k) { this.items.delete(String(k)); }
    clear() { this.items.clear(); }
    get length() { return this.items.size; }
    key(n) { return [...this.items.keys()][n] ?? null; }
}

/** Splits a document into tags and the texts of scripts. */
export function scan(html) {
    const list = [];
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[\w-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*\/?>|[^<]+/gi;
    for (let m; (m = re.exec(html));) {
        if (m[2] === undefined) {
            if (m[0][0] !== "<") list.push({ text: m[0] });
            continue;
        }
        const attrs = {};
        for (const a of m[3].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) attrs[a[1]] = decode(a[2] ?? a[3] ?? a[4] ?? "");
        const tag = m[2].toLowerCase();
        if (m[1]) list.push({ end: tag });
        else list.push({ tag, attrs });
        if (tag === "script" && !m[1]) {
            const stop = html.indexOf("</script>", re.lastIndex);
            list.at(-1).code = html.slice(re.lastIndex, stop);
            re.lastIndex = stop;
        }
    }
    return list;
}
const empty = new Set(["meta", "link", "img", "source", "br", "input", "hr"]);

export class Page {
    constructor(storage, scheme) {
        Object.assign(this, { storage, scheme, errors: [], writes: 0, ids: new Map() });
        const page = this;
        const root = new Element(this, "html");
        this.document = Object.assign(new Target(), {
            page, documentElement: root, body: null, head: null, activeElement: null, readyState: "loading",
            getElementById: id => this.ids.get(String(id)) ?? null,
            createElement: tag => new Element(page, tag),
            querySelector: s => s[0] === "#" ? this.ids.get(s.slice(1)) ?? null : s === "html" ? root : s === "body" ? this.document.body : null,
            createDocumentFragment: () => new Element(page, "fragment"),
        });
        this.window = Object.assign(new Target(), {
            page, document: this.document,
            matchMedia: q => {
                const m = /prefers-color-scheme:\s*(light|dark)/.exec(q);
                return { matches: m !== null && m[1] === this.scheme, media: q, addEventListener() { }, removeEventListener() { }, addListener() { } };
            },
            get localStorage() { return page.storage; },
        });
        this.document.parent = this.window;
        root.parent = this.document;
        this.stack = [root];
    }
    /** Adds an element, or ends one. */
    parse(t) {
        const top = this.stack.at(-1);
        if (t.text !== undefined) {
            if (top.tagName === "OPTION") top.text = (top.text ?? "") + decode(t.text);
            else if (["PRE", "DIV", "TEXTAREA"].includes(top.tagName) && t.text.trim()) top.textContent = decode(t.text);
            return;
        }
        if (t.end) {
            for (let k = this.stack.length; --k > 0;) if (this.stack[k].tagName === t.end.toUpperCase()) {
                this.stack.length = k;
                break;
            }
            return;
        }
        if (t.tag === "html") {
            Object.assign(this.document.documentElement.attrs, t.attrs);
            return;
        }
        const e = new Element(this, t.tag, { ...t.attrs });
        if (t.tag === "body") this.document.body = e;
        if (t.tag === "head") this.document.head = e;
        top.appendChild(e);
        if (e.id) this.ids.set(e.id, e);
        if (!empty.has(t.tag)) this.stack.push(e);
    }
}
