// A stand-in for the package of the same name, which is not installed: options with aliases, types and defaults,
// "--name value", "--name=value", "-n value", grouped letters, "--no-name", and names in camel case.
"use strict";

const camel = s => s.replace(/-+([a-zA-Z0-9])/g, (_, c) => c.toUpperCase());

module.exports = function make(process, console) {
    const create = args => {
        const options = new Map();
        const api = {
            option(name, spec = {}) {
                if (typeof name === "object") {
                    for (const [n, s] of Object.entries(name)) api.option(n, s);
                    return api;
                }
                options.set(name, { ...options.get(name), ...spec });
                return api;
            },
            parse(list) {
                const argv = { _: [], $0: "theme-to-css" };
                const groups = [...options.entries()].map(([name, spec]) => ({ names: new Set([name, ...[].concat(spec.alias ?? [])]), spec }));
                for (const g of groups) for (const n of [...g.names]) g.names.add(camel(n));
                const find = n => groups.find(g => g.names.has(n));
                const set = (n, value) => {
                    const g = find(n);
                    for (const k of g ? g.names : new Set([n, camel(n)]))
                        argv[k] = k in argv && g?.spec.type === "string" ? [].concat(argv[k], value) : value;
                };
                const rest = [...(list ?? args)];
                const type = n => find(n)?.spec.type ?? (find(n)?.spec.boolean ? "boolean" : undefined);
                const take = n => {
                    if (type(n) === "boolean") {
                        if (rest[0] === "true" || rest[0] === "false") return rest.shift() === "true";
                        return true;
                    }
                    if (rest.length && !/^-./.test(rest[0])) return rest.shift();
                    return type(n) === "string" ? "" : true;
                };
                while (rest.length) {
                    const a = rest.shift();
                    let m;
                    if (a === "--") { argv._.push(...rest.splice(0)); }
                    else if ((m = /^--([^=]+)=(.*)$/s.exec(a))) set(m[1], type(m[1]) === "boolean" ? m[2] !== "false" : m[2]);
                    else if ((m = /^--no-(.+)$/.exec(a))) set(m[1], false);
                    else if ((m = /^--(.+)$/.exec(a))) set(m[1], take(m[1]));
                    else if ((m = /^-([^-].*)$/s.exec(a))) {
                        const letters = m[1];
                        for (let k = 0; k < letters.length; ++k) {
                            if (k + 1 === letters.length) set(letters[k], take(letters[k]));
                            else if (type(letters[k]) === "boolean") set(letters[k], true);
                            else { set(letters[k], letters.slice(k + 1).replace(/^=/, "")); break; }
                        }
                    }
                    else argv._.push(a);
                }
                for (const g of groups) {
                    const given = [...g.names].some(n => n in argv);
                    if (!given && g.spec.default !== undefined) for (const n of g.names) argv[n] = g.spec.default;
                    if (!given && g.spec.default === undefined && (g.spec.demandOption || g.spec.demand || g.spec.required)) {
                        console.error(`Missing required argument: ${[...g.names][0]}`);
                        process.exit(1);
                    }
                }
                return argv;
            },
            get argv() { return api.parse(); },
        };
        api.options = api.option;
        api.parseSync = api.parse;
        for (const n of ["boolean", "string"]) api[n] = names => {
            for (const k of [].concat(names)) api.option(k, { type: n });
            return api;
        };
        api.alias = (a, b) => api.option(a, { alias: b });
        api.default = (a, v) => api.option(a, { default: v });
        api.demandOption = names => {
            for (const k of [].concat(names)) api.option(k, { demandOption: true });
            return api;
        };
        api.describe = () => api;
        for (const n of ["usage", "help", "version", "strict", "example", "epilogue", "epilog", "wrap", "scriptName", "showHelpOnFail", "parserConfiguration", "command", "group", "locale"]) api[n] = () => api;
        return api;
    };
    const top = (args = process.argv.slice(2)) => create(args);
    return new Proxy(top, {
        get(target, name) {
            const api = create(process.argv.slice(2));
            return name in api ? api[name] : target[name];
        },
    });
};
