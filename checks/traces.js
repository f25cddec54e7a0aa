'use strict';
// Trace effects of a function on opaque callbacks and values (used by the properties about higher-order functions).
const { ts } = require('../engine/program');
const { Interp, State, EPS } = require('../engine/absint');
const { withCopyModel } = require('../engine/models');
const { Kinds } = require('../engine/kinds');
const V = require('../engine/values');

const FALSY = [undefined, null, false, 0, ''].map(x => (x === undefined ? V.UNDEF : V.konst(x))).reduce((a, b) => V.join(a, b));
const THEN = new Set(['then', 'catch', 'finally']);

function tracer(prog) {
    let late = [], mode = 'obj';
    const hooks = {
        // arrays of an outer function that grow after a wait: they hold things in the order in which the waits end
        onGrow(J, o, args, e) {
            const f = J.frame && J.frame.fnNode;
            if (!f || !J.frame.trWaits || !o.node || o.node.pos >= f.pos && o.node.end <= f.end && o.node.getSourceFile() === f.getSourceFile()) return;
            late.push({ o, e });
        },
        // what the caller's function returns: either an object of its own, or nothing and falsy values
        cbRet(J, o, args) {
            if (!o.opaque) return null;
            const named = args && args.list.length ? `r(${o.name} of ${show(args.list[args.list.length > 1 && o.name === 'compare' ? 1 : 0])})` : `r(${o.name})`;
            switch (mode) {
                case 'true': return V.TRUE;
                case 'false': return V.FALSE;
                case 'each': return V.obj(opaque(J, named, 'Object'));
                case 'promise': case 'promiseTrue': case 'thenable': { const p = J.promise(root, mode !== 'promiseTrue' ? V.obj(opaque(J, named, 'Object')) : V.TRUE, named); for (const x of p.o) { x.later = new Set([`await ${named}`]); if (mode === 'thenable') x.instanceOf = name => name === 'Object'; } return p; }
            }
            if (mode === 'falsy') return new V.Val(FALSY.p, FALSY.c, new Set(), new Set([`is:r(${o.name})`]));
            return V.obj(opaque(J, `r(${o.name})`, 'Object'));
        }
    };
    const I = new Interp(prog, withCopyModel(prog, hooks));
    I.exact = true;
    I.unroll = true;
    const K = new Kinds(I);
    const kh = K.hooks();
    for (const k of Object.keys(kh)) I.hooks[k] = I.hooks[k] ? chain(I.hooks[k], kh[k]) : kh[k];
    function chain(a, b) { return (...x) => a(...x) || b(...x); }
    I.initModules();
    // what earlier calls left in caches is unobservable (property P02): every call starts from the initial state
    const caches = [...I.moduleObjs.values()].filter(o => o.node && ((ts.isObjectLiteralExpression(o.node) && !o.node.properties.length) || (ts.isNewExpression(o.node) && !(o.node.arguments || []).length && /^(Map|WeakMap|Set|WeakSet)$/.test(o.cls))));
    const fresh = () => { for (const o of caches) if (o.fields.size || !o.rest.isBot()) { o.fields = new Map(); o.rest = V.BOT; I.ver++; } };

    function opaque(J, name, cls) {
        const o = J.param('P', name, cls);
        o.opaque = true;
        o.name = name;
        o.getProp = (_J, k) => (THEN.has(k) ? V.UNDEF : null);
        return o;
    }
    const root = prog.sources[0];
    // an argument that is itself an array: it stays one argument
    function inner(J, n) { const a = J.alloc(root, 'Array', 'given ' + n); a.shown = n; J.setProp(V.obj(a), '0', V.obj(opaque(J, n + '.0', 'Object')), root, 'init'); return V.obj(a); }
    function make(J, x, rest, list) {
        switch (x.t) {
            case 'fn': list.push(V.obj(opaque(J, x.name, 'Function'))); break;
            case 'val': list.push(V.obj(opaque(J, x.name, 'Object'))); break;
            case 'prom': { const p = J.promise(root, V.obj(opaque(J, x.name, 'Object')), 'given ' + x.name); for (const o of p.o) o.mayReject = true; list.push(p); break; }
            case 'const': list.push(x.v === undefined ? V.UNDEF : V.konst(x.v)); break;
            case 'rest': for (const n of names(x.name, rest)) list.push(rest === 3 && n === x.name + 2 ? inner(J, n) : rest === 'falsy' ? new V.Val(FALSY.p, FALSY.c, new Set(), new Set([`is:${n}`])) : V.obj(opaque(J, n, 'Object'))); break;
            case 'arr': { const a = J.alloc(root, 'Array', 'given ' + x.name); a.shown = x.name; x.items.forEach((y, i) => { const l = []; make(J, y, rest, l); J.setProp(V.obj(a), String(i), l[0], root, 'init'); }); list.push(V.obj(a)); break; }
            case 'obj': { const a = J.alloc(root, 'Object', 'given ' + (x.name || Object.keys(x.fields).join())); if (x.name) a.shown = x.name; a.initKeys = new Set(Object.keys(x.fields)); for (const [k, y] of Object.entries(x.fields)) { const l = []; make(J, y, rest, l); J.setProp(V.obj(a), k, l[0], root, 'init'); } list.push(V.obj(a)); break; }
            default: throw new Error(x.t);
        }
    }
    const names = (name, n) => (n === 'many' ? [`…${name}`] : Array.from({ length: n === 'falsy' ? 3 : n }, (_, i) => name + (i + 1)));
    // "f(…a)" with the number of further arguments of the case
    const expand = (w, n) => (n === 'many' ? w : w.split(' ; ').map(c => c.replace(/\((.*)\)$/, (_, a) => `(${a.split(', ').flatMap(x => (x.startsWith('…') ? names(x.slice(1), n) : [x])).join(', ')})`)).join(' ; '));

    function show(v, d = 0) {
        if (!v) return 'nothing';
        const a = new Set();
        let p = v.p;
        const rets = [...v.l].filter(x => x.startsWith('is:')).map(x => x.slice(3));
        for (const o of v.o) {
            if (o.shown) { a.add(o.shown); continue; }
            if (o.opaque) { a.add(o.name); continue; }
            if (o.org && /^(cbthrow|caught|rejected)$/.test(o.org.name)) { a.add('error'); p = 0; continue; }
            if (o.kind === 'func' || o.kind === 'bound' || o.kind === 'native') { a.add('function'); if (p === V.U) p = 0; continue; }
            if (o.kind === 'alloc' && o.cls === 'Promise' && d < 4) { a.add(`Promise<${show(o.rest, d + 1)}>`); continue; }
            if (o.kind === 'alloc' && o.cls === 'Array' && d < 4) { const els = I.positional(V.obj(o)); a.add(els ? `[${els.map(x => show(x, d + 1)).join(', ')}]` : `[${o.partial ? 'some of' : 'any number of'} ${show(I.elements(V.obj(o), root), d + 1)}]`); continue; }
            if (o.kind === 'alloc' && o.cls === 'Object' && d < 4 && o.rest.isBot() && !o.spread.length) { a.add(`{${[...o.fields].map(([k, x]) => `${String(k)}: ${show(x, d + 1)}`).join(', ')}}`); continue; }
            a.add(o.kind === 'alloc' ? `a new ${o.cls}` : o.cls === 'Unknown' || !o.cls ? 'something else' : `some ${o.cls}`);
        }
        if (p) {
            const c = V.consts(new V.Val(p, v.c, new Set(), v.l));
            if (rets.length && p === FALSY.p && c && c.length === 5) for (const r of rets) a.add(r);
            else if (c) for (const x of c) a.add(x === undefined ? 'undefined' : JSON.stringify(x));
            else if (p === V.U) a.add('undefined');
            else a.add(rets.length ? `part of ${rets.join('|')}` : 'some primitive');
        }
        return [...a].sort().join('|');
    }
    I.traces = (o, args, thisV) => {
        if (!o.opaque) return null;
        const self = thisV && [...thisV.o].find(x => x.opaque && x.cls !== 'Function');
        return `${self ? self.name + '.' : ''}${o.name}(${args.list.map(x => show(x)).join(', ')}${args.rest ? `${args.list.length ? ', ' : ''}${(args.spreadOf || []).some(x => x.partial) ? 'some of' : 'any number of'} ${show(args.rest)}` : ''})`;
    };
    function run(fn, c, m, rest) {
        mode = m;
        late = [];
        let stages;
        fresh();
        const build = (J, ins) => { const list = []; for (const x of ins) make(J, x, rest, list); return { list, rest: null }; };
        const r = I.analyse(fn, J => build(J, c.in), {
            escape: false,
            rounds: 40,
            after: (J, ret) => {
                stages = [{ words: J.curSt.tr, out: show(ret), ret }];
                let s = c.then, v = ret;
                while (s) {
                    const fs = [...v.o].filter(o => o.kind === 'func' || o.kind === 'bound');
                    if (!fs.length) break;
                    let out = V.BOT, words = new Set();
                    for (const o of fs) {
                        J.curSt = new State();
                        J.curSt.tr = EPS;
                        J.frame = null;
                        const q = J.callValue(V.obj(o), V.UNDEF, build(J, s.in), fn, J.curSt);
                        J.callDead = false;
                        out = V.join(out, q);
                        for (const w of J.curSt.tr) words.add(w);
                    }
                    stages.push({ words, out: show(out), ret: out });
                    v = out;
                    s = s.then;
                }
            }
        });
        return { stages, incomplete: r.incomplete, r, late };
    }
    // nothing and falsy results cannot be told from a missing result
    const expectOut = (out, m) => (m === 'falsy' ? out.replace(/r\([^|<>[\]]*\)(\|r\([^|<>[\]]*\))*\|undefined/g, x => x.replace(/\|undefined$/, '')).replace(/undefined\|(?=r\()/g, '') : out);
    // the analysis lost the order and number of the arguments, but none of the expected ones is missing
    function could(got, want) {
        if (got === want) return true;
        if (!got.includes('any number of ')) return false;
        const gs = got.split(' ; '), ws = want.split(' ; ');
        return gs.length === ws.length && gs.every((g, i) => loose(g, ws[i]));
    }
    // "f([any number of a|b])" agrees with "f([a, b, a])"
    function loose(g, w) {
        if (g === w) return true;
        const at = g.indexOf('any number of ');
        if (at < 0) return false;
        const from = at + 'any number of '.length;
        let d = 0, to = from;
        for (; to < g.length; to++) { const c = g[to]; if (/[([<{]/.test(c)) d++; else if (/[)\]>}]/.test(c) && --d < 0) break; else if (c === ',' && !d) break; }
        const pre = g.slice(0, at), post = g.slice(to);
        if (!w.startsWith(pre) || !w.endsWith(post)) return false;
        const split = (x, sep) => { const out = []; let n = 0, cur = ''; for (let i = 0; i < x.length; i++) { if (/[([<{]/.test(x[i])) n++; if (/[)\]>}]/.test(x[i])) n--; if (!n && x.startsWith(sep, i)) { out.push(cur); cur = ''; i += sep.length - 1; } else cur += x[i]; } return [...out, cur]; };
        const want = split(w.slice(pre.length, w.length - post.length), ', ');
        const have = split(g.slice(from, to), '|').flatMap(x => { const m = /^(.*?\bof )([^()]*\|.*)\)$/.exec(x); return m ? m[2].split('|').map(y => `${m[1]}${y})`) : [x]; });
        return want.every(x => x === '' || have.includes(x) || x.split('|').every(y => have.includes(y)));
    }
    return { could, run, expand, expectOut, show, I, fresh, V };
}
module.exports = { tracer };
