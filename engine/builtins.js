'use strict';
// Models of the JavaScript / Node built-ins the code calls: what they return, what they write to, which callbacks they invoke.
const V = require('./values');
const exact = require('./exact');
const { U, N, T, F, NUM, STR, BIG, SYM, ALLP, CONSTK, BOT, mk, UNDEF, NULLV, TRUE, FALSE, BOOL, NUMV, STRV, EMPTY, NOC, join, joinAll, konst, withL, consts, truthy, primsOnly, objsOnly } = V;

const STRING_METHODS = new Set(Object.getOwnPropertyNames(String.prototype).filter(k => k !== 'length' && k !== 'constructor'));
const NUMBER_METHODS = new Set(Object.getOwnPropertyNames(Number.prototype).filter(k => k !== 'constructor'));
const KNOWN_CLASSES = new Set(['Array', 'ReadonlyArray', 'Map', 'Set', 'WeakMap', 'WeakSet', 'RegExp', 'Promise', 'PromiseLike', 'Date', 'Function', 'Error', 'Buffer', 'URL', 'URLSearchParams', 'Uint8Array', 'ArrayBuffer']);
const SUB = { Buffer: ['Uint8Array', 'Object'], TypeError: ['Error', 'Object'], RangeError: ['Error', 'Object'], EvalError: ['Error', 'Object'], SyntaxError: ['Error', 'Object'], ReferenceError: ['Error', 'Object'] };
const isSub = (c, name) => c === name || name === 'Object' || (SUB[c] || []).includes(name);

const ARRAY_METHODS = new Set([...Object.getOwnPropertyNames(Array.prototype)].filter(k => k !== 'length' && k !== 'constructor'));
const protoMethods = {
    Array: ARRAY_METHODS,
    Map: new Set(Object.getOwnPropertyNames(Map.prototype)),
    Set: new Set(Object.getOwnPropertyNames(Set.prototype)),
    WeakMap: new Set(Object.getOwnPropertyNames(WeakMap.prototype)),
    WeakSet: new Set(Object.getOwnPropertyNames(WeakSet.prototype)),
    RegExp: new Set(['exec', 'test', 'toString', 'compile']),
    Promise: new Set(['then', 'catch', 'finally']),
    Function: new Set(['call', 'apply', 'bind', 'toString']),
    Date: new Set(Object.getOwnPropertyNames(Date.prototype))
};
const OBJECT_METHODS = new Set(['hasOwnProperty', 'toString', 'valueOf', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString']);
function methodOf(o, key) {
    const c = o.kind === 'func' || o.kind === 'class' || o.kind === 'bound' || o.kind === 'native' ? 'Function' : o.cls;
    if (protoMethods[c] && protoMethods[c].has(key)) return `${c}.prototype.${key}`;
    if (OBJECT_METHODS.has(key)) return `Object.prototype.${key}`;
    if (key === 'constructor') return c;
    return null;
}

// methods that change their receiver
const ARRAY_MUT = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin']);
const COLL_MUT = new Set(['set', 'add', 'delete', 'clear', 'append']);
const DATE_MUT = /^set(Date|Full|Hours|Milli|Minutes|Month|Seconds|Time|UTC|Year)/;
const BUF_MUT = /^(write|swap|fill|set|copyWithin|sort|reverse)/;

const GLOBAL_OBJECTS = new Set(['globalThis', 'window', 'self', 'global', 'document', 'navigator', 'process', 'console', 'Math', 'JSON', 'Reflect', 'Intl', 'Atomics', 'WebAssembly', 'performance', 'crypto', 'localStorage', 'sessionStorage', 'location', 'history', 'Bun', 'Deno']);
function typeofBuiltin(name) {
    const last = name.split('.').pop();
    if (name === 'undefined') return ['undefined'];
    if (GLOBAL_OBJECTS.has(name)) return ['object', 'undefined'];
    if (/\.prototype$/.test(name)) return ['object'];
    if (/^[A-Z]/.test(name) && !name.includes('.')) return ['function'];
    if (last === 'prototype' || last === 'env' || last === 'stdout' || last === 'stdin' || last === 'stderr' || last === 'versions') return ['object'];
    if (/^(encodeURI(Component)?|decodeURI(Component)?|parseInt|parseFloat|isNaN|isFinite)$/.test(name)) return ['function'];
    return ['function', 'object', 'undefined', 'string', 'number', 'boolean'];
}

function globalConst(name) {
    if (name === 'NaN') return konst(NaN);
    if (name === 'Infinity') return konst(Infinity);
    if (name === 'undefined') return UNDEF;
    return null;
}
const OS_LABEL = new Set(['PLATFORM']);
const ENV_LABEL = new Set(['ENV']);
function constant(owner, key) {
    if (owner === 'Math' && typeof Math[key] === 'number') return () => konst(Math[key]);
    if (owner === 'Number' && typeof Number[key] === 'number') return () => konst(Number[key]);
    if (owner === 'Symbol') return () => mk(SYM, null, EMPTY, new Set(['sym:' + key]));
    if (owner === 'process' || owner === 'global.process' || owner === 'globalThis.process') {
        if (key === 'platform' || key === 'arch' || key === 'version') return (I, n) => { I.event('nondet', n, { key: 'process.' + key, what: 'platform' }); return mk(STR, null, EMPTY, OS_LABEL); };
        if (key === 'env') return (I, n) => { I.event('nondet', n, { key: 'process.env', what: 'env' }); const h = I.hooks.onEnv && I.hooks.onEnv(I, n); if (h) return h; return I.unknownV(null, 'process.env', ENV_LABEL); };
        if (key === 'argv' || key === 'pid' || key === 'execPath' || key === 'versions' || key === 'release') return (I, n) => { I.event('nondet', n, { key: 'process.' + key, what: 'env' }); return I.unknownV(null, 'process.' + key, ENV_LABEL); };
    }
    if ((owner === 'os' && key === 'EOL')) return (I, n) => { I.event('nondet', n, { key: 'os.EOL', what: 'platform' }); return mk(STR, null, EMPTY, OS_LABEL); };
    if ((owner === 'path') && (key === 'sep' || key === 'delimiter')) return () => mk(STR, null, EMPTY, OS_LABEL);
    if (owner === 'fs.constants' || owner === 'os.constants' ) return () => NUMV;
    if ((key === 'length') && !owner.includes('.')) return () => NUMV;
    if (key === 'name' && /^[A-Z]/.test(owner)) return () => konst(owner.split('.').pop());
    if (/^(globalThis|window|self|global)$/.test(owner)) return (I) => join(V.obj(I.builtin(key)), UNDEF);
    return null;
}
const allLabels = (I, args, recvL = EMPTY) => {
    let l = recvL;
    for (const a of args.list) l = V.union(l, I.labelsDeep(a));
    if (args.rest) l = V.union(l, I.labelsDeep(args.rest));
    return l;
};
const arg = (I, args, i) => I.argAt(args, i);
const argsFrom = (args, i) => [...args.list.slice(i), ...(args.rest ? [args.rest] : [])];

// ---- calling a callback from a built-in ----
function cb(I, f, argVals, e, st, thisV = UNDEF) { return I.repeated(() => cbOnce(I, f, argVals, e, st, thisV)); }
function cbOnce(I, f, argVals, e, st, thisV = UNDEF) {
    if (!f || f.o.size === 0) return BOT;
    // may be called zero or more times: its effect on the state is joined by the cells; locals of the caller are not visible to it
    const sd = I.callDead;
    const r = I.callValue(objsOnly(f), thisV, { list: argVals, rest: null }, e, st);
    I.callDead = sd;
    return r;
}

function newArr(I, e, content, tag = 'arr') {
    const o = I.alloc(e, 'Array', tag);
    I.addRest(o, content);
    if (/^(filter|slice|splice|flat|flatMap|toSorted)$/.test(tag)) o.partial = true;
    return V.obj(o);
}

function callString(I, key, sv, args, e, st) {
    if (I.hooks.onMatch && ['match', 'search', 'replace', 'replaceAll'].includes(key)) { const r = I.hooks.onMatch(I, key, sv, arg(I, args, 0), e, args); if (r) return r; }
    // a hook may mark the provenance of text that is no longer the original
    if (I.hooks.markDerived && !['toString', 'valueOf'].includes(key)) sv = I.hooks.markDerived(sv);
    return callString1(I, key, sv, args, e, st);
}
function callString1(I, key, sv, args, e, st) {
    if (I.kinds) { const r = I.kinds.method(key, sv, args, e); if (r) return r; }
    const l = allLabels(I, args, sv.l);
    const c = consts(sv);
    const ac = args.rest ? null : args.list.map(consts);
    if (['replace', 'replaceAll'].includes(key)) {
        const pat = arg(I, args, 0), rep = arg(I, args, 1);
        const rl = cb(I, objsOnly(rep), [mk(STR, null, EMPTY, sv.l), mk(STR | U, null, EMPTY, sv.l), mk(STR | NUM | U, null, EMPTY, sv.l), mk(STR | NUM | U, null, EMPTY, sv.l)], e, st);
        if (I.hooks.onReplace) { const r = I.hooks.onReplace(I, e, sv, pat, rep, rl, key === 'replaceAll', st); if (r) return r; }
        if (I.exact && c && c.length === 1 && pat.o.size === 1 && !pat.p) {
            const [po] = pat.o, rc = consts(rep);
            const re = po.regex !== undefined ? po.regex : null;
            if (re && rc && rc.length === 1 && typeof rc[0] === 'string') { const i = re.lastIndexOf('/'); try { return withL(konst(c[0].replace(new RegExp(re.slice(1, i), re.slice(i + 1)), rc[0])), sv.l); } catch { /* not folded */ } }
        }
        const marked = (e ? V.markAll(sv.l, `~R${I.nid(e)}`) : sv.l);
        return mk(STR, null, EMPTY, V.union(marked, V.union(rl.l, primsOnly(rep).l)));
    }
    if (key === 'localeCompare' || key === 'toLocaleLowerCase' || key === 'toLocaleUpperCase') I.event('nondet', e, { key: 'String.' + key, what: 'locale' });
    // constant folding of pure string methods
    if (c && c.length && ac && ac.every(x => x && x.length === 1) && c.length <= 8 && typeof String.prototype[key] === 'function' && !['split', 'match', 'matchAll', 'localeCompare', 'toLocaleLowerCase', 'toLocaleUpperCase', 'concat', 'repeat'].includes(key)) {
        try {
            const rs = c.map(s => String.prototype[key].apply(s, ac.map(x => x[0])));
            if (rs.every(r => r === null || typeof r !== 'object')) return withL(joinAll(rs.map(konst)), l);
        } catch { /* not folded */ }
    }
    switch (key) {
        case 'length': return NUMV;
        case 'split': {
            const r = newArr(I, e, mk(STR, null, EMPTY, new Set([...sv.l])), 'split');
            for (const o of r.o) { const p0 = arg(I, args, 0); o.splitOf = args.list.length === 1 ? (o.splitOf ? { sv: join(o.splitOf.sv, sv), pat: join(o.splitOf.pat, p0) } : { sv, pat: p0 }) : null; }
            return r;
        }
        case 'match': {
            for (const o of arg(I, args, 0).o) if (o.regex === undefined && o.kind !== 'alloc') { /* unknown pattern */ }
            return join(NULLV, newArr(I, e, mk(STR | U, null, EMPTY, sv.l), 'match'));
        }
        case 'matchAll': return newArr(I, e, join(newArr(I, e, mk(STR | U, null, EMPTY, sv.l), 'matchAll1'), BOT), 'matchAll');
        case 'indexOf': case 'lastIndexOf': case 'search': case 'localeCompare': case 'charCodeAt': return mk(NUM, null, EMPTY, l);
        case 'codePointAt': return mk(NUM | U, null, EMPTY, l);
        case 'at': return mk(STR | U, null, EMPTY, sv.l);
        case 'includes': case 'startsWith': case 'endsWith': return BOOL;
        case 'concat': return I.concat([sv, ...args.list, ...(args.rest ? [args.rest] : [])], e);
        case 'padStart': case 'padEnd': return mk(STR, null, EMPTY, l);
        case 'repeat': { return mk(STR, null, EMPTY, sv.l); }
        case 'valueOf': case 'toString': return sv;
        case 'isWellFormed': return BOOL;
        case 'hasOwnProperty': return BOOL;
    }
    if (STRING_METHODS.has(key)) return mk(STR, null, EMPTY, sv.l);
    return nomethod(I, key, e);
}
function nomethod(I, key, e) {
    // calling a property the receiver does not have: a TypeError
    I.noteThrow(BOT, e, 'type:');
    I.event('typeerror', e, { key: 'method:' + key });
    I.callDead = true;
    return BOT;
}
// text made from a number, a boolean or nothing at all
const numText = (I, v, l) => (I.hooks.numText && !v.o.size && !(v.p & (STR | SYM)) ? I.hooks.numText(l) : l);
function callPrim(I, key, pv, args, e, st) {
    if (I.kinds) { const r = I.kinds.method(key, pv, args, e); if (r) return r; }
    const c = consts(pv);
    const ac = args.rest ? null : args.list.map(consts);
    if (c && c.length && c.length <= 8 && ac && ac.every(x => x && x.length === 1) && c.every(x => x != null && typeof x[key] === 'function') && key !== 'toLocaleString') {
        try { return withL(joinAll(c.map(x => konst(x[key](...ac.map(z => z[0]))))), allLabels(I, args, pv.l)); } catch { I.noteThrow(BOT, e); }
    }
    switch (key) {
        case 'toString': case 'toFixed': case 'toPrecision': case 'toExponential': case 'toLocaleString':
            if (key.startsWith('to') && key !== 'toString' && key !== 'toLocaleString' && !(pv.p & (NUM | SYM))) { if (!(pv.p & NUM)) return nomethod(I, key, e); }
            return mk(STR, null, EMPTY, numText(I, pv, pv.l));
        case 'valueOf': return pv;
        case 'hasOwnProperty': case 'isPrototypeOf': case 'propertyIsEnumerable': return BOOL;
    }
    return nomethod(I, key, e);
}

const PURE_OBJ_METHODS = new Set(['hasOwnProperty', 'isPrototypeOf', 'propertyIsEnumerable']);

// a method call on one object
function callMethod(I, key, o, args, e, st, callee) {
    const r = callMethod1(I, key, o, args, e, st, callee);
    // how many elements the result has
    if (I.hooks.onSpreadCall && key === 'concat' && r.o.has(o)) o.grown = true;
    if (I.hooks.onSpreadCall && o.cls === 'Array') for (const x of r.o) if (x !== o && x.kind === 'alloc' && x.cls === 'Array' && x.node === e) { x.sizeOf = x.sizeOf || []; if (x.sizeOf.length < 20) { x.sizeOf.push([V.obj(o), null, key === 'concat']); if (key === 'concat') for (const a of argsFrom(args, 0)) x.sizeOf.push([objsOnly(a), null]); } }
    return r;
}
function callMethod1(I, key, o, args, e, st, callee) {
    const ov = V.obj(o);
    let cls = o.cls;
    if (o.kind === 'atom') cls = o.cls;
    if (o.kind === 'func' || o.kind === 'bound' || o.kind === 'class' || o.kind === 'native') cls = 'Function';
    if (I.kinds && o.kind === 'alloc' && o.cls === 'Array') { const r = I.kinds.literal(I, o, key, args, e, st); if (r) return r; }
    if (I.exact && o.kind === 'alloc' && o.cls === 'Array') { const r = exact.arrayMethod(I, o, key, args, e, st); if (r) return r; }
    if (I.hooks.onTest && cls === 'RegExp' && (key === 'test' || key === 'exec')) { const r = I.hooks.onTest(I, o, arg(I, args, 0), e, key); if (r) return r; }
    if (I.kinds && o.regex !== undefined) { const r = I.kinds.method(key, ov, args, e); if (r) return r; }
    const a0 = arg(I, args, 0), a1 = arg(I, args, 1);
    const unk = cls === 'Unknown' || o.lazy;
    if (o.methodCall) { const r = o.methodCall(I, key, args, e, st); if (r) return r; }
    const isCls = c => cls === c || (cls === 'Unknown' && o.lazy);
    const contents = () => I.elements(ov, e);

    if (cls === 'Unknown' && o.lazy && STRING_METHODS.has(key) && !ARRAY_METHODS.has(key) && !OBJECT_METHODS.has(key)) return callString(I, key, mk(STR, null, EMPTY, o.l), args, e, st);
    // --- receivers we know nothing about: use the name, but prefer the static type when it names another class
    if (isCls('Array')) {
        if (ARRAY_MUT.has(key)) {
            I.mutate(ov, '[]', e, key);
            if (key === 'push' || key === 'unshift') { for (const v of argsFrom(args, 0)) I.addRest(o, v); if (I.hooks.onGrow) I.hooks.onGrow(I, o, args, e); return NUMV; }
            if (key === 'pop' || key === 'shift') return join(contents(), UNDEF);
            if (key === 'splice') { for (const v of argsFrom(args, 2)) I.addRest(o, v); return newArr(I, e, contents(), 'splice'); }
            if (key === 'sort') { const c = contents(); cb(I, a0, [c, c], e, st); return ov; }
            if (key === 'fill') { I.addRest(o, a0); return ov; }
            return ov;
        }
        const c = () => contents();
        switch (key) {
            case 'map': { const el = c(); return newArr(I, e, cb(I, a0, [el, NUMV, ov], e, st, a1), 'map'); }
            case 'forEach': { cb(I, a0, [c(), NUMV, ov], e, st, a1); return UNDEF; }
            case 'filter': { const el = c(); cb(I, a0, [el, NUMV, ov], e, st, a1); return newArr(I, e, el, 'filter'); }
            case 'find': case 'findLast': { const el = c(); cb(I, a0, [el, NUMV, ov], e, st, a1); return join(el, UNDEF); }
            case 'findIndex': case 'findLastIndex': cb(I, a0, [c(), NUMV, ov], e, st, a1); return NUMV;
            case 'some': case 'every': cb(I, a0, [c(), NUMV, ov], e, st, a1); return BOOL;
            case 'flatMap': { const r = cb(I, a0, [c(), NUMV, ov], e, st, a1); return newArr(I, e, join(primsOnly(r), join(I.elements(objsOnly(r), e), r)), 'flatMap'); }
            case 'reduce': case 'reduceRight': {
                const el = c();
                let acc = args.list.length > 1 ? a1 : el;
                for (let i = 0; i < 4; i++) { const n = join(acc, cb(I, a0, [acc, el, NUMV, ov], e, st)); if (n.sig === acc.sig) break; acc = n; }
                return acc;
            }
            case 'slice': case 'toReversed': case 'toSpliced': case 'with':
                if (key === 'slice' && cls === 'Array' && !args.list.length && !args.rest) { const kn = I.positional(ov); if (kn) { const r = I.alloc(e, 'Array', 'slice'); kn.forEach((v, i) => I.setProp(V.obj(r), String(i), v, e, 'init')); return V.obj(r); } }
                if (cls === 'Array' || !(callee && false)) { const r = newArr(I, e, c(), 'slice'); if (cls === 'Unknown') return join(r, BOT); return r; }
                break;
            case 'toSorted': { const el = c(); cb(I, a0, [el, el], e, st); return newArr(I, e, el, 'toSorted'); }
            case 'concat': { let r = c(); for (const v of argsFrom(args, 0)) { r = join(r, primsOnly(v)); for (const x of v.o) r = join(r, x.cls === 'Array' ? I.elements(V.obj(x), e) : x.lazy ? join(V.obj(x), I.elements(V.obj(x), e)) : V.obj(x)); } return newArr(I, e, r, 'concat'); }
            case 'flat': { let r = c(); for (let i = 0; i < 3; i++) r = join(r, I.elements(objsOnly(r), e)); return newArr(I, e, r, 'flat'); }
            case 'join': {
                const el = c();
                // split and join again: a replacement
                if (o.splitOf && !o.fields.size && !o.spread.length && I.hooks.onReplace) { const r = I.hooks.onReplace(I, e, o.splitOf.sv, o.splitOf.pat, a0, V.BOT, true, st); if (r) return r; }
                return mk(STR, null, EMPTY, V.union(I.labelsDeep(el), a0.l));
            }
            case 'indexOf': case 'lastIndexOf': return NUMV;
            case 'includes': return BOOL;
            case 'at': return join(c(), UNDEF);
            case 'keys': if (cls === 'Array') return newArr(I, e, NUMV, 'keys'); break;
            case 'values': if (cls === 'Array') return newArr(I, e, c(), 'values'); break;
            case 'entries': if (cls === 'Array') { const p = I.alloc(e, 'Array', 'ent'); I.setProp(V.obj(p), '0', NUMV, e, 'init'); I.setProp(V.obj(p), '1', c(), e, 'init'); return newArr(I, e, V.obj(p), 'entries'); } break;
            case 'toString': case 'toLocaleString': return mk(STR, null, EMPTY, I.labelsDeep(c()));
        }
    }
    if (['Map', 'Set', 'WeakMap', 'WeakSet'].includes(cls) || (unk && cls === 'Unknown')) {
        const isMap = cls === 'Map' || cls === 'WeakMap';
        if (COLL_MUT.has(key)) {
            I.mutate(ov, '[]', e, key);
            if (key === 'set') { I.setProp(ov, '@k', a0, e, 'init'); I.addRest(o, a1); return ov; }
            if (key === 'add') { I.addRest(o, a0); return ov; }
            if (key === 'delete') return BOOL;
            return UNDEF;
        }
        if (cls !== 'Unknown') {
            const mkeys = () => (isMap ? o.fields.get('@k') || (o.lazy ? I.childV(o, '@k') : BOT) : o.rest);
            switch (key) {
                case 'get': return join(o.lazy ? join(o.rest, I.childV(o, null)) : o.rest, UNDEF);
                case 'has': return BOOL;
                case 'forEach': cb(I, a0, [o.lazy ? I.childV(o, null) : o.rest, mkeys(), ov], e, st); return UNDEF;
                case 'keys': return newArr(I, e, isMap ? mkeys() : contents(), 'keys');
                case 'values': return newArr(I, e, isMap ? (o.lazy ? I.childV(o, null) : o.rest) : contents(), 'values');
                case 'entries': return newArr(I, e, contents(), 'entries');
            }
        }
    }
    if (cls === 'RegExp' || (unk && cls === 'Unknown' && (key === 'exec' || key === 'test'))) {
        if (key === 'exec' || key === 'test') {
            const fl = o.regex !== undefined ? o.regex.slice(o.regex.lastIndexOf('/') + 1) : o.flags;
            if (fl === undefined || fl === null || /[gy]/.test(fl)) I.mutate(ov, 'lastIndex', e, key);
            if (key === 'test') return BOOL;
            return join(NULLV, newArr(I, e, mk(STR | U, null, EMPTY, V.union(a0.l, I.labelsDeep(a0))), 'exec'));
        }
    }
    if (cls === 'Promise' || (unk && ['then', 'catch', 'finally'].includes(key))) {
        if (key === 'then' || key === 'catch' || key === 'finally') {
            const val = I.awaited(ov, e);
            let r = BOT;
            const rejected = I.unknownV(e, 'rejected');
            const later = new Map();
            let fails = false;
            const guardCb = f => { const fr = I.frame; const s = fr && fr.throwStates; if (fr) fr.throwStates = [{ states: [], val: BOT, hit: false }]; const q = f(); if (fr) { for (const [k, n] of fr.throwStates[0].reasons || []) later.set(k, n); if (fr.throwStates[0].hit) fails = true; fr.throwStates = s; } if (I.hooks.reasons) for (const x of q.o) if (x !== o) for (const [k, n] of I.rejects(x)) later.set(k, n); return q; };
            I.awaitTr(ov);
            const own = I.hooks.reasons ? I.rejects(o) : null, handler = key === 'catch' ? a0 : key === 'then' ? a1 : BOT;
            const handle = f => { if (!own) return f(); (I.catching || (I.catching = [])).push(own); try { return f(); } finally { I.catching.pop(); } };
            if (key === 'then') I.either(() => { r = join(r, a0.o.size ? guardCb(() => cbOnce(I, a0, [val], e, st)) : val); }, () => { if (a1.o.size && !o.fulfils) r = join(r, handle(() => guardCb(() => cbOnce(I, a1, [rejected], e, st)))); });
            else if (key === 'catch' && o.fulfils) r = val;
            else if (key === 'catch') I.maybe(() => { r = join(val, handle(() => guardCb(() => cbOnce(I, a0, [rejected], e, st)))); });
            else { guardCb(() => cbOnce(I, a0, [], e, st)); r = val; }
            const p = I.promise(e, r, 'then');
            if (o.mayReject && !(handler.o.size > 0)) fails = true;
            if (fails) for (const x of p.o) if (!x.mayReject) { x.mayReject = true; I.ver++; }
            if (I.hooks.reasons) {
                const handled = handler.o.size > 0;
                for (const x of p.o) { I.addRejects(x, later); if (!handled) I.addRejects(x, own); if (x.reasons && x.reasons.size) x.mayReject = true; }
                if (handled && I.hooks.onCaught && own.size) {
                    // a handler that always throws passes the failure on
                    const fns = [...handler.o].filter(x => x.kind === 'func');
                    // one that may also end with a value of its own does not, whatever else it throws
                    const plain = fns.some(x => I.endsPlainly(x));
                    const rs = new Map([...own].filter(([k]) => plain ? !(I.handed && I.handed.has(own)) : !later.has(k)));
                    if (rs.size && (!fns.length || fns.some(x => I.canReturn(x)))) I.hooks.onCaught(I, e, rs, I.frame, handler);
                }
            }
            if (I.hooks.onThen) I.hooks.onThen(I, key, o, args, e, p);
            return p;
        }
    }
    if (cls === 'Date' && DATE_MUT.test(key)) { I.mutate(ov, '[date]', e, key); return NUMV; }
    if (cls === 'Date') { if (/^get|^valueOf/.test(key)) return mk(NUM, null, EMPTY, o.l); return mk(STR, null, EMPTY, o.l); }
    if (/Array$|Buffer/.test(cls) && cls !== 'Array' && BUF_MUT.test(key)) { I.mutate(ov, '[]', e, key); return ov; }
    if (unk && cls === 'Unknown' && DATE_MUT.test(key)) { I.mutate(ov, '[date]', e, key); return NUMV; }
    if (cls === 'Function' && ['call', 'apply', 'bind'].includes(key)) return I.callCAB(key, ov, args, e, st);
    if (PURE_OBJ_METHODS.has(key)) return BOOL;
    if (key === 'toString' || key === 'toLocaleString') {
        if (o.cls === 'Function' || o.kind === 'func') return mk(STR);
        if (o.lazy) { I.event('usercall', e, { key: 'toString', obj: o }); I.noteThrow(BOT, e, 'convert:'); }
        return mk(STR, null, EMPTY, I.labelsDeep(ov));
    }
    if (key === 'valueOf') return ov;
    if (key === 'next' && (cls === 'Iterator' || cls === 'Array')) { const r = I.alloc(e, 'Object', 'iterres'); I.setProp(V.obj(r), 'value', join(contents(), UNDEF), e, 'init'); I.setProp(V.obj(r), 'done', BOOL, e, 'init'); return V.obj(r); }
    if (o.lazy || o.kind === 'instance') {
        // a method of an object from outside
        const caller = o.org.t === 'P' || o.org.t === 'R';
        const name = (o.tag || o.org.name || '?') + '.' + key;
        I.event(caller ? 'callmethod' : 'extmethod', e, { key: o.key + '.' + key, obj: o, name: key, full: name, args });
        if (I.hooks.onExtMethod) I.hooks.onExtMethod(I, o, key, args, e, st);
        I.invokeArgs(args, e, st);
        if (/^(on|once|addListener|addEventListener|setEncoding|pause|resume|unref|ref|off|removeListener|prependListener|setTimeout|unpipe)$/.test(key)) return ov;
        const ret = I.unknown(e, 'm.' + key, V.union(o.l, allLabels(I, args)));
        if (caller) { ret.org = { t: 'C', name: `ret(${o.org.name}.${key})` }; }
        else { ret.org = { t: o.org.t === 'G' ? 'X' : o.org.t, name: ret.tag }; if (I.hooks.reasons) ret.extName = key; }
        if (o.org.t === 'M') ret.org = { t: 'X', name: 'm.' + key };
        return new V.Val(ALLP, null, new Set([ret]), ret.l);
    }
    if (o.cls === 'Object' || o.kind === 'alloc') {
        // a method an internal object does not have
        if (o.rest.o.size || o.spread.length) {
            I.invokeArgs(args, e, st);
            return I.unknownV(e, 'om.' + key, allLabels(I, args));
        }
        if (o.cls === 'Array' || o.cls === 'Object') return nomethod(I, key, e);
        I.invokeArgs(args, e, st);
        return I.unknownV(e, 'om.' + key, allLabels(I, args, I.labelsDeep(ov)));
    }
    I.invokeArgs(args, e, st);
    return I.unknownV(e, 'm.' + key, allLabels(I, args));
}

// built-in functions that write to one of their arguments: name -> argument index
const WRITES = {
    'Object.assign': 0, 'Object.defineProperty': 0, 'Object.defineProperties': 0, 'Object.setPrototypeOf': 0, 'Object.freeze': 0, 'Object.seal': 0, 'Object.preventExtensions': 0,
    'Reflect.set': 0, 'Reflect.deleteProperty': 0, 'Reflect.defineProperty': 0, 'Reflect.setPrototypeOf': 0, 'Reflect.preventExtensions': 0,
    'crypto.getRandomValues': 0, 'crypto.randomFillSync': 0, 'crypto.randomFill': 0, 'crypto.webcrypto.getRandomValues': 0, 'globalThis.crypto.getRandomValues': 0,
    'fs.readSync': 1, 'fs.read': 1, 'Atomics.store': 0, 'Atomics.add': 0, 'Atomics.exchange': 0
};
const NONDET = {
    'Math.random': 'random', 'Date.now': 'clock', 'performance.now': 'clock', 'crypto.randomBytes': 'random', 'crypto.randomInt': 'random', 'crypto.randomUUID': 'random', 'crypto.getRandomValues': 'random', 'crypto.webcrypto.getRandomValues': 'random', 'process.hrtime': 'clock', 'process.hrtime.bigint': 'clock', 'process.uptime': 'clock', 'process.cwd': 'env', 'os.platform': 'platform', 'os.hostname': 'env', 'os.homedir': 'env', 'os.tmpdir': 'env', 'os.userInfo': 'env', 'os.cpus': 'env'
};
const PURE_GLOBALS = /^(Math|JSON|Number|String|Boolean|Object|Array|Reflect|Symbol|BigInt|Date|Promise|RegExp|Map|Set|WeakMap|WeakSet|Error|TypeError|RangeError|EvalError|SyntaxError|ReferenceError|Intl|parseInt|parseFloat|isNaN|isFinite|encodeURIComponent|decodeURIComponent|encodeURI|decodeURI|escape|unescape|structuredClone|URL|URLSearchParams|Buffer|ArrayBuffer|Uint8Array|TextEncoder|TextDecoder|path|util|url|querystring|Proxy|Function|btoa|atob|SharedArrayBuffer|DataView|WeakRef|Atomics|Iterator)(\.|$)/;

function fold(args, f) {
    if (args.rest) return null;
    const cs = args.list.map(consts);
    if (!cs.every(c => c && c.length)) return null;
    let n = 1;
    for (const c of cs) n *= c.length;
    if (n > 16) return null;
    let combos = [[]];
    for (const c of cs) combos = combos.flatMap(p => c.map(x => [...p, x]));
    try {
        const rs = combos.map(p => f(...p));
        if (rs.some(r => (typeof r === 'object' && r !== null) || typeof r === 'function')) return null;
        return joinAll(rs.map(konst));
    } catch { return null; }
}
const CTORS = { Array, Object, String, Number, Boolean };

function callBuiltin(I, name0, thisV, args, e, st) {
    let name = name0.replace(/^(globalThis|window|self|global)\./, '');
    const a0 = arg(I, args, 0), a1 = arg(I, args, 1), a2 = arg(I, args, 2);
    const l = allLabels(I, args);
    I.event('ext', e, { key: name, name, args, thisV, merge: ev => { ev.allArgs = (ev.allArgs || [ev.args]); if (ev.allArgs.length < 40) ev.allArgs.push(args); } });
    if (I.hooks.onExt) { const r = I.hooks.onExt(I, name, args, e, st, thisV); if (r) return r; }
    if (I.exact) { const r = exact.globalFn(I, name, args, e, st); if (r) return r; }
    if (NONDET[name]) I.event('nondet', e, { key: name, what: NONDET[name] });
    const m = /^([A-Za-z]+)\.prototype\.(\w+)$/.exec(name);
    if (m) {
        // X.prototype.m used as a function value
        if (name === 'Object.prototype.toString') return tagOf(I, thisV);
        let r = BOT;
        let live = false;
        const call = f => { const v = f(); if (I.callDead) I.callDead = false; else { live = true; r = join(r, v); } };
        if (thisV.p & STR) call(() => callString(I, m[2], V.restrict(primsOnly(thisV), STR), args, e, st));
        if (thisV.p & ~(STR | U | N)) call(() => callPrim(I, m[2], primsOnly(V.restrict(thisV, ALLP & ~(STR | U | N))), args, e, st));
        for (const o of thisV.o) {
            if (m[1] === 'Array' && o.lazy && o.cls === 'Unknown') { const sv = o.cls; o.cls = 'Array'; call(() => callMethod(I, m[2], o, args, e, st)); o.cls = sv; }
            else if (m[1] === 'Array' && o.kind === 'alloc' && o.cls !== 'Array') { const sv = o.cls; o.cls = 'Array'; call(() => callMethod(I, m[2], o, args, e, st)); o.cls = sv; }
            else call(() => callMethod(I, m[2], o, args, e, st));
        }
        if (!live && !thisV.isBot()) I.callDead = true;
        return r;
    }
    const mm = /^([A-Za-z]+)\.prototype\.(\w+)\.(call|apply|bind)$/.exec(name);
    if (mm) return I.callCAB(mm[3], V.obj(I.builtin(`${mm[1]}.prototype.${mm[2]}`)), args, e, st);
    const cab = /^(.*)\.(call|apply|bind)$/.exec(name);
    if (cab) return I.callCAB(cab[2], V.obj(I.builtin(cab[1])), args, e, st);
    if (name in WRITES) {
        const t = arg(I, args, WRITES[name]);
        const keyV = /defineProperty|Reflect\.(set|deleteProperty)/.test(name) ? I.keysOf(a1) : null;
        for (const k of keyV || ['[]']) I.mutate(t, k, e, name);
        if (!keyV && /defineProperty$|Reflect\.set/.test(name) && I.hooks.onDynWrite) I.hooks.onDynWrite(I, e, t, a1, st);
    }
    switch (name) {
        case 'Object.assign': { for (const o of a0.o) I.assignAll(o, argsFrom(args, 1), e); if (I.hooks.onAssign) I.hooks.onAssign(I, args, e); return objsOnly(a0).o.size ? objsOnly(a0) : a0; }
        case 'Object.freeze': case 'Object.seal': case 'Object.preventExtensions': if (name === 'Object.freeze') for (const o of a0.o) o.frozen = true; return a0;
        case 'Object.setPrototypeOf': return a0;
        case 'Object.defineProperty': case 'Reflect.defineProperty': {
            const ks = I.keysOf(a1);
            const val = I.getProp(a2, 'value', e);
            const get = I.getProp(a2, 'get', e);
            let v = val;
            for (const f of get.o) if (f.kind === 'func') v = join(v, I.callFn(f, a0, { list: [], rest: null }, e));
            I.setProp(a0, ks && ks.length === 1 ? ks[0] : null, v, e, 'init');
            for (const g of I.getProp(a2, 'set', e).o) if (g.kind === 'func') I.invokeUnknown(g, e, st);
            return name[0] === 'O' ? a0 : BOOL;
        }
        case 'Object.defineProperties': return a0;
        case 'Reflect.set': { const ks = I.keysOf(a1); I.setProp(a0, ks && ks.length === 1 ? ks[0] : null, a2, e, 'init'); return BOOL; }
        case 'Reflect.deleteProperty': return BOOL;
        case 'Reflect.get': { const ks = I.keysOf(a1); return I.getProp(a0, ks && ks.length === 1 ? ks[0] : null, e); }
        case 'Reflect.has': return BOOL;
        case 'Reflect.ownKeys': case 'Object.keys': case 'Object.getOwnPropertyNames': return newArr(I, e, objKeys(I, a0), 'keys');
        case 'Object.getOwnPropertySymbols': return newArr(I, e, mk(SYM), 'syms');
        case 'Object.values': return newArr(I, e, I.elements(a0, e), 'values');
        case 'Object.entries': { const p = I.alloc(e, 'Array', 'entry'); I.setProp(V.obj(p), '0', objKeys(I, a0), e, 'init'); I.setProp(V.obj(p), '1', I.elements(a0, e), e, 'init'); return newArr(I, e, V.obj(p), 'entries'); }
        case 'Object.fromEntries': { const o = I.alloc(e, 'Object', 'fromEntries'); const en = I.elements(a0, e); I.addRest(o, I.getProp(en, '1', e)); return V.obj(o); }
        case 'Object.create': { const o = I.alloc(e, 'Object', 'create'); const c = consts(a0); if (c && c.length === 1 && c[0] === null) o.nullProto = true; else for (const s of a0.o) if (s.kind !== 'builtin' && !o.spread.includes(s)) { o.spread.push(s); } return V.obj(o); }
        case 'Object.getPrototypeOf': case 'Reflect.getPrototypeOf': case 'Object.getOwnPropertyDescriptor': case 'Reflect.getOwnPropertyDescriptor':
            if (I.hooks.protoOf && /PrototypeOf/.test(name)) { const r = I.hooks.protoOf(I, a0); if (r) return r; }
            if (/Descriptor/.test(name)) { const o = I.alloc(e, 'Object', 'desc'); const ks = I.keysOf(a1); I.setProp(V.obj(o), 'value', I.getProp(a0, ks && ks.length === 1 ? ks[0] : null, e), e, 'init'); I.addRest(o, ANY(I, e)); return join(V.obj(o), UNDEF); }
            return new V.Val(N, NOC, new Set([I.unknown(e, 'proto')]), EMPTY);
        case 'Object.getOwnPropertyDescriptors': return I.unknownV(e, 'descs', l);
        case 'Object.is': { const r = fold(args, Object.is); return r || BOOL; }
        case 'Object.isFrozen': case 'Object.isSealed': case 'Object.isExtensible': return BOOL;
        case 'Object.hasOwn': return BOOL;
        case 'Object': return a0.p & (U | N) ? join(V.obj(I.alloc(e, 'Object')), a0) : a0;
        case 'Array.isArray': return isArrayOf(I, a0);
        case 'Array.from': {
            let el = I.elements(a0, e);
            if (a1.o.size) el = cb(I, a1, [join(el, UNDEF), NUMV], e, st);
            return newArr(I, e, el, 'from');
        }
        case 'Array.of': return newArr(I, e, argsFrom(args, 0).reduce(join, BOT), 'of');
        case 'Array': return construct(I, 'Array', args, e, st);
        case 'Number': case 'parseFloat': case 'Number.parseFloat': case 'parseInt': case 'Number.parseInt': {
            const f = { Number, parseFloat, 'Number.parseFloat': parseFloat, parseInt, 'Number.parseInt': parseInt }[name];
            const r = args.list.length ? fold(args, f) : konst(f(...(name === 'Number' ? [] : [undefined])));
            if (a0.p & SYM) I.noteThrow(BOT, e);
            return r ? withL(r, l) : mk(NUM, null, EMPTY, l);
        }
        case 'String': { const r = fold(args, String); return r ? withL(r, l) : mk(STR, null, EMPTY, numText(I, a0, l)); }
        case 'Boolean': { const t = truthy(a0); return mk((t.t ? T : 0) | (t.f ? F : 0)); }
        case 'BigInt': { const r = fold(args, BigInt); if (!r) I.noteThrow(BOT, e, 'ext:BigInt'); return r || mk(BIG, null, EMPTY, l); }
        case 'Symbol': case 'Symbol.for': return mk(SYM);
        case 'isNaN': case 'isFinite': case 'Number.isNaN': case 'Number.isFinite': case 'Number.isInteger': case 'Number.isSafeInteger': {
            const f = name.startsWith('Number.') ? Number[name.slice(7)] : globalThis[name];
            const r = fold(args, f);
            if (r) return r;
            if (name.startsWith('Number.') && !(a0.p & NUM)) return FALSE;
            return BOOL;
        }
        case 'String.fromCharCode': case 'String.fromCodePoint': { const r = fold(args, name === 'String.fromCharCode' ? String.fromCharCode : String.fromCodePoint); return r || mk(STR, null, EMPTY, l); }
        case 'String.raw': return mk(STR, null, EMPTY, l);
        case 'JSON.stringify': if (a1.o.size) cb(I, a1, [STRV, I.elements(a0, e)], e, st); I.noteThrow(BOT, e, 'ext:JSON.stringify'); if ([...a0.o].some(o => o.lazy)) I.event('usercall', e, { key: 'toJSON' }); return mk(STR | U, null, EMPTY, l);
        case 'JSON.parse': I.noteThrow(BOT, e, 'ext:JSON.parse'); return I.unknownV(e, 'json', l);
        case 'structuredClone': I.noteThrow(BOT, e, 'ext:structuredClone'); return I.unknownV(e, 'clone', l);
        case 'Reflect.apply': return I.callCAB('apply', a0, { list: args.list.slice(1), rest: args.rest }, e, st);
        case 'Reflect.construct': return I.unknownV(e, 'construct', l);
        case 'util.promisify': {
            const o = I.alloc(e, 'Function', 'promisified');
            o.kind = 'native';
            o.impl = (I2, t, a, e2, st2) => {
                let l = allLabels(I2, a);
                for (const f of a0.o) {
                    if (f.kind === 'builtin') { const r = callBuiltin(I2, f.name, UNDEF, a, e2, st2); if (I2.hooks.onExt) l = I2.labelsDeep(r); }
                    else if (f.callable || f.lazy) I2.callValue(V.obj(f), UNDEF, { list: [...a.list, V.obj(I2.builtin('callback'))], rest: a.rest }, e2, st2);
                }
                const res = I2.unknownV(e2, 'promisified', l);
                const p = I2.promise(e2, res, 'promisified');
                for (const x of p.o) { x.mayReject = true; if (I2.hooks.reasons) for (const f of a0.o) I2.addRejects(x, new Map([[f.kind === 'builtin' ? 'ext:' + f.name : 'callback:' + f.org.name, e2]])); }
                return p;
            };
            return V.obj(o);
        }
        case 'Promise.resolve': { const p = I.promise(e, a0, 'resolve'); if ([...a0.o].some(x => x.mayReject)) for (const o of p.o) o.mayReject = true; if (I.hooks.reasons) for (const o of p.o) for (const x of a0.o) I.addRejects(o, I.rejects(x)); return p; }
        case 'Promise.reject': { const p = I.promise(e, BOT, 'reject'); for (const o of p.o) { o.mayReject = true; if (I.hooks.reasons) { const m = new Map(); I.passOn(m); I.addRejects(o, m); } } return p; }
        case 'Promise.all': case 'Promise.allSettled': case 'Promise.race': case 'Promise.any': {
            const el = I.elements(a0, e);
            const aw = I.awaited(el, e);
            let inner = aw;
            if (name === 'Promise.allSettled') { const o = I.alloc(e, 'Object', 'settled'); I.setProp(V.obj(o), 'value', join(aw, UNDEF), e, 'init'); I.setProp(V.obj(o), 'status', STRV, e, 'init'); I.setProp(V.obj(o), 'reason', I.unknownV(e, 'reason'), e, 'init'); inner = V.obj(o); }
            const known = I.exact && name === 'Promise.all' && I.positional(a0);
            const r = known ? exact.tuple(I, e, 'pallv', known.map(x => I.awaited(x, e))) : name === 'Promise.all' || name === 'Promise.allSettled' ? newArr(I, e, inner, 'pallv') : inner;
            const p = I.promise(e, r, 'pall');
            if (I.traces && /all/.test(name)) {
                const ps = known || I.exact && I.positional(a0);
                let l;
                if (ps) {
                    // all of them come to their end, or one fails after those before it
                    let ok = new Set(['']);
                    const bad = new Set();
                    for (const x of ps) {
                        const ls = [...x.o].filter(y => y.later);
                        if (!ls.length) continue;
                        const all = [...new Set(ls.flatMap(y => [...y.later]))];
                        for (const w of I.seqTr(ok, new Set(all.filter(w => w.endsWith('!'))))) bad.add(w);
                        ok = I.seqTr(ok, new Set(all.filter(w => !w.endsWith('!'))));
                    }
                    l = new Set([...ok, ...(name === 'Promise.all' ? bad : [])]);
                } else {
                    const ns = [...el.o].filter(x => x.later).flatMap(x => [...x.later]).filter(w => w && w !== '!');
                    l = new Set([ns.length ? `any number of ${[...new Set(ns)].join('|')}` : '']);
                }
                if (l.size !== 1 || !l.has('')) for (const o of p.o) if (!o.later || [...l].some(w => !o.later.has(w))) { o.later = new Set([...(o.later || []), ...l]); I.ver++; }
            }
            if (name !== 'Promise.allSettled') for (const o of p.o) for (const x of el.o) { if (x.mayReject || x.lazy) o.mayReject = true; if (I.hooks.reasons) I.addRejects(o, I.rejects(x)); }
            if (I.hooks.onCaught && (name === 'Promise.allSettled' || name === 'Promise.any')) { const m = new Map(); for (const x of el.o) for (const [k, n] of I.rejects(x)) m.set(k, n); if (m.size) I.hooks.onCaught(I, e, m, I.frame); }
            return p;
        }
        case 'setTimeout': case 'setInterval': case 'setImmediate': case 'process.nextTick': case 'queueMicrotask': case 'requestAnimationFrame': case 'requestIdleCallback': {
            const save = I.frame && I.frame.throwStates;
            if (I.frame) I.frame.throwStates = [{ states: [], val: BOT, hit: false }];
            (name === 'setInterval' ? cb : cbOnce)(I, a0, args.list.slice(name.startsWith('set') && name !== 'setImmediate' ? 2 : 1), e, st);
            if (I.frame && I.hooks.onEscape && I.frame.throwStates[0].hit) I.hooks.onEscape(I, null, e, I.frame.throwStates[0].reasons || new Map());
            if (I.frame) I.frame.throwStates = save;
            return new V.Val(NUM, null, new Set([I.unknown(e, 'timer')]), EMPTY);
        }
        case 'clearTimeout': case 'clearInterval': case 'clearImmediate': return UNDEF;
        case 'RegExp': return construct(I, 'RegExp', args, e, st);
        case 'Function': return construct(I, 'Function', args, e, st);
        case 'Date': I.event('nondet', e, { key: 'Date', what: 'clock' }); return STRV;
        case 'Error': case 'TypeError': case 'RangeError': case 'EvalError': case 'SyntaxError': case 'ReferenceError': return construct(I, name, args, e, st);
        case 'path.join': case 'path.resolve': case 'path.posix.join': case 'path.win32.join': case 'path.normalize': case 'path.dirname': {
            // the first piece is the root of the result; later pieces are segments beneath it
            return pathJoin(I, args, name);
        }
        case 'path.basename': case 'path.extname': case 'path.relative': return mk(STR, null, EMPTY, V.markAll(l, '~seg'));
        case 'path.isAbsolute': return BOOL;
        case 'encodeURIComponent': case 'encodeURI': case 'escape': { const r = fold(args, globalThis[name]); if (r) return r; } I.noteThrow(BOT, e, 'ext:' + name); return mk(STR, null, EMPTY, V.markAll(l, `~E${name}`));
        case 'decodeURIComponent': case 'decodeURI': case 'unescape': { const r = fold(args, globalThis[name]); if (r) return r; } I.noteThrow(BOT, e, 'ext:' + name); return mk(STR, null, EMPTY, l);
        case 'Buffer.from': case 'Buffer.alloc': case 'Buffer.allocUnsafe': case 'Buffer.concat': { const b = I.alloc(e, 'Buffer', 'buf'); b.l = V.union(b.l, l); I.addRest(b, NUMV); return V.obj(b); }
        case 'Buffer.isBuffer': case 'ArrayBuffer.isView': return BOOL;
        case 'Date.now': case 'performance.now': case 'Math.random': return mk(NUM, null, EMPTY, new Set(['NONDET']));
        case 'Date.parse': case 'Date.UTC': return mk(NUM, null, EMPTY, l);
        case 'console.log': return UNDEF;
    }
    if (name.startsWith('Math.')) { const f = Math[name.slice(5)]; if (typeof f === 'function' && name !== 'Math.random') { const r = fold(args, f); if (r) return withL(r, l); } return mk(NUM, null, EMPTY, l); }
    if (PURE_GLOBALS.test(name) && CTORS[name.split('.')[0]] && /^(Array|Object|Number|String)\./.test(name)) { I.invokeArgs(args, e, st); return I.unknownV(e, name, l); }
    // anything else: an external function; it may call the functions it is given
    I.invokeArgs(args, e, st);
    if (I.hooks.onExternal) I.hooks.onExternal(I, name, args, e);
    // the failure of an asynchronous operation is in the promise
    if (!I.hooks.reasons || !ASYNC_EXT.test(name)) I.noteThrow(I.unknownV(e, 'extthrow'), e, 'ext:' + name);
    const xr = I.unknownV(e, name, l);
    if (I.hooks.reasons) for (const x of xr.o) x.extName = name;
    return xr;
}
const ASYNC_EXT = /^(fs|dns|timers|stream|readline)\.promises\./;
function ANY(I, e) { return I.unknownV(e, 'any'); }
function pathJoin(I, args, name) {
    let l = EMPTY;
    const all = [...args.list, ...(args.rest ? [args.rest] : [])];
    all.forEach((a, i) => {
        let al = I.labelsDeep(a);
        if (i > 0 || (args.rest && args.list.length === 0 && false)) al = V.markAll(al, '~seg');
        l = V.union(l, al);
    });
    if (args.list.length === 0 && args.spreadOf) for (const o of args.spreadOf) l = V.union(l, I.labelsDeep(V.obj(o)));
    return mk(STR, null, EMPTY, l);
}
function objKeys(I, v) {
    let names = new Set();
    let open = v.p & STR ? true : false;
    for (const o of v.o) {
        if (o.lazy || o.kind === 'atom' || o.kind === 'builtin' || o.spread.length || !o.rest.isBot() || o.cls !== 'Object') open = true;
        else for (const k of o.fields.keys()) names.add(k);
    }
    if (!open && names.size && names.size <= 24) return joinAll([...names].map(konst));
    const l = new Set();
    for (const x of I.labelsDeep(v)) l.add(V.mark(x, '~key'));
    return mk(STR, null, EMPTY, l);
}
function tagOf(I, v) {
    let r = BOT;
    const add = s => { r = join(r, konst(`[object ${s}]`)); };
    if (v.p & U) add('Undefined');
    if (v.p & N) add('Null');
    if (v.p & (T | F)) add('Boolean');
    if (v.p & NUM) add('Number');
    if (v.p & STR) add('String');
    if (v.p & BIG) add('BigInt');
    if (v.p & SYM) add('Symbol');
    for (const o of v.o) {
        if (o.tagName !== undefined) { for (const t of [].concat(o.tagName)) { if (t === null) r = join(r, STRV); else add(t); } continue; }
        if (o.lazy && o.cls === 'Unknown') { r = join(r, STRV); continue; }
        if (o.kind === 'func') { add('Function'); continue; }
        if (['Array', 'Map', 'Set', 'RegExp', 'Promise', 'Date', 'Object', 'Function', 'Error', 'ArrayBuffer', 'Uint8Array', 'URL', 'URLSearchParams', 'WeakMap', 'WeakSet'].includes(o.cls)) add(o.cls);
        else r = join(r, STRV);
    }
    return r;
}
function isArrayOf(I, v) {
    let t = false, f = false;
    if (v.p) f = true;
    for (const o of v.o) {
        if (o.isArr !== undefined) { if (o.isArr) t = true; else f = true; }
        else if (o.lazy && o.cls === 'Unknown') t = f = true;
        else if (o.cls === 'Array') t = true;
        else f = true;
    }
    return mk((t ? T : 0) | (f ? F : 0));
}

function construct(I, name0, args, e, st) {
    const name = name0.replace(/^(globalThis|window|self|global)\./, '');
    const a0 = arg(I, args, 0), a1 = arg(I, args, 1);
    const l = allLabels(I, args);
    I.event('new', e, { key: name, name, args, merge: ev => { ev.allArgs = (ev.allArgs || [ev.args]); if (ev.allArgs.length < 40) ev.allArgs.push(args); } });
    if (I.hooks.onNew) { const r = I.hooks.onNew(I, name, args, e, st); if (r) return r; }
    switch (name) {
        case 'Array': {
            const n = I.unroll && !args.rest && args.list.length === 1 && consts(a0);
            if (n && n.length === 1 && Number.isInteger(n[0]) && n[0] >= 0 && n[0] <= 64) {
                const o = I.alloc(e, 'Array', 'newArr#' + n[0]);
                I.addRest(o, UNDEF);
                I.track(o, Array.from({ length: n[0] }, () => UNDEF));
                return V.obj(o);
            }
            const o = I.alloc(e, 'Array', 'newArr');
            if (args.list.length !== 1 || args.rest) for (const v of argsFrom(args, 0)) I.addRest(o, v);
            else if (a0.p & ~NUM || a0.o.size) I.addRest(o, a0);
            return V.obj(o);
        }
        case 'Object': return a0.o.size ? objsOnly(a0) : V.obj(I.alloc(e, 'Object', 'newObj'));
        case 'Map': case 'WeakMap': {
            const o = I.alloc(e, name, 'new');
            const en = I.elements(objsOnly(a0), e);
            if (!en.isBot()) { I.setProp(V.obj(o), '@k', I.getProp(en, '0', e), e, 'init'); I.addRest(o, I.getProp(en, '1', e)); }
            return V.obj(o);
        }
        case 'Set': case 'WeakSet': { const o = I.alloc(e, name, 'new'); const el = I.elements(a0, e); if (!el.isBot()) I.addRest(o, el); return V.obj(o); }
        case 'RegExp': {
            const o = I.alloc(e, 'RegExp', 'new');
            const fl = args.list.length > 1 ? consts(a1) : null;
            if (args.list.length > 1 || args.rest) { if (fl && fl.every(x => x === undefined || typeof x === 'string')) { { const t = fl.map(x => x || '').join(''); if (o.flags !== null && !(o.flags || '').includes(t)) o.flags = (o.flags || '') + t; else if (o.flags === undefined) o.flags = t; } } else o.flags = null; }
            else { const inner = [...a0.o]; o.flags = inner.length ? inner.map(x => x.regex !== undefined ? x.regex.slice(x.regex.lastIndexOf('/') + 1) : x.flags || '').join('') : ''; if (inner.some(x => x.lazy)) o.flags = null; }
            o.patternV = o.patternV ? join(o.patternV, a0) : a0;
            o.l = V.union(o.l, l);
            const pc = consts(a0);
            let valid = !!pc && pc.length > 0 && (fl ? fl.length > 0 : !args.rest && args.list.length <= 1) && o.flags !== null;
            if (valid) for (const p of pc) for (const f of fl || ['']) { try { new RegExp(p, f || ''); } catch { valid = false; } }
            if (!valid) I.noteThrow(BOT, e, 'ext:new RegExp');
            return V.obj(o);
        }
        case 'Promise': {
            const o = I.alloc(e, 'Promise', 'new');
            const res = I.alloc(e, 'Function', 'resolve');
            res.kind = 'native';
            res.impl = (I2, t, a, e2) => { const v = I2.awaited(I2.argAt(a, 0), e2); I2.addRest(o, v); if (!o.mayReject && [...I2.argAt(a, 0).o].some(x => x.mayReject)) { o.mayReject = true; I2.ver++; } if (I2.hooks.reasons) for (const x of I2.argAt(a, 0).o) I2.addRejects(o, I2.rejects(x)); I2.event('resolve', e2, { key: 'res', promise: e, val: I2.argAt(a, 0) }); return UNDEF; };
            const rej = I.alloc(e, 'Function', 'reject');
            rej.kind = 'native';
            rej.impl = (I2, t, a, e2) => { if (!o.mayReject) { o.mayReject = true; I2.ver++; } if (I2.hooks.reasons) { const m = new Map([['reject:' + I2.prog.pos(e).replace(/:\d+:\d+$/, ''), e2]]); I2.passOn(m); for (const c of I2.catching || []) if (c.size) (I2.handed || (I2.handed = new WeakSet())).add(c); for (const x of I2.argAt(a, 0).o) for (const [k, n] of I2.rejects(x)) m.set(k, n); I2.addRejects(o, m); } I2.event('reject', e2, { key: 'rej', promise: e, val: I2.argAt(a, 0) }); return UNDEF; };
            const save = I.frame && I.frame.throwStates;
            const ts0 = { states: [], val: BOT, hit: false };
            if (I.frame) I.frame.throwStates = [ts0];
            cbOnce(I, a0, [V.obj(res), V.obj(rej)], e, st);
            I.callDead = false;
            if (I.frame) I.frame.throwStates = save;
            if (ts0.hit) o.mayReject = true;
            if (ts0.reasons) I.addRejects(o, ts0.reasons);
            if (a0.o.size === 0) I.noteThrow(BOT, e);
            return V.obj(o);
        }
        case 'Date': if (!args.list.length && !args.rest) I.event('nondet', e, { key: 'new Date', what: 'clock' }); { const o = I.alloc(e, 'Date', 'new'); o.l = V.union(o.l, l); return V.obj(o); }
        case 'Error': case 'TypeError': case 'RangeError': case 'EvalError': case 'SyntaxError': case 'ReferenceError': case 'URIError': {
            const o = I.alloc(e, name, 'new');
            I.setProp(V.obj(o), 'message', a0.p & U ? join(V.restrict(a0, ALLP & ~U), konst('')) : a0, e, 'init');
            const c = I.getProp(objsOnly(a1), 'cause', e);
            if (!c.isBot()) I.setProp(V.obj(o), 'cause', c, e, 'init');
            I.setProp(V.obj(o), 'name', konst(name), e, 'init');
            I.setProp(V.obj(o), 'stack', mk(STR | U), e, 'init');
            return V.obj(o);
        }
        case 'Function': { I.event('eval', e, { key: 'Function', args }); return new V.Val(0, NOC, new Set([I.unknown(e, 'newFunction', l, 'Function')]), l); }
        case 'Proxy': { I.invokeArgs({ list: [a1], rest: null }, e, st); const h = I.getProp(a1, 'construct', e); const o = I.unknown(e, 'proxy', l); for (const x of a1.o) for (const f of x.fields.values()) for (const fo of f.o) if (fo.kind === 'func') I.invokeUnknown(fo, e, st); return join(new V.Val(0, NOC, new Set([o]), l), objsOnly(a0)); }
        case 'Number': case 'String': case 'Boolean': { const o = I.alloc(e, name, 'box'); return V.obj(o); }
    }
    I.invokeArgs(args, e, st);
    I.noteThrow(I.unknownV(e, 'extthrow'), e, 'ext:new ' + name);
    if (I.hooks.onExternal) I.hooks.onExternal(I, 'new ' + name, args, e);
    const u = I.unknown(e, 'new ' + name, l);
    return new V.Val(0, NOC, new Set([u]), l);
}

module.exports = { STRING_METHODS, NUMBER_METHODS, KNOWN_CLASSES, isSub, methodOf, typeofBuiltin, globalConst, constant, callString, callPrim, callMethod, callBuiltin, construct, PURE_GLOBALS, NONDET, WRITES, protoMethods, objKeys, cb };
