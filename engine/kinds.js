'use strict';
// Kinds: abstract objects that stand for "any value of this kind". What a kind is (its typeof, tag, prototype chain, own
// properties and the results of the pure built-ins on it) is fixed by ECMAScript; the facts are taken from one representative.
// Only built-ins on the PURE list are ever evaluated on a representative; code of the repository is not.
const V = require('./values');
const { ts } = require('./program');
/* eslint-disable eqeqeq */
const OPS = { '===': (a, b) => a === b, '!==': (a, b) => a !== b, '==': (a, b) => a == b, '!=': (a, b) => a != b, '<': (a, b) => a < b, '>': (a, b) => a > b, '<=': (a, b) => a <= b, '>=': (a, b) => a >= b, '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b };
const { BOT, konst, UNDEF, mk, SYM } = V;

const PURE_FN = /^(Object\.(getPrototypeOf|keys|getOwnPropertyNames|getOwnPropertySymbols|getOwnPropertyDescriptor|hasOwn|is|values|entries|isFrozen|isSealed|isExtensible|prototype\.(toString|hasOwnProperty|isPrototypeOf|propertyIsEnumerable|valueOf))|Reflect\.(ownKeys|getPrototypeOf|has|get|getOwnPropertyDescriptor)|Array\.isArray|Array\.from|Buffer\.isBuffer|ArrayBuffer\.isView|Function\.prototype\.toString|Number|Number\.(isInteger|isSafeInteger|isFinite|isNaN|parseFloat|parseInt)|isNaN|isFinite|parseInt|parseFloat|String|Boolean|Math\.\w+|Symbol\.for|util\.types\.\w+|(Map|Set|String|Number|Boolean|BigInt|Symbol|Date|Array|RegExp|Error)\.prototype\.(\w+)|Date\.parse|BigInt)$/;
const IMPURE = /^(Math\.random|Date\.prototype\.set\w+|Array\.prototype\.(push|pop|shift|unshift|splice|sort|reverse|fill|copyWithin)|Map\.prototype\.(set|delete|clear)|Set\.prototype\.(add|delete|clear))$/;
const PURE_NEW = /^(Date|URL|Number|String|Boolean|RegExp|Set|Map)$/;
const PURE_METHOD = /^(toString|valueOf|hasOwnProperty|isPrototypeOf|propertyIsEnumerable|trim|trimStart|trimEnd|startsWith|endsWith|includes|indexOf|slice|subarray|isBuffer|getTime|test|charAt|charCodeAt|codePointAt|at|has|toLowerCase|toUpperCase|substring|match|search|split|replace|concat|join|keys|values|entries|isView|flat|toISOString|normalize|padStart)$/;

class Kinds {
    constructor(I) {
        this.I = I;
        this.map = new Map();
        this.names = new Map();
        this.syms = [];
        I.kinds = this;
        this.n = 0;
        const reg = (v, name) => { if ((typeof v === 'object' || typeof v === 'function') && v !== null && !this.names.has(v)) this.names.set(v, name); };
        for (const k of Object.getOwnPropertyNames(globalThis)) {
            let v;
            try { v = globalThis[k]; } catch { continue; }
            if (typeof v !== 'function' && !['Math', 'JSON', 'Reflect'].includes(k)) continue;
            reg(v, k);
            if (v.prototype) reg(v.prototype, k + '.prototype');
            for (const m of Object.getOwnPropertyNames(v)) { const d = Object.getOwnPropertyDescriptor(v, m); if (d && typeof d.value === 'function' && m !== 'prototype' && m !== 'constructor') reg(d.value, `${k}.${m}`); }
            if (v.prototype) for (const m of Object.getOwnPropertyNames(v.prototype)) { const d = Object.getOwnPropertyDescriptor(v.prototype, m); if (d && typeof d.value === 'function' && m !== 'constructor') reg(d.value, `${k}.prototype.${m}`); }
        }
    }
    resolve(name) {
        const parts = name.replace(/^(globalThis|window|self|global)\./, '').split('.');
        let v;
        if (['stream', 'util', 'events', 'buffer', 'url'].includes(parts[0])) v = require(parts.shift());
        else v = globalThis;
        let self;
        for (const p of parts) { if (v === null || v === undefined || !(p in Object(v))) return undefined; self = v; v = v[p]; }
        return { v, self };
    }
    // host value -> abstract value
    lift(x) {
        if (typeof x === 'symbol') { return this.sym(x); }
        if ((typeof x !== 'object' || x === null) && typeof x !== 'function') return konst(x);
        return V.obj(this.atom(x));
    }
    sym(x) {
        const i = this.syms.indexOf(x) < 0 ? this.syms.push(x) - 1 : this.syms.indexOf(x);
        return new V.Val(SYM, V.NOC, V.EMPTY, new Set(['hs:' + i]));
    }
    symOf(v) {
        if (v.p !== SYM || v.o.size || v.l.size !== 1) return null;
        const [l] = v.l;
        if (l.startsWith('hs:')) return this.syms[+l.slice(3)];
        if (l.startsWith('sym:') && typeof Symbol[l.slice(4)] === 'symbol') return Symbol[l.slice(4)];
        return null;
    }
    keyName(k) { return typeof k === 'symbol' ? '@@' + (this.syms.indexOf(k) < 0 ? this.syms.push(k) - 1 : this.syms.indexOf(k)) : String(k); }
    hostKey(k) { return typeof k === 'string' && /^@@\d+$/.test(k) ? this.syms[+k.slice(2)] : k; }
    prim(v, key) {
        const k = this.lower(v);
        if (!k.ok || k.v === null || k.v === undefined || typeof k.v === 'object' || typeof k.v === 'function') return null;
        const x = Object(k.v)[this.hostKey(key)];
        return typeof x === 'function' && typeof this.hostKey(key) !== 'symbol' ? null : this.lift(x);
    }
    method(key, v, args, e) {
        const k = this.lower(v);
        if (!k.ok || k.v === null || k.v === undefined || !PURE_METHOD.test(key)) return null;
        const f = Object(k.v)[key];
        return typeof f === 'function' ? this.apply(this.I, f, k.v, args, e) : null;
    }
    arith(op, a, b, e) {
        const x = this.lower(a), y = this.lower(b);
        if (!x.ok || !y.ok) return null;
        const o = v => (typeof v === 'object' && v !== null) || typeof v === 'function' || typeof v === 'symbol';
        if (!o(x.v) && !o(y.v)) return null;
        const f = OPS[ts.tokenToString(op)];
        if (!f) return null;
        let r;
        try { r = f(x.v, y.v); } catch { this.I.noteThrow(BOT, e); this.I.callDead = true; return BOT; }
        return this.lift(r);
    }
    unary(op, a, e) {
        const x = this.lower(a);
        if (!x.ok) return null;
        let r;
        try { r = op === ts.SyntaxKind.PlusToken ? +x.v : op === ts.SyntaxKind.MinusToken ? -x.v : ~x.v; } catch { this.I.noteThrow(BOT, e); this.I.callDead = true; return BOT; }
        return konst(r);
    }
    atom(x) {
        let o = this.map.get(x);
        if (o) return o;
        const I = this.I, K = this;
        const tag = Object.prototype.toString.call(x).slice(8, -1);
        o = I.newObj('kind:' + this.n++, 'atom', typeof x === 'function' ? 'Function' : Array.isArray(x) ? 'Array' : tag, { t: 'X', name: 'kind' });
        this.map.set(x, o);
        o.host = x;
        o.typeofs = [typeof x];
        o.tagName = tag;
        o.isArr = Array.isArray(x);
        o.sameAs = this.names.get(x) || '\u0000none';
        o.callableAtom = typeof x === 'function';
        o.hasKey = k => K.hostKey(k) in x;
        o.instanceOf = name => { const c = K.resolve(name); if (!c || typeof c.v !== 'function') return undefined; return x instanceof c.v; };
        o.getProp = (J, key, node) => {
            if (key === null) return null;
            let y;
            try { y = x[this.hostKey(key)]; } catch { J.noteThrow(BOT, node); J.callDead = true; return BOT; }
            return K.lift(y);
        };
        o.methodCall = (J, key, args, e, st) => {
            const f = x[this.hostKey(key)];
            if (typeof f !== 'function') { J.event('typeerror', e, { key }); J.noteThrow(BOT, e); J.callDead = true; return BOT; }
            if (o.isArr && ['every', 'some', 'find', 'findIndex', 'filter', 'map', 'forEach'].includes(key) && args.list[0] && !K.lower(args.list[0]).ok) return K.iter(J, x, key, args, e, st);
            if (!PURE_METHOD.test(key) || !this.names.has(f)) return null;
            return this.apply(J, f, x, args, e);
        };
        return o;
    }
    lower(v) {
        const sy = this.symOf(v);
        if (sy) return { ok: true, v: sy };
        const c = V.consts(v);
        if (c && c.length === 1 && !v.o.size) return { ok: true, v: c[0] };
        if (v.p === 0 && v.o.size === 1) {
            const [o] = v.o;
            if (o.host !== undefined) return { ok: true, v: o.host };
            if (o.kind === 'builtin') { const r = this.resolve(o.name); if (r) return { ok: true, v: r.v }; }
            if (o.regex !== undefined) { const i = o.regex.lastIndexOf('/'); try { return { ok: true, v: new RegExp(o.regex.slice(1, i), o.regex.slice(i + 1)) }; } catch {} }
        }
        return { ok: false };
    }
    idOf(x) {
        if ((typeof x === 'object' && x !== null) || typeof x === 'function') { if (!this.ids) this.ids = new Map(); let i = this.ids.get(x); if (!i) this.ids.set(x, i = this.ids.size + 1); return 'o' + i; }
        if (typeof x === 'symbol') return 'y' + (this.syms.indexOf(x) < 0 ? this.syms.push(x) - 1 : this.syms.indexOf(x));
        return typeof x + ':' + (Object.is(x, -0) ? '-0' : String(x)).replace(/[|\\]/g, '\\$&');
    }
    apply(J, f, self, args, e) {
        if (args.rest) return null;
        const as = args.list.map(a => this.lower(a));
        if (!as.every(a => a.ok)) return null;
        // the same call gives the same object, so that loops reach a fixpoint
        const key = [f, self, ...as.map(a => a.v)].map(x => this.idOf(x)).join('|');
        if (!this.calls) this.calls = new Map();
        let r = this.calls.get(key);
        if (!r) {
            try { r = { v: Reflect.apply(f, self, as.map(a => a.v)) }; } catch { r = { thrown: true }; }
            if (this.calls.size < 100000) this.calls.set(key, r);
        }
        if (r.thrown) { J.noteThrow(BOT, e); J.callDead = true; return BOT; }
        return this.lift(r.v);
    }
    // every/some/find over an array literal whose elements are all known
    literal(J, o, key, args, e, st) {
        if (o.kind !== 'alloc' || o.cls !== 'Array' || !o.rest.isBot() || o.spread.length || !['every', 'some', 'find', 'findIndex'].includes(key) || !args.list[0]) return null;
        const els = [];
        for (let i = 0; o.fields.has(String(i)); i++) els.push(o.fields.get(String(i)));
        if (els.length !== [...o.fields.keys()].filter(k => /^\d+$/.test(k)).length) return null;
        return this.iter(J, els, key, args, e, st, V.obj(o));
    }
    iter(J, arr, key, args, e, st, self) {
        const cbv = args.list[0];
        const el = i => (self ? arr[i] : this.lift(arr[i]));
        const outs = [];
        const decide = (i) => {
            if (!(i in arr) && key !== 'find' && key !== 'findIndex') return null;
            const r = J.callValue(cbv, UNDEF, { list: [el(i), konst(i), self || this.lift(arr)], rest: null }, e, st);
            return r;
        };
        let canContinue = true, result = BOT;
        for (let i = 0; i < arr.length && canContinue; i++) {
            const r = decide(i);
            if (r === null) continue;
            const t = V.truthy(r);
            if (r.isBot()) { return BOT; }
            outs.push(r);
            if (key === 'every') { if (t.f) result = V.join(result, V.FALSE); if (!t.t) canContinue = false; }
            else if (key === 'some') { if (t.t) result = V.join(result, V.TRUE); if (!t.f) canContinue = false; }
            else if (key === 'find') { if (t.t) result = V.join(result, el(i)); if (!t.f) canContinue = false; }
            else if (key === 'findIndex') { if (t.t) result = V.join(result, konst(i)); if (!t.f) canContinue = false; }
        }
        if (key === 'every') return canContinue ? V.join(result, V.TRUE) : result;
        if (key === 'some') return canContinue ? V.join(result, V.FALSE) : result;
        if (key === 'find') return canContinue ? V.join(result, UNDEF) : result;
        if (key === 'findIndex') return canContinue ? V.join(result, konst(-1)) : result;
        if (key === 'forEach') return UNDEF;
        // map / filter: representable when every answer is known
        const low = outs.map(r => this.lower(r));
        if (key === 'map' && low.every(r => r.ok)) return this.lift(low.map(r => r.v));
        if (key === 'filter' && outs.every(r => { const t = V.truthy(r); return t.t !== t.f; })) return this.lift(arr.filter((_, i) => V.truthy(outs[i]).t));
        return null;
    }
    hooks() {
        const K = this;
        return {
            onExt(J, name, args, e, st, thisV) {
                if (K.I !== J) return null;
                if (!PURE_FN.test(name) || IMPURE.test(name)) return null;
                if (args.rest) return null;
                // leave plain constants to the interpreter's own folding, except where it is coarse
                const r = K.resolve(name);
                if (!r || typeof r.v !== 'function') return null;
                const t = thisV && !thisV.isBot() ? K.lower(thisV) : { ok: true, v: undefined };
                if (/\.prototype\./.test(name) && !t.ok) return null;
                return K.apply(J, r.v, /\.prototype\./.test(name) ? t.v : r.self, args, e);
            },
            onNew(J, name, args, e) {
                if (name === 'Function' && !args.rest) {
                    // creating a function only parses its text
                    const as = args.list.map(a => K.lower(a));
                    if (!as.every(a => a.ok && typeof a.v === 'string')) return null;
                    try { new Function(...as.map(a => a.v)); } catch { J.noteThrow(BOT, e); J.callDead = true; return BOT; }
                    return null;
                }
                if (!PURE_NEW.test(name) || args.rest || !args.list.length) return null;
                const as = args.list.map(a => K.lower(a));
                if (!as.every(a => a.ok)) return null;
                const C = K.resolve(name).v;
                const key = 'new ' + name + J.nid(e) + [...as.map(a => a.v)].map(x => K.idOf(x)).join('|');
                if (!K.calls) K.calls = new Map();
                let r = K.calls.get(key);
                if (!r) { try { r = { v: new C(...as.map(a => a.v)) }; } catch { r = { thrown: true }; } K.calls.set(key, r); }
                if (r.thrown) { J.noteThrow(BOT, e); J.callDead = true; return BOT; }
                return K.lift(r.v);
            }
        };
    }
}
module.exports = { Kinds };
