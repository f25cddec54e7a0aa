'use strict';
// Exact evaluation of array and object built-ins on containers whose elements are all known (enabled by I.exact).
const { ts } = require('./program');
const V = require('./values');
const { BOT, UNDEF, konst, join, consts } = V;

function tuple(I, e, tag, vals) {
    const o = I.alloc(e, 'Array', tag + '#' + vals.map(v => v.sig).join('|'));
    vals.forEach((v, i) => { if (!o.fields.has(String(i)) || o.fields.get(String(i)).sig !== v.sig) I.setProp(V.obj(o), String(i), v, e, 'init'); });
    return V.obj(o);
}
const closedObject = o => o.kind === 'alloc' && o.cls === 'Object' && o.rest.isBot() && !o.spread.length && ![...o.fields.keys()].some(k => /^@/.test(k));
function globalFn(I, name, args, e, st) {
    if (args.rest || !args.list.length) return null;
    const a = args.list[0];
    if (a.p || a.o.size !== 1) return null;
    const [o] = a.o;
    if (name === 'Array.from' && args.list.length <= 2) {
        // the elements of an array, or as many times nothing as { length } says
        let els = I.positional(a);
        if (!els && closedObject(o) && o.fields.size === 1 && o.fields.has('length')) { const c = consts(o.fields.get('length')); if (c && c.length === 1 && c[0] >= 0 && c[0] <= 12) els = Array.from({ length: c[0] }, () => UNDEF); }
        if (!els) return null;
        const f = args.list[1];
        return tuple(I, e, 'xaf', f && f.o.size ? els.map((x, i) => (I.callDead ? BOT : I.callValue(f, UNDEF, { list: [x, konst(i)], rest: null }, e, st))) : els);
    }
    if (/^Object\.(values|keys|entries)$/.test(name) && args.list.length === 1) {
        const els = I.positional(a);
        if (els) return name === 'Object.values' ? tuple(I, e, 'xv', els) : name === 'Object.keys' ? tuple(I, e, 'xk', els.map((_, i) => konst(String(i)))) : tuple(I, e, 'xe', els.map((x, i) => tuple(I, e, 'xe' + i, [konst(String(i)), x])));
    }
    if (!/^(Object\.(values|keys|entries|getOwnPropertyNames|getOwnPropertySymbols)|Reflect\.ownKeys)$/.test(name) || args.list.length !== 1 || !closedObject(o)) return null;
    if (name === 'Object.getOwnPropertySymbols') return [...o.fields.keys()].some(k => typeof k !== 'string' || k.startsWith('sym:')) ? null : tuple(I, e, 'xy', []);
    const ks = [...o.fields.keys()].filter(k => typeof k === 'string' && !k.startsWith('sym:'));
    ks.sort((x, y) => { const ix = /^(0|[1-9]\d*)$/.test(x), iy = /^(0|[1-9]\d*)$/.test(y); return ix && iy ? x - y : ix ? -1 : iy ? 1 : 0; });
    if (name === 'Object.values') return tuple(I, e, 'xv', ks.map(k => o.fields.get(k)));
    if (name !== 'Object.entries') return tuple(I, e, 'xk', ks.map(k => konst(k)));
    return tuple(I, e, 'xe', ks.map((k, i) => tuple(I, e, 'xe' + i, [konst(k), o.fields.get(k)])));
}
const retrack = (I, o, vals) => { if (vals.length <= 64) I.curSt.arr.set(o, vals); else I.curSt.arr.delete(o); };
const IN_PLACE = new Set(['reverse', 'sort', 'copyWithin', 'fill', 'pop', 'shift', 'splice']);
function arrayMethod(I, o, key, args, e, st) {
    const els = I.positional(V.obj(o));
    if (!els || args.rest) { if (IN_PLACE.has(key) || key === 'push' || key === 'unshift') I.untrack(o); return null; }
    const ov = V.obj(o), f = args.list[0];
    if (IN_PLACE.has(key)) {
        // a temporary nobody else can see keeps its elements; any other array has lost the places of its elements
        const recv = e && e.expression && e.expression.expression;
        const temp = recv && (recv.kind === ts.SyntaxKind.ArrayLiteralExpression || (recv.kind === ts.SyntaxKind.CallExpression && recv.expression.name && /^(slice|concat|map|filter|flat)$/.test(recv.expression.name.text)));
        if (!temp) {
            const seen = I.tracked(o);
            if (!seen) o.partial = true;
            I.mutate(ov, '[]', e, key);
            if (els.length) I.addRest(o, els.reduce((a, b) => join(a, b)));
            if (!seen) return null;
            const left = els.slice();
            if (key === 'reverse') { left.reverse(); retrack(I, o, left); return ov; }
            if (key === 'pop' || key === 'shift') { const v = (key === 'pop' ? left.pop() : left.shift()) || UNDEF; retrack(I, o, left); return v; }
            I.untrack(o);
            o.partial = true;
            return null;
        }
        if (key === 'reverse') return tuple(I, e, 'xrv', els.slice().reverse());
        if (key === 'pop') return els.length ? els[els.length - 1] : UNDEF;
        if (key === 'shift') return els.length ? els[0] : UNDEF;
        return null;
    }
    if ((key === 'push' || key === 'unshift') && I.tracked(o)) {
        I.mutate(ov, '[]', e, key);
        for (const v of args.list) I.addRest(o, v);
        if (I.hooks.onGrow) I.hooks.onGrow(I, o, args, e);
        const now = key === 'push' ? [...els, ...args.list] : [...args.list, ...els];
        retrack(I, o, now);
        return konst(now.length);
    }
    // after a call that does not come back no other is made
    const call = (i, ...pre) => (I.callDead ? BOT : I.callValue(f, UNDEF, { list: [...pre, els[i], konst(i), ov], rest: null }, e, st));
    switch (key) {
        case 'map': return tuple(I, e, 'xm', els.map((_, i) => call(i)));
        case 'forEach': els.forEach((_, i) => call(i)); return UNDEF;
        case 'filter': {
            const out = [];
            for (let i = 0; i < els.length; i++) { const t = V.truthy(call(i)); if (t.t && t.f) return null; if (t.t) out.push(els[i]); }
            return tuple(I, e, 'xf', out);
        }
        case 'every': case 'some': {
            let go = true, r = BOT, out = null; // a call that may end the walk leaves the words made so far
            for (let i = 0; i < els.length && go; i++) {
                const t = V.truthy(call(i));
                if (I.curSt && I.curSt.tr && (key === 'every' ? t.f : t.t)) out = new Set([...(out || []), ...I.curSt.tr]);
                if (key === 'every') { if (t.f) r = join(r, V.FALSE); if (!t.t) go = false; } else { if (t.t) r = join(r, V.TRUE); if (!t.f) go = false; }
            }
            if (out) I.curSt.tr = go ? new Set([...out, ...I.curSt.tr]) : out;
            return go ? join(r, key === 'every' ? V.TRUE : V.FALSE) : r;
        }
        case 'reduce': {
            let i = 0, acc = args.list[1];
            if (args.list.length < 2) { if (!els.length) return null; acc = els[i++]; }
            for (; i < els.length; i++) acc = call(i, acc);
            return acc;
        }
        case 'reduceRight': {
            let i = els.length - 1, acc = args.list[1];
            if (args.list.length < 2) { if (!els.length) return null; acc = els[i--]; }
            for (; i >= 0; i--) acc = call(i, acc);
            return acc;
        }
        case 'toReversed': return tuple(I, e, 'xtr', els.slice().reverse());
        case 'keys': return tuple(I, e, 'xks', els.map((_, i) => konst(i)));
        case 'values': return tuple(I, e, 'xvs', els);
        case 'entries': return tuple(I, e, 'xes', els.map((x, i) => tuple(I, e, 'xes' + i, [konst(i), x])));
        case 'at': { const c = args.list.length === 1 && consts(args.list[0]); return c && c.length === 1 && Number.isInteger(c[0]) ? els.at(c[0]) || UNDEF : null; }
        case 'slice': {
            const cs = args.list.map(consts);
            if (!cs.every(c => c && c.length === 1 && (typeof c[0] === 'number' || c[0] === undefined))) return null;
            return tuple(I, e, 'xs', els.slice(...cs.map(c => c[0])));
        }
        case 'flat': {
            if (args.list.length) return null;
            const out = [];
            for (const v of els) { if (!v.o.size || [...v.o].every(x => x.opaque)) { out.push(v); continue; } const k = I.positional(v); if (!k) return null; out.push(...k); }
            return tuple(I, e, 'xfl', out);
        }
        case 'concat': {
            const out = els.slice();
            for (const v of args.list) { if ([...v.o].every(x => x.opaque)) { out.push(v); continue; } const k = I.positional(v); if (!k) return null; out.push(...k); }
            return tuple(I, e, 'xc', out);
        }
        case 'join': {
            const sep = args.list.length ? consts(args.list[0]) : [','];
            if (!sep || sep.length !== 1) return null;
            const cs = els.map(consts);
            if (!cs.every(c => c && c.length === 1)) return null;
            return konst(cs.map(c => c[0]).map(x => (x == null ? '' : String(x))).join(sep[0]));
        }
    }
    return null;
}
module.exports = { tuple, globalFn, arrayMethod };
