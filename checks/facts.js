'use strict';
// Runs the abstract interpreter on every public entry and hands each result to a callback.
const { Interp } = require('../engine/absint');
const { withCopyModel, publicDecl } = require('../engine/models');
const V = require('../engine/values');
const { entries, ts, nameParams } = require('./lib');

function eachEntry(ctx, cb, hooks = {}, filter = () => true) {
    const { prog } = ctx;
    const I = new Interp(prog, withCopyModel(prog, hooks));
    if (hooks.exact) I.exact = true;
    I.initModules();
    const copy = publicDecl(prog, 'util', 'copy');
    const list = [];
    for (const e of entries(prog)) {
        if (e.kind !== 'value' || e.fn) { list.push(e); continue; }
        // exported values: every function they hold
        const seen = new Set();
        const walk = (v, path, d) => {
            for (const o of v.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                if (o.kind === 'func') list.push({ ...e, id: e.id + path, fn: o.node, closure: o });
                else if (d < 3 && o.kind === 'alloc') { for (const [k, f] of o.fields) walk(f, path + '.' + k, d + 1); walk(o.rest, path + '[]', d + 1); }
            }
        };
        walk(I.readSym(e.symbol, null, e.decl), '', 0);
    }
    for (const e of list) {
        if (!e.fn || !filter(e)) continue;
        nameParams(prog, e.id, e.fn);
        ctx.count("entries");
        for (const variant of variants(e)) {
            const opts = { closure: e.closure };
            if (e.cls && e.kind !== 'constructor') opts.thisV = J => instance(J, e.cls);
            if (e.kind === 'constructor') opts.thisV = J => instance(J, e.cls);
            const r = I.analyse(e.fn, variant.args && (J => variant.args(J, e.fn)), opts);
            ctx.count('analyses');
            ctx.count('functions_visited', r.fns.size);
            if (r.incomplete && !(copy && e.fn === copy)) { ctx.count('incomplete'); ctx.note(`analysis budget reached in ${e.id}`); }
            cb(e, r, I, variant);
        }
    }
    return I;
}
function instance(I, cls) {
    const { Val, NOC, EMPTY } = V;
    const key = 'inst:' + I.nid(cls);
    let o = I.objs.get(key);
    if (!o) {
        o = I.newObj(key, 'instance', 'Object', { t: 'F', name: '' }, cls);
        o.classNode = cls;
        o.env = I.moduleEnv;
    }
    return new Val(0, NOC, new Set([o]), EMPTY);
}
// documented modes of entries whose effect depends on an option (see DESIGN.md)
function variants(e) {
    if (e.id === 'array.toTree') {
        const base = I => I.entryArgs(e.fn).list;
        const opt = (I, o) => {
            const v = I.alloc(e.fn, 'Object', 'opts' + JSON.stringify(o));
            for (const [k, x] of Object.entries(o)) I.setProp(V.obj(v), k, x === null ? V.NULLV : typeof x === 'boolean' ? (x ? V.TRUE : V.FALSE) : V.konst(x), e.fn, 'init');
            return V.obj(v);
        };
        return [
            { name: 'defaults', args: I => ({ list: [base(I)[0], V.UNDEF], rest: null }) },
            { name: 'assign=false', args: I => ({ list: [base(I)[0], opt(I, { dataField: null, assign: false })], rest: null }) },
            { name: 'assign=true', args: I => ({ list: [base(I)[0], opt(I, { dataField: null, assign: true })], rest: null }), mutates: ['items'] }
        ];
    }
    return [{ name: '' }];
}
module.exports = { eachEntry, variants, instance };
