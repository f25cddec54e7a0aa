'use strict';
// P15: arguments the documentation rejects are rejected, whatever their kind; arguments it accepts are not.
const { run, ts, entries } = require('./lib');
const { Interp } = require('../engine/absint');
const { Kinds } = require('../engine/kinds');
const V = require('../engine/values');
const { kinds } = require('./kindspec');
const { ARGS } = require('./argspec');

// could one of the failures be the refusal? Failures of what was called with other arguments (built-ins, callbacks) are not
const refuses = (r, fn) => isAsync(fn) || !r.reasons || [...r.reasons.keys()].some(k => !/^(ext|callback):/.test(k));
const FEW = new Set([0, -0, 1, -1, 0.5, -0.5, 1.5, 2, 3, NaN, Infinity, -Infinity, 2147483647, 4294967295, 9007199254740991, 2 ** 53, -(2 ** 53), 2 ** 53 + 2]);
const isAsync = fn => (ts.getCombinedModifierFlags(fn) & ts.ModifierFlags.Async) !== 0;
run('P15', ctx => {
    const { prog } = ctx;
    const I = new Interp(prog, {});
    const K = new Kinds(I);
    Object.assign(I.hooks, K.hooks(), { reasons: true });
    I.exact = true;
    I.initModules();
    const caches = [...I.moduleObjs.values()].filter(o => o.node && ((ts.isObjectLiteralExpression(o.node) && !o.node.properties.length) || (ts.isNewExpression(o.node) && !(o.node.arguments || []).length && /^(Map|WeakMap|Set|WeakSet)$/.test(o.cls))));
    const fresh = () => { for (const o of caches) if (o.fields.size || !o.rest.isBot()) { o.fields = new Map(); o.rest = V.BOT; I.ver++; } };
    const all = kinds();
    const by = new Map(entries(prog).map(e => [`${e.pkg}/${e.name}`, e]));
    const und = Object.create(null), done = Object.create(null);
    for (const s of ARGS) {
        const e = by.get(s.fn);
        if (!e || !e.fn) { ctx.missing.push(`${s.fn} not found`); continue; }
        ctx.count('arguments');
        const extra = (s.extra || []).map(v => ({ id: 'value:' + encodeURIComponent(JSON.stringify(v)), v, d: JSON.stringify(v) }));
        // in the quick tier the slow functions get fewer numbers (every bound of the documentation is among them)
        const some = s.slow && ctx.tier !== 'thorough' ? all.filter(k => typeof k.v !== 'number' || FEW.has(k.v)) : all;
        for (const k of some.concat(extra)) {
            const want = s.ok(k.v);
            if (want === undefined) continue;
            ctx.count('obligations');
            fresh();
            const args = s.how.args.slice();
            s.how.put(args, k.v);
            const r = I.analyse(e.fn, () => ({ list: args.map(x => K.lift(x)), rest: null }), { escape: false });
            // an asynchronous function reports an error by rejecting: "returns" means that its promise can be fulfilled
            if (r.returns && isAsync(e.fn) && r.ret.o.size && !r.ret.p && [...r.ret.o].every(o => o.cls === 'Promise' && o.kind === 'alloc' && o.rest.isBot())) r.returns = false;
            const w = `${s.fn} ${s.arg}`;
            const key = `${e.id}:${s.arg}#${k.id}`.replace(/\s+/g, '_');
            if (want && !r.returns && !r.incomplete) ctx.violation({ key, msg: `${e.name}: ${s.arg} = ${k.d} is documented as valid, but every path throws`, at: ctx.pos(e.fn) });
            else if (!want && r.returns && !r.incomplete && (!r.mayThrow || !refuses(r, e.fn))) ctx.violation({ key, msg: `${e.name}: ${s.arg} = ${k.d} is documented as an error, but the call returns`, at: ctx.pos(e.fn) });
            else if ((want ? r.returns : !r.returns) && !r.incomplete && (!want || !r.mayThrow)) { ctx.count('decided'); done[w] = (done[w] || 0) + 1; continue; } else (und[w] = und[w] || []).push((want ? '+' : '-') + k.id + (process.env.DBG && r.reasons && r.returns ? '<' + [...r.reasons.keys()] + '>' : ''));
        }
    }
    ctx.lists.decided_by_argument = done;
    ctx.lists.undecided_by_argument = Object.fromEntries(Object.entries(und).map(([k, v]) => [k, v.length]));
    if (process.env.DBG) for (const [k, v] of Object.entries(und)) console.log(k, v.length, v.slice(0, +process.env.DBG).join(' '));
    if (process.env.DBG) console.log(ctx.counts);
    ctx.need('arguments', 58);
    ctx.need('decided', 20000);
}, 'Every documented argument condition is decided for every kind of value (typeof x tag x prototype x emptiness x numeric cell): the abstract interpretation of the function on that kind, with the other arguments valid, must have no returning path when the documentation rejects it and a returning one when it accepts it.');
