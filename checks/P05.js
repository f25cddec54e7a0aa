'use strict';
// P05: every type predicate answers exactly what its name says for every kind of value, and never throws.
const { run, ts, entries } = require('./lib');
const { Interp } = require('../engine/absint');
const { Kinds } = require('../engine/kinds');
const V = require('../engine/values');
const { kinds, SPEC, VARIANTS } = require('./kindspec');

run('P05', ctx => {
    const { prog } = ctx;
    const I = new Interp(prog, {});
    const K = new Kinds(I);
    Object.assign(I.hooks, K.hooks());
    I.initModules();
    // what earlier calls left in caches is unobservable (property P02): every call starts from the initial state
    const caches = [...I.moduleObjs.values()].filter(o => o.node && ((ts.isObjectLiteralExpression(o.node) && !o.node.properties.length) || (ts.isNewExpression(o.node) && !(o.node.arguments || []).length && /^(Map|WeakMap|Set|WeakSet)$/.test(o.cls))));
    const fresh = () => { for (const o of caches) if (o.fields.size || !o.rest.isBot()) { o.fields = new Map(); o.rest = V.BOT; I.ver++; } };
    const all = kinds();
    ctx.count('kinds', all.length);
    let undecided = 0;
    const und = Object.create(null);
    const unspec = [];
    for (const e of entries(prog)) {
        if (e.pkg !== 'types' || !e.fn || !/^(is[A-Z]|has)/.test(e.name)) continue;
        const spec = SPEC[e.name];
        if (!spec) { unspec.push(e.name); continue; }
        ctx.count('predicates');
        for (const vr of VARIANTS[e.name] || [[]]) {
            const label = vr.length ? `, ${vr.map(show).join(', ')}` : '';
            for (const k of all) {
                let want;
                try { want = spec(k.v, ...vr); } catch { want = false; }
                if (want === undefined) continue;
                ctx.count('obligations');
                fresh();
                const r = I.analyse(e.fn, () => ({ list: [K.lift(k.v), ...vr.map(x => K.lift(x))], rest: null }), { escape: false });
                const id = `${e.id}#${k.id}${vr.length ? ':' + vr.map(show).join(',') : ''}`.replace(/\s+/g, '_');
                if (!r.returns) { if (r.incomplete) continue; ctx.violation({ key: id, msg: `${e.name}(${k.d}${label}) throws instead of answering ${want}`, at: ctx.pos(e.fn) }); continue; }
                const got = r.ret;
                const c = V.consts(got);
                if (c && c.length === 1 && !r.mayThrow) {
                    if (c[0] === want) { ctx.count('decided'); continue; }
                    ctx.violation({ key: id, msg: `${e.name}(${k.d}${label}) is ${show(c[0])}, expected ${want}`, at: ctx.pos(e.fn) });
                } else if (!(got.p & (V.T | V.F)) && !r.mayThrow && (got.p || got.o.size)) ctx.violation({ key: id, msg: `${e.name}(${k.d}${label}) never answers with a boolean`, at: ctx.pos(e.fn) });
                else { undecided++; (und[e.name] = und[e.name] || []).push(k.id); }
            }
        }
    }
    ctx.counts.undecided = undecided;
    ctx.lists.undecided_by_predicate = Object.fromEntries(Object.entries(und).map(([k, v]) => [k, v.length]));
    ctx.lists.predicates_without_specification = unspec;
    if (process.env.DBG) { console.log(und, unspec); }
    ctx.need('predicates', 120);
    ctx.need('decided', 60000);
}, 'Every predicate is interpreted abstractly on every kind of value (typeof x tag x prototype chain x emptiness x numeric cell) and the answer compared with the specification of its name.');
function show(x) { return typeof x === 'string' ? JSON.stringify(x) : typeof x === 'object' && x !== null ? JSON.stringify(x) : typeof x === 'bigint' ? x + 'n' : Object.is(x, -0) ? '-0' : String(x); }
