'use strict';
// P17: wrappers are transparent: the caller's functions get the documented arguments in the documented order, and the
// documented one of their results comes back unchanged.
const { run, entries, ts } = require('./lib');
const { Guard, Undecided, konst } = require('../engine/guard');
const { tracer } = require('./traces');

// what is handed in: a function, a value that is none, a settled promise of a value, the further arguments, a constant
const F = name => ({ t: 'fn', name });
const X = name => ({ t: 'val', name });
const P = name => ({ t: 'prom', name });
const R = name => ({ t: 'rest', name });
const C = v => ({ t: 'const', v });
const O = fields => ({ t: 'obj', fields });

// entry -> cases: what is handed in, which calls that makes (every possible word of calls), what comes back, and the same
// for calling the function that comes back
const NOTHING = [''];
const SPEC = {
    bind: [{ in: [F('method'), C(undefined)], then: { in: [R('a')], words: ['method(…a)'], out: 'r(method)' } }, { in: [F('method'), X('ctx')], then: { in: [R('a')], words: ['ctx.method(…a)'], out: 'r(method)' } }],
    currying: [{ in: [F('fn')], then: { in: [R('a')], words: ['', 'fn(…a)'], out: 'function|r(fn)', then: { in: [R('b')], words: ['', 'fn(…a, …b)'], out: 'function|r(fn)', then: { in: [R('c')], words: ['', 'fn(…a, …b, …c)'], out: 'function|r(fn)' } } } }],
    ifThrow: [
        { in: [F('task'), F('fallback'), R('a')], words: ['task(…a)', 'task(…a) ; fallback(error, …a)'], out: 'Promise<r(fallback)|r(task)>' },
        { in: [F('task'), X('v'), R('a')], words: ['task(…a)'], out: 'Promise<r(task)|v>' },
        { in: [F('task')], words: ['task()'], out: 'Promise<r(task)|undefined>' },
        { in: [P('v'), F('fallback'), R('a')], words: ['', 'fallback(error, …a)'], out: 'Promise<r(fallback)|v>' }
    ],
    noCatch: [
        { in: [F('fn'), R('a')], words: ['fn(…a)'], out: 'Promise<r(fn)|undefined>' },
        { in: [P('v'), R('a')], words: NOTHING, out: 'Promise<undefined|v>' }
    ],
    tryCatch: [{ in: [F('fn'), R('a')], words: ['fn(…a)'], out: 'Promise<r(fn)>' }],
    retry: [
        { in: [C(0), F('task')], words: ['task()'], out: 'Promise<r(task)>' },
        { in: [C(2), F('task')], words: ['task()', 'task() ; task()', 'task() ; task() ; task()'], out: 'Promise<r(task)>' },
        { in: [C(0), F('task'), O({ onError: F('onError'), onRetry: F('onRetry') })], words: ['task()', 'task() ; onError(error)'], out: 'Promise<r(onError)|r(task)>' },
        { in: [C(1), F('task'), O({ onError: F('onError'), onRetry: F('onRetry') })], words: ['task()', 'task() ; task()', 'task() ; task() ; onRetry(error, 1) ; onError(error)'], out: 'Promise<r(onError)|r(task)>' },
        { in: [C(2), P('v')], words: NOTHING, out: 'Promise<v>' }
    ],
    after: [{ in: [F('after'), R('b')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['target(…a) ; after(…b)'], out: 'r(target)' } }],
    applyAfter: [{ in: [F('after'), R('b')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['target(…a) ; after(r(target), …b)'], out: 'r(after)' } }],
    applyBefore: [{ in: [F('before')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['before(…a) ; target(r(before))'], out: 'r(target)' } }],
    before: [{ in: [F('before'), R('b')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['before(…b) ; target(…a)'], out: 'r(target)' } }],
    withAfter: [{ in: [F('after'), R('b')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['target(…a) ; after(r(target), …b)'], out: 'r(target)' } }],
    withBefore: [{ in: [F('before')], words: NOTHING, then: { in: [F('target'), R('a')], words: ['before(…a) ; target(r(before))'], out: 'r(before)' } }],
    compose: [
        { in: [F('f'), F('g')], words: NOTHING, then: { in: [X('v')], words: ['f(v) ; g(r(f))'], out: 'r(g)' } },
        { in: [F('f'), F('g'), F('h'), F('i')], words: NOTHING, then: { in: [X('v')], words: ['f(v) ; g(r(f)) ; h(r(g)) ; i(r(h))'], out: 'r(i)' } }
    ],
    cancelExec: [
        { in: [F('task'), R('a')], words: ['task(…a)'], out: '[Promise<r(task)>, function]' },
        { in: [P('v'), R('a')], words: NOTHING, out: '[Promise<v>, function]' }
    ],
    padding: [
        { in: [F('task'), R('a')], words: ['task(…a)'], out: 'Promise<[null, error]|[r(task), null]>' },
        { in: [P('v'), R('a')], words: NOTHING, out: 'Promise<[null, error]|[v, null]>' }
    ],
    delayReturn: [{ in: [C(5), F('task'), R('a')], words: ['task(…a)'], out: 'Promise<r(task)>' }],
    delayRun: [{ in: [C(5), F('task'), R('a')], words: ['task(…a)'], out: 'Promise<r(task)>' }],
    once: [{ in: [F('fn'), R('a')], words: NOTHING, then: { in: [R('b')], words: ['', 'fn(…a, …b)'], out: 'r(fn)|undefined' } }],
    runAfterTimes: [{ in: [C(2), F('fn'), R('a')], words: NOTHING, then: { in: [], words: ['', 'fn(…a)'], out: 'function|r(fn)' } }],
    runOnlyNTimes: [{ in: [C(2), F('fn'), R('a')], words: NOTHING, then: { in: [R('b')], words: ['', 'fn(…a, …b)'], out: 'r(fn)|undefined' } }],
    toPromise: [
        { in: [F('fn'), C(undefined)], words: ['fn()'], out: 'Promise<r(fn)>' },
        { in: [P('v')], words: NOTHING, out: 'Promise<v>' },
        { in: [X('v')], words: NOTHING, out: 'Promise<v>' }
    ],
    executeToPromise: [
        { in: [F('fn')], words: ['fn()'], out: 'Promise<r(fn)>' },
        { in: [P('v')], words: NOTHING, out: 'Promise<v>' },
        { in: [X('v')], words: NOTHING, out: 'Promise<v>' }
    ],
    select: [
        { in: [F('cond'), F('doIf'), F('doElse'), R('a')], words: ['cond(…a) ; doIf(…a)', 'cond(…a) ; doElse(…a)'], obj: ['cond(…a) ; doIf(…a)'], falsy: ['cond(…a) ; doElse(…a)'], out: 'Promise<r(doIf)>', falsyOut: 'Promise<r(doElse)>' },
        { in: [C(true), F('doIf'), F('doElse'), R('a')], words: ['doIf(…a)'], out: 'Promise<r(doIf)>' },
        { in: [C(false), F('doIf'), F('doElse'), R('a')], words: ['doElse(…a)'], out: 'Promise<r(doElse)>' },
        { in: [C(true), X('v'), F('doElse'), R('a')], words: NOTHING, out: 'Promise<v>' },
        { in: [C(false), F('doIf'), X('v'), R('a')], words: NOTHING, out: 'Promise<v>' }
    ],
    setTimeout: [{ in: [F('fn'), C(5), R('a')], words: ['fn(…a)'] }],
    nextTick: [{ in: [F('fn')], words: ['fn()'] }],
    timeoutOr: [
        { in: [C(5), F('task'), F('fallback'), R('a')], words: ['task(…a) ; fallback(…a)'], out: 'Promise<r(fallback)|r(task)>' },
        { in: [C(5), F('task'), X('v'), R('a')], words: ['task(…a)'], out: 'Promise<r(task)|v>' },
        { in: [C(5), P('v'), F('fallback'), R('a')], words: ['fallback(…a)'], out: 'Promise<r(fallback)|v>' }
    ]
};
const MEMO = [{ in: [F('func'), F('key')], words: NOTHING, then: { in: [R('a')], words: ['key(…a)', 'key(…a) ; func(…a)'], out: 'r(func)', asyncOut: 'Promise<r(func)|undefined>' } }];

run('P17', ctx => {
    const T = tracer(ctx.prog);
    const es = entries(ctx.prog);
    const find = name => {
        const e = es.find(x => x.id === `function.${name}` && x.fn);
        return e && e.fn;
    };
    const byFile = rel => {
        const sf = ctx.prog.sources.find(s => ctx.prog.rel(s.fileName) === rel);
        const d = sf && sf.statements.find(s => ts.isFunctionDeclaration(s) && s.body && s.name);
        return d;
    };
    for (const [name, cases] of Object.entries(SPEC)) {
        const fn = find(name);
        if (!fn) { if (name !== 'nextTick') ctx.anchor(false, `function.${name}`); continue; }
        cases.forEach((c, i) => check(`function.${name}`, fn, c, i));
    }
    for (const [name, isAsync] of [['memoizeWith', false], ['memoizeWithAsync', true]]) {
        const fn = byFile(`packages/function/src/cache/${name}.ts`);
        if (fn) MEMO.forEach((c, i) => check(`function.${name}`, fn, isAsync ? { ...c, then: { ...c.then, out: c.then.asyncOut } } : c, i));
    }
    function check(id, fn, c, i) {
        ctx.count('cases');
        for (const mode of ['obj', 'falsy']) for (const n of restSizes(c)) {
            const got = T.run(fn, c, mode, n);
            if (got.incomplete) { ctx.count('incomplete'); ctx.note(`${id}#${i} ${mode} ${n}: analysis incomplete`); continue; }
            let s = c;
            for (let d = 0; s && d < got.stages.length; d++, s = s.then) judge(`${id}#${i}${'+'.repeat(d)}`, id, fn, s, got.stages[d], mode, n);
            if (s) ctx.violation({ key: `${id}#${i}:stage`, msg: `${id} does not give back a function`, at: ctx.pos(fn) });
        }
    }
    function restSizes(c) {
        for (let s = c; s; s = s.then) if (s.in.some(x => x.t === 'rest')) return ['many', 0, 3, 'falsy'];
        return [0];
    }
    function judge(key, id, fn, s, g, mode, n) {
        ctx.count('traces');
        const words = s[mode] || s.words || NOTHING;
        const want = new Set(words.map(w => T.expand(w, n)));
        const where = mode === 'falsy' ? ' when the functions return nothing or a falsy value' : '';
        const how = n === 'many' ? '' : n === 'falsy' ? ' (falsy further arguments)' : ` (${n} further arguments)`;
        const seen = new Set();
        for (const w of g.words) {
            const failed = w.endsWith('!');
            const core = w.replace(/( ; )?!$/, '');
            if (failed) { if (![...want].some(x => core === '' || T.could(core, x) || T.could(core, x.split(' ; ').slice(0, core.split(' ; ').length).join(' ; ')))) bad(core); continue; }
            seen.add(core);
            const like = want.has(core) ? null : [...want].find(x => T.could(core, x));
            if (like !== null && like !== undefined) { seen.add(like); ctx.count('imprecise'); } else if (!want.has(core)) bad(core);
        }
        for (const x of want) if (!seen.has(x)) ctx.violation({ key: `${key}:missing`, msg: `${id}: the calls "${x || 'none'}" can never be the ones made${where}${how}; possible: ${[...seen].map(y => `"${y || 'none'}"`).join(', ')}`, at: ctx.pos(fn) });
        function bad(core) { ctx.violation({ key: `${key}:calls`, msg: `${id} can call ${core ? `"${core}"` : 'none of the given functions'}${where}${how}; expected ${[...want].map(y => `"${y || 'none'}"`).join(' or ')}`, at: ctx.pos(fn) }); }
        const out = mode === 'falsy' && s.falsyOut || s.out;
        if (out) {
            const e = T.expectOut(out, mode);
            ctx.count('results');
            if (g.out !== e && !T.could(g.out, e)) ctx.violation({ key: `${key}:result`, msg: `${id} gives back ${g.out}${where}${how}; expected ${e}`, at: ctx.pos(fn) });
        }
        if (ctx.samples.length < 12 && mode === 'obj' && n === 'many') ctx.sample(`${id}: ${[...g.words].join(' | ')} -> ${g.out}`);
    }
    // ---- how often, over several calls -------------------------------------------------------------------------------------
    const RESULTS = [['an object', i => ({ k: 'obj', id: i })], ['undefined', () => konst(undefined)], ['null', () => konst(null)], ['0', () => konst(0)], ['false', () => konst(false)], ['""', () => konst('')]];
    const HISTORY = {
        once: { args: [[{ k: 'cb' }]], calls: () => i => (i === 1 ? 1 : 0), back: () => () => 1 },
        runOnlyNTimes: { args: [0, 1, 2, 3].map(n => [konst(n), { k: 'cb' }]), calls: a => i => (i <= a[0].v ? 1 : 0), back: a => i => (i <= a[0].v ? i : 0) },
        runAfterTimes: { args: [0, 1, 2, 3].map(n => [konst(n), { k: 'cb' }]), until: a => Math.max(a[0].v, 1), calls: a => i => (i === Math.max(a[0].v, 1) ? 1 : 0), back: a => i => (i === Math.max(a[0].v, 1) ? 1 : null) }
    };
    for (const [name, h] of Object.entries(HISTORY)) {
        const fn = find(name);
        if (!fn) continue;
        for (const args of h.args) for (const [word, res] of RESULTS) {
            const made = [];
            const G = new Guard(ctx.prog, i => (made[i] = res(i)));
            const given = args.length > 1 ? ` (count ${args[0].v})` : '';
            try {
                const w = G.make(fn, args);
                if (w.k !== 'fn') throw new Undecided('result');
                const last = h.until ? h.until(args) : 5;
                for (let i = 1; i <= last; i++) {
                    const before = G.calls, out = G.apply(w, []);
                    ctx.count('history_steps');
                    const want = h.calls(args)(i), got = G.calls - before, back = h.back(args)(i);
                    if (got !== want) { ctx.violation({ key: `function.${name}#history:calls`, msg: `function.${name}${given}, call ${i} of the function it returns, when the given function returns ${word}: runs it ${got} times instead of ${want}`, at: ctx.pos(fn) }); break; }
                    const exp = back === null ? null : back === 0 ? konst(undefined) : made[back];
                    if (exp && out.k !== 'unknown' && !(out === exp || out.k === 'const' && exp.k === 'const' && out.v === exp.v)) ctx.violation({ key: `function.${name}#history:result`, msg: `function.${name}${given}, call ${i} of the function it returns, when the given function returns ${word}: gives back something else`, at: ctx.pos(fn) });
                    if (back === null && out.k !== 'fn' && out.k !== 'unknown') ctx.violation({ key: `function.${name}#history:result`, msg: `function.${name}${given}, call ${i}: gives back no function to call the remaining times`, at: ctx.pos(fn) });
                }
            } catch (x) { if (!(x instanceof Undecided)) throw x; ctx.count('histories_undecided'); ctx.note(`history of ${name}${given}: ${x.message}`); }
        }
    }
    ctx.need('cases', 45);
    ctx.need('traces', 250);
}, 'Trace effects: every wrapper is interpreted abstractly with opaque functions and values (three sizes of the further arguments, results that are objects and results that are falsy); the analysis computes the set of all words of calls it can make, with the identity of every argument, and the identity of what it returns or fulfils its promise with. Both are compared with the documented ones.');
