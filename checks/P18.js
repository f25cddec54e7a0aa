'use strict';
// P18: iteration helpers: every element once, in the documented order, with the documented arguments; serial ones wait for each
// call, parallel ones start every call before they wait and wait for all; results take the places of their elements.
const { run, entries } = require('./lib');
const { tracer } = require('./traces');

const F = name => ({ t: 'fn', name });
const X = name => ({ t: 'val', name });
const C = v => ({ t: 'const', v });
const A = (name, items) => ({ t: 'arr', name, items });
const O = (name, fields) => ({ t: 'obj', fields, name });

// how the array helpers walk: direction, do they stop at true, do they wait (serial, all at the end, not at all), is there a result
const WALK = {
    each: { right: false, stop: true, wait: 'no' },
    eachAsync: { right: false, stop: true, wait: 'serial' },
    eachParallel: { right: false, stop: false, wait: 'all' },
    eachRight: { right: true, stop: true, wait: 'no' },
    eachRightAsync: { right: true, stop: true, wait: 'serial' },
    eachRightParallel: { right: true, stop: false, wait: 'all' },
    mapAsync: { right: false, stop: false, wait: 'serial', map: true },
    mapParallel: { right: false, stop: false, wait: 'all', map: true },
    mapRight: { right: true, stop: false, wait: 'no', map: true },
    mapRightAsync: { right: true, stop: false, wait: 'serial', map: true },
    mapRightParallel: { right: true, stop: false, wait: 'all', map: true }
};
const INPUTS = [
    { items: [], names: [] },
    { items: [X('a')], names: ['a'] },
    { items: [X('a'), X('b'), X('c')], names: ['a', 'b', 'c'] },
    { items: [C(undefined), C(0), C('')], names: ['undefined', '0', '""'], what: 'falsy elements' },
    { items: [C(null), X('b'), C(false)], names: ['null', 'b', 'false'], what: 'falsy elements' },
    { items: [A('in', [X('i')]), X('b')], names: ['in', 'b'], what: 'an element that is an array' }
];
const RETURNS = { each: 'objects', falsy: 'nothing or falsy values', true: 'true', promise: 'promises', promiseTrue: 'promises of true', thenable: 'thenables of another library' };
function expected(w, names, mode) {
    const n = names.length;
    const order = names.map((_, i) => (w.right ? n - 1 - i : i));
    const prom = mode.startsWith('promise') || mode === 'thenable';
    const calls = [], waits = [];
    const out = [];
    for (const i of order) {
        calls.push(`cb(${names[i]}, ${i}, arr)`);
        const r = mode === 'falsy' ? 'r(cb)' : mode === 'true' ? 'true' : `r(cb of ${names[i]})`;
        if (prom && w.wait === 'serial') calls.push(`await ${r}`);
        if (prom && w.wait === 'all') waits.push(`await ${r}`);
        const v = mode === 'promiseTrue' ? 'true' : r;
        out.push(prom && w.wait === 'no' ? `Promise<${v}>` : v);
        if (w.stop && (mode === 'true' || mode === 'promiseTrue' && w.wait === 'serial')) break;
    }
    const res = w.map ? `[${out.join(', ')}]` : 'undefined';
    return { calls, waits, out: w.wait === 'no' ? res : `Promise<${res}>` };
}

run('P18', ctx => {
    const T = tracer(ctx.prog);
    const es = entries(ctx.prog);
    const find = id => { const e = es.find(x => x.id === id && x.fn); ctx.anchor(e, id); return e && e.fn; };
    const words = (g, keepFail) => [...g.words].filter(w => keepFail || !/(^| ; )!$/.test(w)).map(w => w.replace(/( ; )?!$/, '')).map(w => (w ? w.split(' ; ') : []));
    const once = l => l.filter((x, i) => !x.startsWith('await ') || l.indexOf(x) === i);
    const failed = g => [...g.words].filter(w => /(^| ; )!$/.test(w)).map(w => w.replace(/( ; )?!$/, '')).map(w => once(w ? w.split(' ; ') : []));
    const show = l => (l.length ? `"${l.join(' ; ')}"` : 'no call');

    for (const [name, w] of Object.entries(WALK)) {
        const id = `array.${name}`, fn = find(id);
        if (!fn) continue;
        for (const [k, inp] of INPUTS.entries()) for (const mode of Object.keys(RETURNS)) {
            const got = T.run(fn, { in: [A('arr', inp.items), F('cb')] }, mode, 0);
            ctx.count('cases');
            if (got.incomplete) { ctx.count('incomplete'); ctx.note(`${id} ${k} ${mode}: analysis incomplete`); continue; }
            const g = got.stages[0], want = expected(w, inp.names, mode);
            const where = `${inp.names.length} elements${inp.what ? ` (${inp.what})` : ''}, callback gives ${RETURNS[mode]}`;
            const bad = (what, msg) => ctx.violation({ key: `${id}:${what}`, msg: `${id}: ${msg} (${where})`, at: ctx.pos(fn) });
            const ok = words(g).map(once);
            if (!ok.length) bad('none', 'never ends normally');
            for (const word of ok) {
                if (vague(word.join(' ; ')) && !word.some(x => x.startsWith('any number of '))) continue;
                ctx.count('words');
                const calls = want.waits.length ? word.slice(0, want.calls.length) : word, rest = want.waits.length ? word.slice(want.calls.length) : [];
                if (!same(calls, want.calls)) { bad('calls', `makes ${show(word)}; expected ${show(want.calls)}${want.waits.length ? ' before it waits' : ''}`); continue; }
                if (!covers(rest, want.waits)) bad('waits', `waits for ${show(rest)}; expected ${show(want.waits)}`);
            }
            // a failing call ends the walk: nothing but the beginning of the expected calls was made
            for (const word of failed(g)) {
                if (vague(word.join(' ; '))) continue;
                ctx.count('words');
                const calls = word.filter(x => !(want.waits.length && x.startsWith('await ')));
                if (!same(calls, want.calls.slice(0, calls.length))) bad('failed', `makes ${show(word)} before it fails; expected the beginning of ${show(want.calls)}`);
            }
            ctx.count('results');
            // results put in after a wait come in the order in which the calls end
            if (w.wait === 'all' && w.map && mode.startsWith('promise')) for (const l of got.late) if ([...g.ret.o].some(p => p === l.o || p.rest && p.rest.o.has(l.o))) bad('order', `puts its results in as the calls end, at ${ctx.pos(l.e)}, not in the places of their elements`);
            if (g.out !== want.out && !vague(g.out)) bad('result', `gives back ${g.out}; expected ${want.out}`);
            if (k === 2 && mode === 'promise') ctx.sample(`${id}: ${ok.map(show).join(' | ')} -> ${g.out}`);
        }
    }
    // what the analysis could not follow element by element is neither right nor wrong
    function vague(x) { const r = /some primitive|any number of|some of|…|\||\(,|, ,/.test(x); if (r) ctx.count('undecided'); return r; }
    function same(a, b) { return a.length === b.length && a.every((x, i) => x === b[i] || T.could(x, b[i])); }
    function covers(got, want) {
        const loose = got.filter(x => x.includes('any number of ')).flatMap(x => x.replace('any number of ', '').split('|'));
        return want.every(x => got.includes(x) || loose.includes(x)) && got.every(x => want.includes(x) || x.includes('any number of '));
    }

    // other helpers: case -> words and result
    const ab = A('arr', [X('a'), X('b')]);
    const one = (id, ins, mode, wordsWanted, out, project) => {
        const fn = find(id);
        if (!fn) return;
        ctx.count('cases');
        const got = T.run(fn, { in: ins }, mode, 0);
        if (got.incomplete) { ctx.count('incomplete'); ctx.note(`${id} ${mode}: analysis incomplete`); return; }
        const g = got.stages[0];
        const bad = (what, msg) => ctx.violation({ key: `${id}:${what}`, msg: `${id}: ${msg} (callbacks give ${RETURNS[mode] || mode})`, at: ctx.pos(fn) });
        const seen = new Set();
        let clear = true;
        for (const word of words(g)) {
            if (vague(word.join(' ; '))) { clear = false; continue; }
            ctx.count('words');
            const hit = wordsWanted.find(x => (project ? Object.keys(project).every(p => same(word.filter(c => c.startsWith(p + '(')), x.filter(c => c.startsWith(p + '(')))) && word.length === x.length : same(word, x)));
            if (hit) seen.add(hit);
            else bad('calls', `makes ${show(word)}; expected ${wordsWanted.map(show).join(' or ')}`);
        }
        for (const x of wordsWanted) if (clear && !seen.has(x) && !x.maybe) bad('missing', `never makes ${show(x)}`);
        for (const word of failed(g)) {
            if (vague(word.join(' ; '))) continue;
            ctx.count('words');
            if (!project && !wordsWanted.some(x => same(word, x.slice(0, word.length)))) bad('failed', `makes ${show(word)} before it fails; expected the beginning of ${wordsWanted.map(show).join(' or ')}`);
        }
        if (out !== null) { ctx.count('results'); if (g.out !== out && !vague(g.out)) bad('result', `gives back ${g.out}; expected ${out}`); }
    };
    for (const mode of ['each', 'falsy', 'true', 'promise']) {
        one('array.toObject', [ab, F('mk'), F('mv')], mode, [['mk(a)', 'mv(a)', 'mk(b)', 'mv(b)']], null, { mk: 1, mv: 1 });
        one('array.toObject', [A('arr', [C(0), X('b')]), F('mk'), F('mv')], mode, [['mk(0)', 'mv(0)', 'mk(b)', 'mv(b)']], null, { mk: 1, mv: 1 });
        one('array.toObject', [A('arr', []), F('mk'), F('mv')], mode, [[]], null, { mk: 1, mv: 1 });
        const r = k => (mode === 'true' ? 'true' : mode === 'falsy' ? 'r(conv)' : mode === 'promise' ? `Promise<r(conv of ${k})>` : `r(conv of ${k})`);
        for (const level of [0, 1, 3]) one('object.toArray', [O('obj', { k1: X('x'), k2: X('y') }), F('conv'), C(level)], mode, [['conv("k1", x)', 'conv("k2", y)']], `[${r('"k1"')}, ${r('"k2"')}]`);
        one('object.toArray', [O('obj', { k1: C(undefined), k2: C(0), k3: C('') }), F('conv')], mode, [['conv("k1", undefined)', 'conv("k2", 0)', 'conv("k3", "")']], `[${r('"k1"')}, ${r('"k2"')}, ${r('"k3"')}]`);
        one('object.toArray', [O('obj', {}), F('conv')], mode, [[]], '[]');
    }
    // predicates: the answer is the one the predicates give
    const first = list => list.map(x => x);
    for (const [id, all] of [['types.isEvery', true], ['types.isSome', false]]) {
        verdict(id, [ab, F('p')], 'true', 'true');
        verdict(id, [ab, F('p')], 'falsy', 'false');
        verdict(id, [X('a'), A('ps', [F('p'), F('q')])], 'true', 'true');
        verdict(id, [X('a'), A('ps', [F('p'), F('q')])], 'falsy', 'false');
        verdict(id, [A('arr', []), F('p')], 'true', all ? 'true' : 'false');
    }
    function verdict(id, ins, mode, out) {
        const fn = find(id);
        if (!fn) return;
        ctx.count('cases');
        const got = T.run(fn, { in: ins }, mode, 0);
        if (got.incomplete) { ctx.count('incomplete'); return; }
        ctx.count('results');
        const g = got.stages[0];
        if (g.out !== out && !/\|/.test(g.out)) ctx.violation({ key: `${id}:verdict`, msg: `${id} answers ${g.out} where its predicates give ${mode === 'true' ? 'true' : 'false'} (${first(ins).length} arguments); expected ${out}`, at: ctx.pos(fn) });
        const n = ins[0].t === 'arr' ? ins[0].items.length : 1;
        for (const word of words(g)) { ctx.count('words'); for (const c of word) if (!/^[pq]\((a|b)[,)]/.test(c)) ctx.violation({ key: `${id}:calls`, msg: `${id} hands its predicate something else than an element: ${c}`, at: ctx.pos(fn) }); if (n && !word.length) ctx.violation({ key: `${id}:calls`, msg: `${id} can answer without asking a predicate`, at: ctx.pos(fn) }); }
    }
    // comparison with the caller's function
    const obj = (n, f) => O(n, f);
    one('object.shallowEqual', [obj('A', { k: X('x') }), obj('B', { k: X('y') }), F('compare')], 'true', [['compare(A, B)']], 'true');
    // (whether B owns the key is not decided exactly, so the comparison may look skipped)
    one('object.shallowEqual', [obj('A', { k: X('x') }), obj('B', { k: X('y') }), F('compare')], 'falsy', [['compare(A, B)', 'compare(x, y, "k")'], Object.assign(['compare(A, B)'], { maybe: true })], 'false');
    one('object.shallowEqual', [obj('A', { k: X('x') }), obj('B', { l: X('y') }), F('compare')], 'falsy', [['compare(A, B)'], Object.assign(['compare(A, B)', 'compare(x, undefined, "k")'], { maybe: true })], 'false');
    one('object.shallowEqual', [obj('A', { k: X('x') }), obj('B', { k: X('y'), l: X('z') }), F('compare')], 'falsy', [['compare(A, B)']], 'false');
    ctx.need('cases', 300);
    ctx.need('words', 500);
}, 'Trace effects: every helper is interpreted abstractly with arrays of 0, 1, 2, 3 and 5 elements (opaque, falsy, nested) and an opaque callback that gives objects, falsy values, true, promises or promises of true; the words of calls and waits and the identity of every element of the result are compared with those of the documented walk.');
