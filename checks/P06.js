'use strict';
// P06: what a function returns is new; it never is, and never holds, the array or object the caller passed in.
const { run, ts, paramNames } = require('./lib');
const { eachEntry } = require('./facts');

// entry#parameter -> why its documentation says the caller's own container comes back
const SHARED = {
    'array.move#array': 'in place', 'array.sortByEng#value': 'in place', 'array.sortByEngInitials#value': 'in place', 'array.sortWords#value': 'in place',
    'array.toArray#value': 'documented to return an array as it is', 'array.toTree#items': 'the assign option builds the tree from the given items',
    'object.deleteAttrs#obj': 'in place', 'util.copyAttrs#dest': 'in place',
    'object.getFromPaths#entity': 'an empty path addresses the entity itself',
    'object.cascade#obj': 'a key that addresses no property addresses the source object itself',
    'function.toPromise#value': 'a promise of the given value', 'function.executeToPromise#value': 'a promise of the given value',
    'function.toggle#defaultValue': 'hands out one of the two given values', 'function.toggle#reverseValue': 'hands out one of the two given values',
    'process.open#args': 'passed on to the process', 'process.spawn#args': 'passed on to the process'
};
const FN = /^(task|fn|callable|callback|doIf|doElse|fallback)$/;

run('P06', ctx => {
    const used = new Set();
    eachEntry(ctx, (e, r, I) => {
        if (e.id === 'util.copy' || !r.ret) return;
        const rest = new Set(paramNames(ctx.prog, e.fn).filter((n, i) => e.fn.parameters.filter(p => p.name.getText() !== 'this')[i].dotDotDotToken));
        const seen = new Set();
        const visit = (v, d, path, top) => {
            for (const o of v.o) {
                if (o.org.t === 'P') {
                    ctx.count('shared_references_examined');
                    const nm = o.org.name;
                    const isRoot = !/[.[]/.test(nm);
                    const isRest = top && rest.has(nm.replace(/\[\]$/, '')) && /^[^.[]*\[\]$/.test(nm);
                    if (!isRoot && !isRest) continue; // an element or a property of the argument
                    const root = nm.replace(/[.[].*$/, '');
                    if (FN.test(root)) continue; // a function the caller passed, not a container
                    const key = `${e.id}#${root}`;
                    if (SHARED[key]) { used.add(key); continue; }
                    ctx.violation({ key: `${key}${top ? '' : ':inside'}`, msg: `${e.id} can return ${top ? '' : 'a result that contains '}the caller's own \`${root}\` (${path}) instead of a new value`, at: ctx.pos(e.fn) });
                    continue;
                }
                if (seen.has(o) || d > 6 || !o.fields || o.org.t !== 'F') continue;
                seen.add(o);
                for (const [k, f] of o.fields) visit(f, d + 1, `${path}.${String(k)}`, false);
                visit(o.rest, d + 1, path + '[]', false);
            }
        };
        visit(r.ret, 0, 'result', true);
        ctx.count('results_examined');
        if (r.ret.o.size) ctx.sample(`${e.id}: ${r.ret.o.size} result objects, ${seen.size} reachable objects created by the call`);
    });
    ctx.lists.documented_sharing_confirmed = [...used].sort();
    ctx.need('entries', 600);
    ctx.need('results_examined', 580);
}, 'Alias analysis of results: for every public function the abstract objects reachable from the returned value are traced to their allocation; one that is the argument itself (rather than an element of it or an object the call created) is a violation unless the documentation of the function says so.');
