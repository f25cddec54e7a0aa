'use strict';
// P01: no public function changes an object its caller passed in (except those whose documented purpose is to do so).
const { run, via } = require('./lib');
const { eachEntry } = require('./facts');

// entry#parameter -> why the documentation says so
const IN_PLACE = {
    'array.move#array': 'moves an element inside the given array',
    'array.sortByEng#value': 'sorts the given array in place',
    'array.sortByEngInitials#value': 'sorts the given array in place',
    'array.sortWords#value': 'sorts the given array in place',
    'object.deleteAttrs#obj': 'deletes attributes of the given object',
    'util.copyAttrs#dest': 'copies attributes onto the given destination'
};

run('P01', ctx => {
    const seen = new Set();
    eachEntry(ctx, (e, r, I, variant) => {
        if (e.id === 'util.copy') return; // decided by the deep-copy property
        for (const ev of r.events) {
            if (ev.type !== 'mutate') continue;
            const o = ev.obj;
            ctx.count('writes_examined');
            if (!'PRC'.includes(o.org.t)) continue;
            if (ev.prop === 'lastIndex') { ctx.count('match_position_writes'); continue; }
            const root = o.org.name.replace(/^\d+\./, '').replace(/[.[].*$/, '');
            const key = `${e.id}#${o.org.t === 'P' ? '' : o.org.t + ':'}${root}`;
            if (IN_PLACE[key]) { seen.add(key); continue; }
            if (variant.mutates && variant.mutates.includes(root)) { seen.add(key + variant.name); continue; }
            const path = o.org.name.replace(/^\d+\./, '');
            ctx.violation({ key, msg: `${e.id} changes ${o.org.t === 'P' ? "its caller's argument" : o.org.t === 'R' ? "an argument of the function it returns" : 'a value produced by a callback'} \`${path}\` (${ev.how} of property ${ev.prop})`, at: ctx.pos(ev.node), path: via(ctx.prog, ev) });
        }
        if (r.events.some(x => x.type === 'mutate')) ctx.sample(`${e.id}${variant.name ? ' [' + variant.name + ']' : ''}: ${r.events.filter(x => x.type === 'mutate').length} writes, all to objects it created itself`);
    });
    ctx.lists.in_place_confirmed = [...seen].sort();
    ctx.need('entries', 600);
}, 'Flow-sensitive interprocedural may-alias/effect analysis over the type-checked program: each public function is interpreted abstractly with unknown arguments (allocation-site heap, callbacks and returned closures included); every property write, delete, defineProperty and mutating builtin is resolved to the abstract objects it may hit, and one that originates in an argument is a violation. Sanctioned in-place functions are a named table.');
