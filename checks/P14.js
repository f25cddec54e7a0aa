'use strict';
// P14: what a call opens is closed by the time its promise is settled, on every path.
const { run } = require('./lib');
const { Release } = require('../engine/release');

run('P14', ctx => {
    const R = new Release(ctx.prog);
    const found = R.run();
    for (const [k, n] of Object.entries(R.stats)) ctx.count(k, n);
    ctx.lists.resources_tracked = R.resources.map(r => `${r.kind} ${r.name} at ${ctx.pos(r.at)}`);
    if (R.over) ctx.note('a set of paths grew past its bound');
    for (const f of found) {
        const name = f.fn.name ? f.fn.name.text : owner(f.fn);
        ctx.violation({ key: `${name}:${f.r.name}:${f.rule}`, msg: `${name}: ${f.what}`, at: ctx.pos(f.at), path: `opened at ${ctx.pos(f.r.at)}` });
    }
    function owner(n) { for (let x = n.parent; x; x = x.parent) if (x.name && x.body) return x.name.text || x.name.getText(); return 'module'; }
    ctx.need('functions', 800);
    ctx.need('executors', 10);
    ctx.need('listeners', 15);
    ctx.need('resources', 5);
}, 'Typestate over all paths: every function that waits is walked with a set of tokens for the handles, descriptors and timers it has open, with branches on their presence, loops, exceptions and finally blocks; every promise executor and the listeners it registers (helpers included) are walked with what the executor opened; a path that ends, fails or settles the promise with something open is a violation.');
