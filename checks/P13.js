'use strict';
// P13: a failure of an operation or of a caller's function reaches the caller, except where the documentation says otherwise.
const { run, paramNames } = require('./lib');
const V = require('../engine/values');
const { eachEntry } = require('./facts');

// an operation whose failure is an answer of its own kind
const FALLIBLE = /^ext:(fs\.|child_process\.|process\.kill$|process\.chdir|JSON\.|decodeURI|encodeURI|new URL|https?\.|dns\.|net\.|stream\.promises|new RegExp$|new Function$|vm\.)/;
// what is not the failure of an operation: conversions of values, formatting of messages, restrictions of the language
const NEUTRAL = /^(type:|convert:|other$|ext:util\.|throw:packages\/term\/|throw:packages\/types\/)/;
const norm = k => k.replace(/^callback:(ret\()*([^.)@[]*).*$/, 'callback:$2').replace(/^(ext:[\w.]+)@.*$/, '$1');

const LISTEN = /^(on|once|addListener|prependListener|prependOnceListener|addEventListener)$/;

// which failures an entry may keep to itself, in which file (a predicate it asks, a step that is documented to go on), and why
const STAT = [['ext:fs.promises.stat', /\/is(Dir|File)\.ts$/]], LSTAT = [['ext:fs.promises.lstat', /\/(isSymbolicLink|copy)\.ts$/]];
const lnk = f => [['ext:child_process.execFile', f], ['throw:packages/fs/src/readLnk.ts', f]];
const KILL = [['ext:process.kill', /\/kill\.ts$/], ['throw:packages/os/src/kill.ts', /\/kill\.ts$/]];
const MAY = {
    'fs.isDir': STAT, 'fs.isFile': STAT, 'fs.isSymbolicLink': LSTAT,           // "is it?" - what cannot be looked at is not one
    'fs.symbolicLink': [['ext:fs.promises.readlink', /symbolicLink\.ts$/]],    // null for what is not a link
    'fs.clearDir': STAT, 'fs.deleteOne': STAT, 'fs.readlineStream': STAT,      // ask isDir / isFile first
    'fs.copySymbolicLink': [...STAT, ...LSTAT],
    'fs.copy': [...STAT, ...LSTAT],                                            // a destination that is not there yet
    'fs.destPath': [...STAT, ...lnk(/destPath\.ts$/)],                         // a shortcut that cannot be resolved is not a match
    'fs.copyFile': [...STAT, ...lnk(/destPath\.ts$/), ['ext:fs.promises.open', /diffFile\.ts$/], ['ext:fs.promises.copyFile', /(copyFile|destPath)\.ts$/]], // "forcibly": deletes the target and tries again
    'fs.diffFile': [['ext:fs.promises.open', /diffFile\.ts$/]],                // a file that cannot be opened differs
    'fs.fileList': lnk(/fileList\.ts$/), 'fs.findDir': [...lnk(/findDir\.ts$/), ['ext:fs.promises.readdir', /findDir\.ts$/]], // shortcuts and folders that cannot be read are skipped
    'function.ifThrow': [['callback:task']], 'function.noCatch': [['callback:fn']], 'function.padding': [['callback:task']],
    'function.retry': [['callback:task', /catch\/retry\.ts$/]],
    'function.parallel': [['callback:tasks', /catch\/retry\.ts$/], ['throw:packages/function/src/control/parallel.ts', /catch\/retry\.ts$/]],
    'function.nextTick': [['callback:callback']], 'function.setTimeout': [['callback:callback']], // run after the call returned
    'os.kill': KILL, 'os.asyncKill': KILL,                                     // a process that is gone already (ESRCH)
    'os.killWindowsTask': [['ext:child_process.spawn', /killTask\.ts$/], ['reject:packages/process/src/spawn.ts', /killTask\.ts$/], ['ext:child_process.spawnSync', /spawn\.ts$/]], // false when it could not be ended
    'process.spawn': [['ext:child_process.spawnSync', /spawn\.ts$/]], 'process.open': [['ext:child_process.spawnSync', /spawn\.ts$/]], // where the command lies is only a hint
    'cookie.parseSetCookie': [['ext:decodeURIComponent', /parse\.ts$/]],       // keeps the text as it is and reports it on the terminal
    'regexp.isURI': [['ext:decodeURI'], ['ext:encodeURI']]                     // answers whether it is one
};

run('P13', ctx => {
    const { prog } = ctx;
    let caught = new Map();
    eachEntry(ctx, (e, r, I) => {
        const ok = (k, at) => (MAY[e.id] || []).some(([r, f]) => (r === k || r === norm(k)) && (!at || !f || f.test(at)));
        // ---- what a catch clause keeps ---------------------------------------------------------------------------------
        const handled = new Set();
        for (const rs of caught.values()) for (const k of rs.keys()) handled.add(norm(k));
        for (const [n, rs] of caught) {
            const at = prog.pos(n);
            if (/packages\/types\//.test(at)) continue; // predicates answer; P05 decides them
            for (const k of rs.keys()) {
                if (NEUTRAL.test(k)) continue;
                ctx.count('failures_at_handlers');
                // a conversion of a failure that is itself accounted for
                if (/^reject:/.test(k) && [...rs.keys()].some(x => x !== k && !NEUTRAL.test(x) && !/^reject:/.test(x))) continue;
                if (ok(k, at.replace(/:\d+:\d+$/, ''))) { ctx.count('documented'); continue; }
                if (/^ext:/.test(k) && !FALLIBLE.test(k)) continue;
                ctx.violation({ key: `swallowed:${e.id}:${norm(k)}`, msg: `${e.id}: ${text(norm(k))} ends in a handler that goes on as if nothing had happened`, at });
            }
        }
        caught = new Map();
        // ---- what comes out ---------------------------------------------------------------------------------------------
        const out = new Set(), seen = new Set();
        const entry = [...I.memo.values()][0];
        const add = m => { for (const k of (m || new Map()).keys()) out.add(norm(k)); };
        add(entry && entry.reasons); add(I.delivered);
        const visit = (v, d) => {
            for (const o of v.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                add(I.rejects(o));
                if (o.kind === 'func') for (const [k, m] of I.memo) if (k.startsWith(o.key + '|')) { add(m.reasons); if (d > 0) visit(m.ret, d - 1); }
                if (d > 0 && (o.kind === 'alloc' || o.kind === 'instance')) { for (const f of o.fields.values()) visit(f, d - 1); visit(o.rest, d - 1); }
            }
        };
        visit(r.ret, 3);
        // functions an entry stores in an object of the caller or of the module are called later by the caller
        for (const ev of r.events) if (ev.type === 'resolve' && ev.val) visit(ev.val, 2);
        const need = new Map();
        for (const ev of r.events) {
            if (ev.type === 'ext' && FALLIBLE.test('ext:' + ev.name)) need.set('ext:' + ev.name, ev.node);
            if (ev.type === 'callback' && !ev.isNew) need.set(norm('callback:' + ev.obj.org.name), ev.node);
            // the caller's function as a listener: what it throws is thrown at nobody
            if (ev.type === 'extmethod' && LISTEN.test(ev.name) && ev.args.list[1]) for (const o of ev.args.list[1].o) if (o.lazy && ['P', 'R'].includes(o.org.t)) need.set(norm('callback:' + o.org.name), ev.node);
        }
        for (const [k, node] of need) {
            ctx.count('operations');
            if (out.has(k)) { ctx.count('reach_the_caller'); continue; }
            // documented: and it does arrive at the handler that keeps it
            if (ok(k) && (handled.has(k) || (MAY[e.id] || []).some(([r, f]) => r === k && !f))) { ctx.count('documented'); continue; }
            ctx.violation({ key: `lost:${e.id}:${k}`, msg: `${e.id}: ${text(k)} never reaches the caller (it is not awaited, or thrown where nobody can catch it)`, at: prog.pos(node) });
        }
    }, {
        reasons: true,
        onCaught(I, n, rs) { if (!caught.has(n)) caught.set(n, new Map()); for (const [k, x] of rs) caught.get(n).set(k, x); }
    }, e => !/^(types|asserts)\./.test(e.id));
    // ---- what an option switches off --------------------------------------------------------------------------------------
    // "forcibly: false": a copy that fails is not tried again
    for (const m of [{ entry: 'fs.copyFile', param: 'options', opts: { forcibly: false }, strict: /^ext:fs\.promises\.copyFile$/ }]) {
        let ran = false;
        eachEntry(ctx, (e, r0, I) => {
            ran = true;
            caught = new Map();
            I.analyse(e.fn, J => {
                const list = J.entryArgs(e.fn).list.slice(), i = paramNames(prog, e.fn).indexOf(m.param), o = J.alloc(e.fn, 'Object', 'mode');
                for (const [k, x] of Object.entries(m.opts)) J.setProp(V.obj(o), k, x ? V.TRUE : V.FALSE, e.fn, 'init');
                o.own = new Set(Object.keys(m.opts));
                list[i] = V.obj(o);
                return { list, rest: null };
            }, {});
            ctx.count('option_modes');
            for (const [n, rs] of caught) for (const k of rs.keys()) if (m.strict.test(norm(k))) ctx.violation({ key: `swallowed:${e.id}#${Object.keys(m.opts)}:${norm(k)}`, msg: `${e.id} with ${JSON.stringify(m.opts)}: ${text(norm(k))} ends in a handler that goes on as if nothing had happened`, at: prog.pos(n) });
        }, { reasons: true, onCaught(I, n, rs) { if (!caught.has(n)) caught.set(n, new Map()); for (const [k, x] of rs) caught.get(n).set(k, x); } }, e => e.id === m.entry);
        if (!ran) ctx.anchor(false, m.entry);
    }
    ctx.need('operations', 150);
    ctx.need('documented', 30);
}, 'RULE: along the abstract interpretation of every public function each thrown or rejected failure carries what it came from (the failing operation, the caller\'s function, the throw statement). A catch clause or rejection handler that can complete normally, without rethrowing, rejecting or handing the failure to the caller, may only absorb the failures the table documents for that function; and every fallible operation and every function of the caller that an entry runs must have its failure among those that leave the entry (thrown, rejected by the returned promise, thrown by a returned function, or handed to the caller\'s callback).');
function text(k) {
    const [, t, n] = /^(\w+):(.*)$/.exec(k);
    return t === 'ext' ? `a failure of ${n}` : t === 'callback' ? `a failure of the caller's function (${n})` : `an error raised in ${n.replace('packages/', '').replace('/src', '')}`;
}
