'use strict';
// P10: text from the caller never becomes code (shell, PowerShell, JavaScript, pattern syntax).
const { run, via, ts, paramNames } = require('./lib');
const { eachEntry } = require('./facts');
const { publicDecl } = require('../engine/models');
const V = require('../engine/values');
const { parse, has } = require('../engine/regex');

// parameters that are code by documentation
const CODE = {
    'process.exec': ['command'], 'process.spawn': ['cmd', 'opts.shell'], 'process.open': ['opts.command', 'opts.shell'],
    'string.toRegExp': ['flags'], 'util.copy': ['value'], 'util.copyAttrs': ['src', 'dest']
};
const PARSE_ONLY = new Set(['types.isVarName', 'asserts.assertVarName']);
const CH = s => [...s].map(c => c.charCodeAt(0));
const SH = CH('\r\n\t \'"`#$&*;?|()<>[]{}!\\'), CMD = CH(' |!%^&()<>"'), PS = CH('\'\u2018\u2019\u201a\u201b'), RX = CH('^$\\.*+?()[]{}|'), RC = CH('\\]^-');
const covers = (rs, cs) => cs.every(c => has(rs, c));
const isP = l => l.startsWith('P:');

function texts(v) {
    // every pattern a value can be: [{src, flags}] or null
    const out = [];
    for (const o of v.o) {
        if (o.regex !== undefined) { const i = o.regex.lastIndexOf('/'); out.push({ src: o.regex.slice(1, i), flags: o.regex.slice(i + 1) }); continue; }
        const c = o.patternV && V.consts(o.patternV);
        if (!c || o.flags === null) return null;
        for (const s of c) out.push({ src: String(s), flags: o.flags || '' });
    }
    return out;
}
// one pattern that matches exactly one character of a set (or, `before`, the place in front of one)
function single(t) {
    let x;
    try { x = parse(t.src, t.flags); } catch { return null; }
    while (x.t === 'cat' && x.a.length === 1) x = x.a[0];
    let before = false;
    if (x.t === 'look' && !x.neg) { before = true; x = x.x; while (x.t === 'cat' && x.a.length === 1) x = x.a[0]; }
    if (x.t === 'alt' && x.a.every(y => y.t === 'cat' && y.a.length === 1 && y.a[0].t === 'set')) x = { t: 'set', rs: x.a.flatMap(y => y.a[0].rs).sort((a, b) => a[0] - b[0]) };
    return x.t === 'set' ? { rs: x.rs, before } : null;
}
// which languages a replacement makes text safe for: what every character of the pattern becomes
function escapes(pat, rep, I, e, all, st) {
    const c = V.consts(rep);
    const str = pat.p === V.STR && !pat.o.size && V.consts(pat);
    const ts_ = str ? str.map(s => ({ set: [...s], all })) : pat.p ? null : texts(pat);
    if (!ts_ || !ts_.length || (rep.p && (!c || c.length !== 1 || typeof c[0] !== 'string'))) return new Set();
    let kinds = null;
    for (const t of ts_) {
        const k = new Set();
        let chars = null, before = false;
        if (t.set) { if (t.all && t.set.length === 1) chars = t.set; } else {
            const s = single(t);
            if (s && t.flags.includes('g')) {
                const n = s.rs.reduce((m, [x, y]) => m + y - x + 1, 0);
                before = s.before;
                if (n <= 256) { chars = []; for (const [x, y] of s.rs) for (let i = x; i <= y; i++) chars.push(String.fromCharCode(i)); }
            }
        }
        if (chars && chars.length) {
            const map = new Map();
            for (const ch of chars) {
                let r;
                if (c) r = c[0].replace(/\$([$&])/g, (m, x) => (x === '$' ? '$' : before ? '' : ch));
                else {
                    const rv = [...rep.o].map(o => I.callValue(V.obj(o), V.UNDEF, { list: [V.konst(before ? '' : ch), V.NUMV, V.STRV], rest: null }, e, st));
                    const rc = rv.length === 1 && V.consts(rv[0]);
                    r = rc && rc.length === 1 ? String(rc[0]) : null;
                }
                map.set(ch, r === null ? null : before ? r + ch : r);
            }
            const every = (cs, f) => cs.every(x => { const ch = String.fromCharCode(x); return map.has(ch) && f(map.get(ch), ch); });
            const only = cs => chars.every(ch => cs.includes(ch.charCodeAt(0)));
            if (only([39]) && every([39], r => r === "'\\''" || r === "'\"'\"'")) k.add('sh');
            if (every(CMD, (r, ch) => r === '^' + ch) && chars.every(ch => map.get(ch) === '^' + ch)) k.add('cmd');
            if (only(PS) && every(PS, (r, ch) => r === ch + ch || r === "''")) k.add('ps');
            // a backslash in front of an ordinary character would change its meaning
            if (chars.every(ch => map.get(ch) === '\\' + ch && !/[\w]/.test(ch) && ch < '\x7f')) {
                if (every(RX, () => true)) k.add('rx');
                if (every(RC, () => true)) k.add('rc');
            }
        }
        kinds = kinds === null ? k : new Set([...kinds].filter(x => k.has(x)));
    }
    return kinds || new Set();
}
// ---- does replacing a match leave what a POSIX shell reads unchanged? ----
// lexer states: 0 unquoted, 1 in single quotes, 2 after an unquoted backslash
function lex(state, word) {
    let out = '';
    for (const c of word) {
        if (state === 2) { out += c; state = 0; } else if (state === 1) { if (c === "'") state = 0; else out += c; } else if (c === "'") state = 1; else if (c === '\\') state = 2; else out += c;
    }
    return { state, out };
}
function neutral(pat, rep) {
    const ps = texts(pat), c = V.consts(rep);
    if (!ps || !ps.length || pat.p || !c || c.length !== 1 || typeof c[0] !== 'string' || /\$[$&`'\d<]/.test(c[0])) return false;
    return ps.every(t => {
        let x;
        try { x = parse(t.src, t.flags); } catch { return false; }
        let seq = x.t === 'cat' ? x.a.slice() : [x];
        let starts = [0, 1, 2], notEnd = false;
        if (seq.length && seq[0].t === 'as' && seq[0].k === '^') { starts = [0]; seq.shift(); }
        const last = seq[seq.length - 1];
        if (last && last.t === 'look' && last.neg && last.x.t !== 'alt' && JSON.stringify(last.x).includes('"as"') && !JSON.stringify(last.x).includes('"set"')) { notEnd = true; seq.pop(); }
        // an argument must not disappear
        if (c[0] === '' && !notEnd) return false;
        const words = (n) => {
            if (n.t === 'set') return n.rs.length === 1 && n.rs[0][0] === n.rs[0][1] ? [String.fromCharCode(n.rs[0][0])] : null;
            if (n.t === 'cat') return n.a.reduce((acc, y) => { const w = acc && words(y); return w && acc.flatMap(p => w.map(q => p + q)); }, ['']);
            if (n.t === 'alt') { const w = n.a.map(words); return w.every(Boolean) ? w.flat() : null; }
            if (n.t === 'rep') {
                const w = words(n.x);
                if (!w) return null;
                // repetition of words that each leave the reader where it was
                if (n.max === Infinity && !w.every(y => starts.every(s => { const r = lex(s, y); return r.state === s && r.out === ''; }))) return null;
                const out = [];
                for (let i = n.min; i <= Math.min(n.max, n.min + 1); i++) out.push(...Array.from({ length: i }).reduce(acc => acc.flatMap(p => w.map(q => p + q)), ['']));
                return n.max !== Infinity && n.max > n.min + 1 ? null : out;
            }
            return null;
        };
        const ws = words({ t: 'cat', a: seq });
        return !!ws && ws.every(w => starts.every(s => { const a = lex(s, w), b = lex(s, c[0]); return a.state === b.state && a.out === b.out; }));
    });
}

run('P10', ctx => {
    const { prog } = ctx;
    const verified = {};
    let envMode = null, prune = false, cur = null, sinkUse = null;
    const bare = l => l.replace(/^P:/, '').replace(/~.*$/, '').replace(/\[\]/g, '');
    const foreign = ls => [...ls].filter(isP).filter(l => !(CODE[cur.id] || []).some(p => bare(l) === p || bare(l).startsWith(p + '.')));
    const report = (e, stack, key, msg) => ctx.violation({ key: `${cur.id}#${key}`, msg: `${cur.id}: ${msg}`, at: ctx.pos(e), path: stack ? via(prog, { stack, node: e }) : '' });
    const textLabels = (I, v) => { const l = new Set(); if (v.p & ~(V.NUM | V.T | V.F | V.U | V.N | V.BIG)) for (const x of v.l) l.add(x); for (const o of v.o) for (const x of I.labelsDeep(V.obj(o))) l.add(x); return l; };
    const names = ls => [...new Set(ls.map(bare))].join(', ');
    // elements of an argument vector: [{labels, before}] with the constant in front of each
    const vector = (I, v) => {
        const out = [];
        for (const o of v.o) {
            if (o.org.t === 'P') { out.push({ own: true, labels: textLabels(I, V.obj(o)), before: [] }); continue; }
            const pos = I.positional(V.obj(o));
            if (pos) { pos.forEach((x, i) => out.push({ labels: textLabels(I, x), before: pos.slice(0, i).map(V.consts), index: i })); continue; }
            out.push({ labels: textLabels(I, I.elements(V.obj(o))), before: null });
        }
        return out;
    };
    const ok = { sh: l => /~sh(?![a-z])/.test(l) && /~Q/.test(l), cmd: l => /~cmd/.test(l), ps: l => /~ps/.test(l) && /~Q/.test(l) };
    const mustBe = (I, e, ls, lang, what) => {
        for (const l of foreign(ls)) {
            ctx.count('code_positions_examined');
            if ((Array.isArray(lang) ? lang : [lang]).some(k => ok[k](l))) { for (const k of [].concat(lang)) if (ok[k](l)) (verified[cur.id] = verified[cur.id] || new Set()).add(`${bare(l)}: ${k}`); continue; }
            if (!prune && [].concat(lang).includes('sh') && cur.id.startsWith('process.')) continue; // decided in the pass with the guard taken
            if (process.env.DBG) console.log(l, lang, prune);
            report(e, null, `${what}:${bare(l)}`, `\`${bare(l)}\` can reach ${what === 'shell' ? 'a shell command' : what} without being quoted for it`);
        }
    };
    const shellSink = (I, e, ls, what = 'shell') => { const f = foreign(ls); ctx.count('code_positions_examined', Math.max(1, f.length)); if (f.length) report(e, null, `${what}:${names(f)}`, `\`${names(f)}\` becomes part of a shell command`); };
    // a setting of the environment that may be missing: whether a shell is used is decided for each case of it
    const optTruthy = (I, v) => { if (!v || !v.o.size) return false; const s = I.getProp(v, 'shell'); return V.truthy(s).t && !(envMode === null && s.l.has('ENV')); };
    const vectorSink = (I, e, cmdV, argV, shell) => {
        const c = V.consts(cmdV);
        const prog_ = (c || []).map(String).map(x => x.toLowerCase().replace(/^.*[\\/]/, '').replace(/\.exe$/, ''));
        const cl = textLabels(I, cmdV);
        ctx.count('commands_examined');
        if (!c && foreign(cl).length) report(e, null, `program:${names(foreign(cl))}`, `\`${names(foreign(cl))}\` decides which program runs`);
        for (const x of vector(I, argV)) {
            if (shell) { shellSink(I, e, x.labels); continue; }
            const flags = x.before === null ? null : x.before.flatMap(b => b || []).map(b => String(b).toLowerCase());
            // the command line spawn builds: which quoting belongs to which position is decided where it is put in (onGrow)
            if (/^process\.(spawn|open)$/.test(cur.id) && !x.own) mustBe(I, e, x.labels, ['sh', 'cmd'], 'shell');
            else if (prog_.some(p => /^(powershell|pwsh)$/.test(p))) mustBe(I, e, x.labels, 'ps', 'a PowerShell command');
            else if (prog_.some(p => /^(node|deno|bun|python\d?|perl|ruby|php|osascript|lua)$/.test(p))) mustBe(I, e, x.labels, [], 'a script');
            else if (prog_.some(p => /^(ba|z|da|k)?sh$/.test(p)) || (flags && flags.includes('-c') && !prog_.length)) mustBe(I, e, x.labels, 'sh', 'shell');
            else if (prog_.includes('cmd') || (flags && flags.includes('/c'))) mustBe(I, e, x.labels, 'cmd', 'shell');
            else if (/script$/.test(prog_[0] || '') && x.index === 0) shellSink(I, e, x.labels, 'the script to run');
            else ctx.count('plain_arguments', [...x.labels].filter(isP).length);
        }
    };
    const hooks = {
        numText: () => V.EMPTY,
        onEnv(I, n) {
            if (envMode === null) return null;
            const o = I.alloc(n || null, 'Object', 'env' + envMode);
            for (const k of ['ComSpec', 'COMSPEC', 'comspec', 'SHELL']) I.setProp(V.obj(o), k, envMode === '' ? V.UNDEF : V.konst(envMode), n, 'init');
            o.shadow = new Set(o.fields.keys());
            o.rest = I.unknownV(null, 'process.env', new Set(['ENV']));
            return V.obj(o);
        },
        onTest(I, o, a, e, key) {
            if (!prune || key !== 'test') return null;
            const t = texts(V.obj(o));
            if (!t || !t.length) return null;
            // text without any of these characters is one shell word as it stands: only the other branch needs quoting
            return t.every(x => { const s = single(x); return s && !s.before && covers(s.rs, SH); }) ? (ctx.count('safe_word_guards'), V.TRUE) : null;
        },
        onReplace(I, e, sv, pat, rep, rl, all, st) {
            const k = escapes(pat, rep, I, e, all, st);
            const keep = neutral(pat, rep);
            const l = new Set();
            for (const x of sv.l) {
                if (/~sh|~Q|~ps/.test(x)) { l.add(keep ? x : k.has('cmd') ? V.mark(x, '~cmd') : x.replace(/~(sh|Q|ps)/g, '~x')); continue; }
                let y = x;
                for (const m of k) y = V.mark(y, '~' + m);
                l.add(y);
            }
            if (k.size || keep) ctx.count('quoting_replacements');
            // replacement text of the caller is read as a template: `$&` and its like are instructions
            return V.mk(V.STR, null, V.EMPTY, k.size ? l : V.union(l, V.union(rl.l, rep.l)));
        },
        onConcat(I, node, parts, r) {
            const l = new Set();
            parts.forEach((p, i) => {
                const prev = i ? V.consts(parts[i - 1]) : null, next = i + 1 < parts.length ? V.consts(parts[i + 1]) : null;
                const q1 = prev && prev.every(x => /'$/.test(String(x))), q2 = next && next.every(x => /^'/.test(String(x)));
                const cls = prev && prev.some(x => /\[\^?[^\]]*$/.test(String(x).replace(/\\./g, '')));
                for (let x of textLabels(I, p)) {
                    if (/~(sh|ps)(?![a-z])/.test(x) && !x.includes('~Q')) { if (q1) x = V.mark(x, '~q'); if (q2 && x.includes('~q')) x = x.replace('~q', '~Q'); }
                    if (cls && isP(x)) x = V.mark(x, '~cls');
                    l.add(x);
                }
            });
            return new V.Val(r.p, r.p & V.CONSTK ? r.c : V.NOC, r.o, l);
        },
        onMatch(I, key, sv, pat, e) {
            if ((key === 'match' || key === 'search' || key === 'matchAll') && (pat.p & V.STR) && !V.consts(pat)) { ctx.count('patterns_built'); const f = foreign(pat.l); if (f.length) report(e, null, `pattern:${names(f)}`, `\`${names(f)}\` is read as a regular expression`); }
            return null;
        },
        onGrow(I, o, args, e) {
            if (!/^process\./.test(cur.id)) return;
            const flags = args.list.map(V.consts);
            args.list.forEach((x, i) => {
                const b = flags.slice(0, i).flatMap(c => c || []).map(String);
                if (b.includes('-c')) mustBe(I, e, textLabels(I, x), 'sh', 'shell');
                else if (b.some(y => y.toLowerCase() === '/c')) mustBe(I, e, textLabels(I, x), 'cmd', 'shell');
            });
        },
        onExt(I, name, args, e, st) {
            const a = i => I.argAt(args, i);
            const m = /^child_process\.(\w+)$/.exec(name);
            if (m) {
                if (/^exec(Sync)?$/.test(m[1])) { ctx.count('commands_examined'); shellSink(I, e, textLabels(I, a(0))); } else if (/^(spawn|spawnSync|execFile|execFileSync|fork)$/.test(m[1])) {
                    const hasArgs = [...a(1).o].some(o => o.cls === 'Array' || o.org.t === 'P') || !a(1).o.size;
                    const opt = hasArgs ? a(2) : a(1);
                    // the caller's own option object: whether it asks for a shell is decided in the analysed modes
                    const shell = [...opt.o].some(o => o.org.t !== 'P' && optTruthy(I, V.obj(o))) || (!CODE[cur.id] && optTruthy(I, opt));
                    if (shell) shellSink(I, e, textLabels(I, a(0)));
                    vectorSink(I, e, a(0), hasArgs ? a(1) : V.BOT, shell);
                }
            }
            if (m || /^fs\./.test(name)) {
                // what a program prints or a folder holds is outside text again, whatever was done to the arguments
                const l = new Set();
                for (const x of args.list) for (const y of I.labelsDeep(x)) l.add(y.replace(/~.*$/, ''));
                I.invokeArgs(args, e, st);
                I.noteThrow(I.unknownV(e, 'extthrow'), e);
                return I.unknownV(e, name, l);
            }
            if (/^vm\.|^(global\.|globalThis\.)?eval$/.test(name)) report(e, null, 'eval', `runs ${name}`);
            if (/^(setTimeout|setInterval)$/.test(name) && (a(0).p & V.STR) && foreign(a(0).l).length) report(e, null, 'timer', `\`${names(foreign(a(0).l))}\` is run as code by ${name}`);
            return null;
        },
        onNew(I, name, args, e) {
            if (name === 'Function' || /^vm\./.test(name)) {
                ctx.count('generated_functions');
                if (CODE[cur.id] && cur.id.startsWith('util.')) return null;
                const all = [...args.list, ...(args.rest ? [args.rest] : [])];
                const f = foreign(new Set(all.flatMap(x => [...I.labelsDeep(x)])));
                if (!PARSE_ONLY.has(cur.id)) { report(e, null, 'function', f.length ? `\`${names(f)}\` becomes the code of a generated function` : 'generates code at run time'); return null; }
                const o = I.alloc(e, 'Function', 'parsedOnly');
                o.kind = 'native';
                o.impl = () => { report(e, null, 'function-run', 'runs the code it was only meant to parse'); return V.ANY || V.UNDEF; };
                o.parsedOnly = true;
                return V.obj(o);
            }
            if (name === 'RegExp') {
                ctx.count('patterns_built');
                const p = I.argAt(args, 0);
                for (const l of foreign(p.l)) {
                    ctx.count('pattern_pieces_examined');
                    if (!(p.p & V.STR)) continue;
                    if (l.includes('~cls') ? /~rc/.test(l) : /~rx/.test(l)) { (verified[cur.id] = verified[cur.id] || new Set()).add(`${bare(l)}: pattern`); continue; }
                    report(e, null, `pattern:${bare(l)}`, `\`${bare(l)}\` is read as regular expression syntax instead of text`);
                }
            }
            return null;
        }
    };
    // events do not reach the hooks with a stack: positions suffice
    const before = (id) => { cur = { id }; };
    const touched = new Set();
    let I = eachEntry(ctx, (e, r) => {
        for (const ev of r.events) if (ev.type === 'ext' && /^child_process\./.test(ev.name)) touched.add(e.id);
        if (PARSE_ONLY.has(e.id) && r.ret && [...r.ret.o].some(o => o.parsedOnly)) report(e.fn, null, 'function-returned', 'hands out the code it was only meant to parse');
    }, hooks, e => { before(e.id); return e.id !== 'util.copy'; });
    // the process entries once more: every shell mode, with text that needs quoting
    const opts = (fn, o) => J => {
        const list = J.entryArgs(fn).list.slice();
        const i = paramNames(prog, fn).findIndex(n => /^(opts|options)$/.test(n));
        const x = J.alloc(fn, 'Object', 'mode' + JSON.stringify(o));
        for (const [k, y] of Object.entries(o)) J.setProp(V.obj(x), k, typeof y === 'string' ? V.konst(y) : y ? V.TRUE : V.FALSE, fn, 'init');
        x.own = new Set(Object.keys(o));
        list[i] = V.obj(x);
        return { list, rest: null };
    };
    prune = true;
    for (envMode of ['C:\\Windows\\system32\\cmd.exe', '/bin/bash']) for (const mode of [null, { shell: true }, { shell: '/bin/bash' }, { shell: 'C:\\Windows\\cmd.exe' }, { shell: false }, {}]) {
        eachEntry(ctx, (e, r, J) => {
            if (!mode) return;
            ctx.count('shell_modes');
            J.analyse(e.fn, opts(e.fn, mode), {});
        }, hooks, e => { before(e.id); return mode ? e.id === 'process.spawn' : touched.has(e.id); });
    }
    // an empty argument stays an argument
    let pushed = [];
    const probe = { ...hooks, onGrow(I, o, args) { const cs = args.list.map(V.consts); cs.forEach((c, i) => { if (cs.slice(0, i).some(b => b && b.some(x => /^(-c|\/c)$/i.test(String(x))))) pushed.push(c); }); }, onExt: null, onNew: null, onTest: hooks.onTest };
    delete probe.onExt; delete probe.onNew;
    envMode = 'C:\\Windows\\system32\\cmd.exe';
    eachEntry(ctx, (e, r0, J) => {
        pushed = [];
        J.analyse(e.fn, J2 => {
            const a = J2.alloc(e.fn, 'Array', 'emptyArg');
            J2.setProp(V.obj(a), '0', V.konst(''), e.fn, 'init');
            const x = J2.alloc(e.fn, 'Object', 'emptyMode');
            J2.setProp(V.obj(x), 'shell', V.TRUE, e.fn, 'init');
            x.own = new Set(['shell']);
            return { list: [V.konst('program'), V.obj(a), V.obj(x)], rest: null };
        }, {});
        for (const c of pushed) {
            if (!c) { ctx.note('the command line for an empty argument is not a known text'); continue; }
            ctx.count('empty_argument_commands');
            const bad = c.map(String).find(x => /^program(\s|$)/.test(x) && x !== 'program' && !/^program( +(''|""))+$/.test(x));
            if (bad !== undefined) ctx.violation({ key: 'process.spawn#empty', msg: `process.spawn loses an empty argument (the command line becomes ${JSON.stringify(bad)})`, at: ctx.pos(e.fn) });
        }
    }, probe, e => e.id === 'process.spawn');
    // the caller's arguments reach a shell only through quoting, and they do reach it
    for (const k of ['args: sh', 'args: cmd']) { ctx.count('quoted_routes_required'); if (!(verified['process.spawn'] || new Set()).has(k)) ctx.violation({ key: `process.spawn#no-${k.slice(6)}`, msg: `process.spawn has no verified route of \`args\` into a ${k.slice(6) === 'sh' ? 'POSIX' : 'Windows'} shell command`, at: '' }); }
    ctx.lists.quoted = Object.fromEntries(Object.entries(verified).map(([k, v]) => [k, [...v].sort().join('; ')]));
    ctx.anchor(publicDecl(prog, 'process', 'spawn'), 'process.spawn');
    ctx.need('entries', 600);
    ctx.need('commands_examined', 15);
    ctx.need('patterns_built', 20);
    ctx.need('pattern_pieces_examined', 6);
    ctx.need('safe_word_guards', 1);
    ctx.need('shell_modes', 4);
    ctx.need('generated_functions', 2);
}, 'Provenance of text at every code position. Positions: shell commands, program names, command lines of interpreters, generated functions, regular expressions. A piece that comes from the caller (and is not code by documentation) must have passed a replacement that escapes every special character of that language: the character class, the flags and the replacement are checked, the quotes around it, and that later replacements leave what the shell reads unchanged (comparison on the states of its lexer). A guard that lets text through unquoted must exclude every special character.');
