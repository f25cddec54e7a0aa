'use strict';
// P09: which path every file operation acts on.
const { run, via, paramNames } = require('./lib');
const { eachEntry } = require('./facts');
const { classify } = require('./effects');
const V = require('../engine/values');

// Every path value carries where it came from: `P:param`, plus ~sub (a place below it), ~up (a folder above it), ~seg (only a
// piece of a longer path), ~name (an entry name read from a folder), ~link (a link target), ~out (output of a program), ~x (edited text).
// shape notation: "p" the path itself, "p/" a place below it, "p^" the folder holding it, "p/^" the folder holding a place below it.
const SPEC = {
    'fs.deleteOne': { delete: ['pathString'] },
    'fs.clearDir': { delete: ['pathString/'] },
    'fs.copy': { write: ['toPath', 'toPath/'], create: ['toPath', 'toPath/', 'toPath^', 'toPath/^'], source: ['fromPath', 'fromPath/'] },
    'fs.copyFile': { write: ['desDir/'], delete: ['desDir/'], create: ['desDir/^'], source: ['filePath'] },
    'fs.destPath': { create: ['desDir/^'] },
    'fs.copySymbolicLink': { write: ['toPath'], create: ['toPath^'], source: ['fromPath'] },
    'fs.mkdir': { create: ['dirPath'] },
    'fs.writeFile': { write: ['filePath'], create: ['filePath^'], data: ['data'] },
    'fs.readFile': { read: ['filePath'] }, 'fs.readFragment': { read: ['filePath'] }, 'fs.readlineStream': { read: ['pathString'] },
    'fs.diffFile': { read: ['pathString1', 'pathString2'] },
    'fs.isDir': { look: ['pathString'] }, 'fs.isFile': { look: ['pathString'] }, 'fs.isSymbolicLink': { look: ['pathString'] }, 'fs.symbolicLink': { look: ['pathString'] },
    'fs.fileList': { list: ['dirName', 'dirName/', 'dirName>', 'dirName/>'] }, 'fs.findDir': { list: ['pathString', 'pathString/', 'pathString>', 'pathString/>'] }
};
// shapes that need not be seen (the operation is allowed there, not required)
const OPTIONAL = { 'fs.copy': ['toPath/', 'toPath', 'toPath^', 'toPath/^', 'fromPath/'], 'fs.fileList': ['dirName/', 'dirName>', 'dirName/>'], 'fs.findDir': ['pathString/', 'pathString>', 'pathString/>'] };
// operation -> [kind, argument index] pairs
const S = n => n.replace(/Sync$/, '');
const OPS = {
    unlink: [['delete', 0]], rmdir: [['delete', 0]], rm: [['delete', 0]],
    writeFile: [['write', 0], ['data', 1]], appendFile: [['write', 0], ['data', 1]], truncate: [['write', 0]], createWriteStream: [['write', 0]],
    chmod: [['write', 0]], chown: [['write', 0]], utimes: [['write', 0]], lchown: [['write', 0]], lutimes: [['write', 0]], lchmod: [['write', 0]],
    copyFile: [['source', 0], ['write', 1]], cp: [['source', 0], ['write', 1]], symlink: [['source', 0], ['write', 1]], link: [['source', 0], ['write', 1]],
    rename: [['delete', 0], ['write', 1]], mkdir: [['create', 0]], mkdtemp: [['create', 0]],
    readFile: [['read', 0]], createReadStream: [['read', 0]], open: [['read', 0]], openAsBlob: [['read', 0]],
    stat: [['look', 0]], lstat: [['look', 0]], access: [['look', 0]], exists: [['look', 0]], readlink: [['look', 0]], realpath: [['look', 0]], readdir: [['list', 0]], opendir: [['list', 0]]
};
const NEUTRAL = /^(close|fsync|fdatasync|read|fstat|watch|watchFile|unwatchFile|constants|statfs)$/;
const VERB = { delete: 'deletes', write: 'writes', append: 'adds to the end of', create: 'creates a folder at', source: 'copies from', data: 'stores', read: 'reads', look: 'examines', list: 'lists' };
const opName = name => { const m = /^fs\.(?:promises\.)?(\w+)$/.exec(name); return m ? S(m[1]) : null; };
const SEG = l => l.includes('~seg');
function shapeOf(l) {
    if (!l.startsWith('P:')) return null;
    const [base, ...marks] = l.slice(2).split('~');
    let up = false, sub = false, other = '';
    for (const m of marks) { if (m === 'up') up = true; else if (m === 'sub') sub = true; else if (m === 'out') other = '>'; else other = '?' + m; }
    return base + (sub ? '/' : '') + other + (up ? '^' : '');
}
const words = s => s.replace(/\?x\b/, ' (an edited form of it)').replace(/\?name/, ' (a bare name read from it)').replace(/\?link/, ' (what the link points at)').replace(/\?\w+/, ' (something derived from it)').replace(/>/, ' (output of a program)').replace(/\/\^$/, ' (folder of a place below it)').replace(/\^$/, ' (its parent folder)').replace(/\/$/, ' (a place below it)');

function hooks(model) {
    const join = (I, args, name) => {
        const all = [...args.list, ...(args.rest ? [args.rest] : [])];
        let pieces = false, up = false, l = V.EMPTY;
        all.forEach((a, i) => {
            const al = I.labelsDeep(a), c = V.consts(a);
            if (i === 0) { l = al; return; }
            if (c && c.every(x => x === '' || x === '.')) return;
            if ((c && c.some(x => /(^|[\\/])\.\.([\\/]|$)/.test(x))) || al.has('..')) up = true; else pieces = true;
            // resolve() starts over at an absolute piece
            if (/resolve$/.test(name) && [...al].some(x => !SEG(x) && !/~name/.test(x))) l = V.union(l, al);
            l = V.union(l, V.markAll(al, '~seg'));
        });
        const own = new Set();
        for (const x of l) own.add(SEG(x) ? x : V.mark(up ? V.mark(x, '~up') : x, pieces ? '~sub' : ''));
        return V.mk(V.STR, null, V.EMPTY, own);
    };
    return {
        markDerived: v => new V.Val(v.p, v.p & V.CONSTK ? v.c : V.NOC, v.o, V.markAll(v.l, '~x')),
        onConcat(I, node, parts, r) {
            const p = parts.filter(x => { const c = V.consts(x); return !(c && c.every(y => y === '')); });
            if (p.length < 2) return V.mk(V.STR, null, V.EMPTY, p.length ? I.labelsDeep(p[0]) : V.EMPTY);
            const c = V.consts(p[1]);
            const leaves = p.slice(1).some(x => (V.consts(x) || []).some(y => /(^|[\\/])\.\.([\\/]|$)/.test(String(y))));
            const below = !leaves && (c && c.every(y => /^[\\/]/.test(String(y)))) || (!leaves && !c && [...p[1].l].some(x => x === 'OS'));
            const first = I.labelsDeep(p[0]);
            const l = new Set();
            for (const x of first) l.add(SEG(x) ? x : V.mark(x.replace(/~x/g, ''), below ? '~sub' : '~x'));
            if (leaves || (V.consts(p[0]) || []).some(y => /(^|[\\/])\.\.([\\/]|$)/.test(String(y)))) l.add('..');
            for (const q of p.slice(1)) for (const x of I.labelsDeep(q)) l.add(V.mark(x.replace(/~x/g, ''), '~seg'));
            return new V.Val(r.p, r.p & V.CONSTK ? r.c : V.NOC, r.o, l);
        },
        onExt(I, name, args, e, st, thisV) {
            if (/^path\.(posix\.|win32\.)?(join|resolve)$/.test(name)) return join(I, args, name);
            if (/^path\.(posix\.|win32\.)?(normalize|toNamespacedPath)$/.test(name)) return V.mk(V.STR, null, V.EMPTY, I.labelsDeep(I.argAt(args, 0)));
            if (/^path\.(posix\.|win32\.)?dirname$/.test(name)) { const l = new Set(); for (const x of I.labelsDeep(I.argAt(args, 0))) l.add(SEG(x) ? x : V.mark(x, '~up')); return V.mk(V.STR, null, V.EMPTY, l); }
            if (/^path\.(posix\.|win32\.)?isAbsolute$/.test(name)) { const l = [...I.labelsDeep(I.argAt(args, 0))]; return l.length && l.every(SEG) ? V.FALSE : V.BOOL; }
            const op = opName(name);
            if (op && model) { const r = model(I, op, args, e); if (r) return r; }
            if (op || /^child_process\./.test(name)) {
                const mark = op === 'readdir' || op === 'opendir' ? '~name' : op === 'readlink' || op === 'realpath' ? '~link' : op ? '~x' : '~out';
                let l = new Set();
                for (const a of args.list) for (const x of I.labelsDeep(a)) l.add(x.replace(/~.*$/, '') + mark);
                // callback style: what the callback receives is marked in the same way
                I.invokeArgs(args, e, st);
                I.noteThrow(I.unknownV(e, 'extthrow'), e);
                return I.unknownV(e, name, l);
            }
            return null;
        }
    };
}

// an existing destination file: any look at a path anchored at `param` finds a file
const existing = param => (I, op, args, e) => {
    if (!['stat', 'lstat', 'access', 'exists'].includes(op)) return null;
    const ls = [...I.labelsDeep(I.argAt(args, 0))].filter(l => !SEG(l));
    if (!ls.length || !ls.every(l => l.startsWith('P:' + param) && !l.includes('~up'))) return null;
    if (op === 'exists') return V.TRUE;
    const o = I.alloc(e, 'Object', 'statOf');
    o.methodCall = (J, key) => (key === 'isFile' ? V.TRUE : V.BOOL);
    const p = I.promise(e, op === 'access' ? V.UNDEF : V.obj(o), 'stat');
    for (const x of p.o) x.fulfils = true;
    return p;
};
const withOption = (param, opts, any) => fn => I => {
    const list = I.entryArgs(fn).list.slice();
    const i = paramNames(I.prog, fn).indexOf(param);
    if (i < 0) return any ? { list, rest: null } : null;
    if (opts === null) list[i] = V.UNDEF;
    else {
        const o = I.alloc(fn, 'Object', 'opts' + JSON.stringify(opts));
        for (const [k, x] of Object.entries(opts)) I.setProp(V.obj(o), k, typeof x === 'boolean' ? (x ? V.TRUE : V.FALSE) : V.konst(x), fn, 'init');
        o.own = new Set(Object.keys(opts));
        list[i] = V.obj(o);
    }
    return { list, rest: null };
};
// what an option switches off
const MODES = [
    { entry: 'fs.destPath', mode: 'no options', args: withOption('options', null), never: ['create', 'write', 'delete'] },
    { entry: 'fs.destPath', mode: 'isMakeDir: false', args: withOption('options', { isMakeDir: false }), never: ['create', 'write', 'delete'] },
    { entry: 'fs.writeFile', mode: 'no options', args: withOption('options', null), never: ['create', 'delete'] },
    { entry: 'fs.writeFile', mode: 'isMkdir: false', args: withOption('options', { isMkdir: false }), never: ['create', 'delete'] },
    ...['fs.readFile', 'fs.readlineStream', 'fs.readFragment'].map(entry => ({ entry, mode: 'no options', args: withOption('options', null, true), never: ['write', 'create', 'delete', 'append'] })),
    { entry: 'fs.writeFile', mode: 'no options but a file', args: withOption('options', null), never: ['append', 'create', 'delete'] },
    { entry: 'fs.copyFile', mode: 'forcibly: false', args: withOption('options', { forcibly: false }), never: ['delete'] },
    { entry: 'fs.copy', mode: 'forcibly: false and an existing destination file', args: withOption('options', { forcibly: false }), model: existing('toPath'), never: ['overwrite', 'delete'] }
];

// how a file is opened: by the flags given, or those of the operation
function flagsOf(I, op, args) {
    const i = ['writeFile', 'appendFile'].includes(op) ? 2 : 1, a = args.list[i];
    if (!a || !a.o.size) return null;
    const out = [];
    for (const k of ['flag', 'flags']) for (const x of V.consts(I.getProp(V.mk(0, null, a.o, V.EMPTY), k)) || []) if (typeof x === 'string') out.push(x);
    return out.length ? out : null;
}
function operations(ev, I) {
    if (ev.type !== 'ext') return [];
    const op = opName(ev.name);
    if (!op) return [];
    const calls = ev.allArgs || [ev.args];
    let kinds = OPS[op];
    if (!kinds) return NEUTRAL.test(op) || classify(ev.name) !== 'fs-write' ? [] : calls.map(args => ({ op, kind: 'unknown', args }));
    const out = [];
    for (const args of calls) for (const [kind, i] of kinds) {
        let k = kind;
        if (op === 'open') { const f = args.list[1] ? V.consts(args.list[1]) : ['r']; if (!f || !f.every(x => x === undefined || x === 'r' || x === 'rs')) k = 'write'; }
        if (['readFile', 'createReadStream'].includes(op)) { const f = flagsOf(I, op, args); if (f && f.some(x => /[wa]/.test(x))) k = 'write'; }
        if (op === 'appendFile' && i === 0) k = 'append';
        if (['writeFile', 'createWriteStream'].includes(op) && k === 'write') { const f = flagsOf(I, op, args); if (f && f.some(x => /a/.test(x))) k = 'append'; }
        const excl = op === 'copyFile' && args.list[2] && [...args.list[2].l, ...[...args.list[2].o].map(o => o.name || o.org.name)].some(x => /COPYFILE_EXCL/.test(String(x)));
        out.push({ op, kind: k, v: args.list[i], args, overwrites: k === 'write' && !excl && !['symlink', 'link'].includes(op) });
    }
    return out;
}

run('P09', ctx => {
    const { prog } = ctx;
    const seen = {};
    eachEntry(ctx, (e, r, I) => {
        const spec = SPEC[e.id];
        const names = new Set(paramNames(prog, e.fn));
        for (const ev of r.events) for (const o of operations(ev, I)) {
            ctx.count('file_operations_examined');
            const bad = (key, msg) => ctx.violation({ key: `${e.id}#${key}`, msg, at: ctx.pos(ev.node), path: via(prog, ev) });
            if (o.kind === 'unknown') { bad(o.op, `${e.id} uses fs.${o.op}, whose effect on files is not part of what it is documented to do`); continue; }
            if (!spec) { if (['delete', 'write', 'create', 'append'].includes(o.kind)) bad(o.kind, `${e.id} ${VERB[o.kind]} a file (fs.${o.op}), which it is not documented to do`); continue; }
            const allowed = spec[o.kind];
            if (!allowed) {
                if (['delete', 'write', 'create', 'source', 'append'].includes(o.kind)) bad(o.kind, `${e.id} ${VERB[o.kind]} a file (fs.${o.op}), which it is not documented to do`);
                continue;
            }
            const ls = o.v ? [...I.labelsDeep(o.v)].filter(l => l !== 'OS') : [];
            const shapes = new Set(ls.filter(l => !SEG(l)).map(shapeOf).filter(Boolean));
            if (o.kind === 'data') for (const s of [...shapes]) { shapes.delete(s); shapes.add(s.replace(/[.[?/].*$/, '')); }
            if (!shapes.size) { bad(`${o.kind}:?`, `${e.id} ${VERB[o.kind]} a path that does not start at any path the caller named (fs.${o.op})`); continue; }
            for (const s of shapes) {
                if (!allowed.includes(s)) { bad(`${o.kind}:${s}`, `${e.id} ${VERB[o.kind]} \`${words(s)}\` (fs.${o.op}); it is documented to act on ${allowed.map(words).join(', ')} only`); continue; }
                (seen[e.id] = seen[e.id] || new Set()).add(`${o.kind} ${s}`);
                ctx.count('targets_confirmed');
            }
            // what is written at a place below the destination comes from the same place below the source
            if (o.kind === 'write' && spec.source && o.args.list.length > 1 && ['copyFile', 'cp', 'symlink', 'link', 'rename'].includes(o.op) && e.id === 'fs.copy') {
                const a = I.labelsDeep(o.args.list[0]), b = I.labelsDeep(o.args.list[1]);
                const segs = x => [...x].filter(SEG).sort().join('|');
                const sub = x => [...x].some(l => !SEG(l) && l.includes('~sub')), plain = x => [...x].some(l => !SEG(l) && !l.includes('~'));
                ctx.count('source_destination_pairs');
                if (segs(a) !== segs(b) || sub(a) !== sub(b) || plain(a) !== plain(b)) bad('pair', `${e.id} pairs a source with a destination at another place (fs.${o.op}): the relative place below both must be the same`);
            }
        }
        if (spec) ctx.count('entries_with_file_targets');
    }, hooks());
    for (const [id, spec] of Object.entries(SPEC)) {
        const e = prog.publicApi().find(a => `${a.pkg}.${a.name}` === id);
        ctx.anchor(e, id);
        for (const [kind, shapes] of Object.entries(spec)) for (const s of shapes) {
            if ((OPTIONAL[id] || []).includes(s) && !(kind === 'write' && s === 'toPath')) continue;
            ctx.count('required_targets');
            if (!(seen[id] || new Set()).has(`${kind} ${s}`)) ctx.violation({ key: `${id}#never:${kind}:${s}`, msg: `${id} no longer ${VERB[kind]} ${words(s)} on any path through it`, at: e && e.decl ? ctx.pos(e.decl) : '' });
        }
    }
    for (const m of MODES) {
        let ran = false;
        eachEntry(ctx, (e, r0, I) => {
            const mk = m.args(e.fn);
            const r = I.analyse(e.fn, mk, {});
            ran = true;
            ctx.count('option_modes');
            for (const ev of r.events) for (const o of operations(ev, I)) {
                ctx.count('operations_in_modes');
                const hit = m.never.includes(o.kind) ? o.kind : m.never.includes('overwrite') && o.overwrites && touches(I, o, m) ? 'write' : null;
                if (hit) ctx.violation({ key: `${m.entry}#${m.mode.replace(/[^A-Za-z]+/g, '-')}:${o.kind}`, msg: `${m.entry} with ${m.mode} still ${hit === 'write' ? 'overwrites' : VERB[hit]} a file (fs.${o.op})`, at: ctx.pos(ev.node), path: via(prog, ev) });
            }
        }, hooks(m.model), e => e.id === m.entry);
        if (!ran) ctx.anchor(false, m.entry);
    }
    ctx.lists.targets = Object.fromEntries(Object.entries(seen).map(([k, v]) => [k, [...v].sort().join('; ')]));
    ctx.need('entries', 600);
    ctx.need('file_operations_examined', 60);
    ctx.need('entries_with_file_targets', 18);
    ctx.need('source_destination_pairs', 2);
    ctx.need('option_modes', 6);
}, 'Path provenance: every path value carries which parameter it started from and what was done to it (placed below, parent of, only a piece, read from a folder, link target, program output, edited). For every public entry each file-system call reachable from it is matched with a table of what that entry is documented to delete, write, create, copy from, read or list, and each documented target must be reached. Options that switch an effect off are analysed with that option set (for the no-overwrite copy with every look at the destination finding a file).');
function touches() { return true; }
