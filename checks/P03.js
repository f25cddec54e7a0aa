'use strict';
// P03: effect confinement and determinism.
const { run, via, ts } = require('./lib');
const { eachEntry } = require('./facts');
const { classify } = require('./effects');
const { publicDecl } = require('../engine/models');

// what each function is documented to do to, or take from, the outside world; everything not listed does nothing of the kind
const ALLOWED = {
    'array.random': 'random', 'array.shuffle': 'random', 'array.sortWords': 'locale',
    'cookie.parseSetCookie': 'console',
    'fs.clearDir': 'fs-read fs-write', 'fs.copy': 'fs-read fs-write', 'fs.copyFile': 'process platform fs-read fs-write', 'fs.copySymbolicLink': 'fs-read fs-write',
    'fs.deleteOne': 'fs-read fs-write', 'fs.destPath': 'process platform fs-read fs-write', 'fs.diffFile': 'fs-read', 'fs.fileList': 'process platform fs-read', 'fs.findDir': 'process platform fs-read',
    'fs.isDir': 'fs-read', 'fs.isFile': 'fs-read', 'fs.isSymbolicLink': 'fs-read', 'fs.mkdir': 'fs-read fs-write', 'fs.readFile': 'fs-read',
    'fs.readFragment': 'fs-read', 'fs.readlineStream': 'fs-read stdin', 'fs.readLnk': 'process platform', 'fs.symbolicLink': 'fs-read', 'fs.writeFile': 'fs-read fs-write',
    'function.retry': 'random timer', 'function.parallel': 'random timer', 'function.delay': 'random timer', 'function.delayReturn': 'random clock timer',
    'function.delayRun': 'random timer', 'function.delaySync': 'clock random', 'function.clearTimeoutAll': 'timer', 'function.nextTick': 'timer dom',
    'function.setTimeout': 'random timer', 'function.timeoutLog': 'console timer', 'function.timeoutMsResolve': 'random', 'function.timeoutOr': 'random timer',
    'number.random': 'random', 'number.randomSafe': 'random', 'number.range': 'random', 'number.rangeSafe': 'random',
    'os.kill': 'process', 'os.asyncKill': 'process', 'os.findWindowsTask': 'process platform', 'os.killWindowsTask': 'process platform env timer', 'os.windowsLocal': 'process platform',
    'os.windowsMakeShortcut': 'fs-read fs-write process timer platform env', 'os.windowsTaskList': 'process platform', 'os.appendCmd': 'platform',
    'process.exec': 'process platform env', 'process.open': 'platform env process timer', 'process.sleep': 'timer', 'process.spawn': 'platform env process timer',
    'request.queryDNS': 'random timer network', 'request.publicIP': 'random timer network', 'request.request': 'random timer network',
    'string.randomBoolean': 'random', 'string.randomHexColor': 'random', 'string.randomLower': 'random', 'string.randomNumber': 'random', 'string.randomUpper': 'random',
    'term.format': 'clock locale', 'term.printError': 'console', 'term.printInfo': 'console', 'term.printWarn': 'console', 'term.readByQuestion': 'stdin console',
    'term.ProgressBar': 'console clock', 'term.ProgressBar.execute': 'console clock', 'term.ProgressBar.tick': 'console clock',
    'types.isNodejs': 'env', 'asserts.assertNodejs': 'env', 'types.isVarName': 'codegen', 'asserts.assertVarName': 'codegen',
    'util.copy': 'codegen', 'util.copyAttrs': 'codegen'
};
const WORDS = { random: 'a random source', clock: 'the clock', timer: 'a timer', 'fs-read': 'the file system', 'fs-write': 'the contents of the file system', network: 'the network', process: 'processes or the command shell', console: 'the terminal', stdin: 'the standard input', env: 'the process environment', platform: 'the operating system', dom: 'the browser page', locale: "the host's locale", codegen: 'code generated at run time' };

run('P03', ctx => {
    const { prog } = ctx;
    const fmt = publicDecl(prog, 'term', 'format');
    ctx.anchor(fmt, 'term.format');
    const inFormat = n => { for (let p = n; p; p = p.parent) if (p === fmt) return true; return false; };
    const used = {};
    const report = (e, cat, ev, what) => {
        ctx.count('effects_examined');
        // the time of day printed in a diagnostic message
        if ((cat === 'clock' || cat === 'locale') && [ev.node, ...ev.stack].some(inFormat)) { ctx.count('diagnostic_timestamps'); return; }
        if ((ALLOWED[e.id] || '').split(' ').includes(cat)) { (used[e.id] = used[e.id] || new Set()).add(cat); return; }
        ctx.violation({ key: `${e.id}#${cat}`, msg: `${e.id} uses ${WORDS[cat] || cat} (${what}), which is not part of what it is documented to do`, at: ctx.pos(ev.node), path: via(prog, ev) });
    };
    const catOf = ev => {
        if (ev.type === 'ext') return [classify(ev.name), ev.name];
        if (ev.type === 'new') return [classify('new ' + ev.name) , 'new ' + ev.name];
        if (ev.type === 'nondet') return [ev.what, ev.key];
        if (ev.type === 'eval') return ['codegen', ev.key];
        if (ev.type === 'locale') return ['locale', ev.key];
        return [null, ''];
    };
    // `f.x = value` on a declaration of the same module
    const ownProperty = x => {
        if (!ts.isBinaryExpression(x) || x.operatorToken.kind !== ts.SyntaxKind.EqualsToken || !ts.isPropertyAccessExpression(x.left) || !ts.isIdentifier(x.left.expression)) return false;
        const sym = prog.checker.getSymbolAtLocation(x.left.expression);
        return !!sym && (sym.declarations || []).some(d => d.getSourceFile() === x.getSourceFile());
    };
    const bare = n => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.expression; return n; };
    // the target of a write is a member of the global object
    const globalTarget = n => {
        let t = bare(n);
        if (t && ts.isBinaryExpression(t)) t = bare(t.left);
        if (t && ts.isCallExpression(t)) t = t.arguments.length ? { expression: t.arguments[0] } : null;
        const b = t && t.expression && bare(t.expression);
        if (!b || !ts.isIdentifier(b) || !/^(globalThis|window|global|self)$/.test(b.text)) return false;
        const sym = prog.checker.getSymbolAtLocation(b);
        return !sym || !(sym.declarations || []).some(d => prog.isRepo(d));
    };
    const I = eachEntry(ctx, (e, r) => {
        for (const ev of r.events) { const [c, w] = catOf(ev); if (c) report(e, c, ev, w); }
    });
    // importing a package runs its module initialisers: they may look at the platform, nothing else
    for (const ev of I.moduleEvents) {
        ctx.count('module_init_events');
        if (ev.type === 'mutate' && (ev.obj.org.t === 'G' || ev.obj.kind === 'builtin' || globalTarget(ev.node))) {
            const file = prog.rel(ev.node.getSourceFile().fileName);
            ctx.violation({ key: `import:${file}#global`, msg: `importing ${file} already changes ${ev.obj.org.t === 'G' ? `the global \`${ev.obj.org.name || ev.obj.name}\`` : 'the global object'} (${ev.prop})`, at: ctx.pos(ev.node) });
            continue;
        }
        const [c, w] = catOf(ev);
        if (!c || c === 'platform' || c === 'env' ) continue;
        const file = prog.rel(ev.node.getSourceFile().fileName);
        if (c === 'dom' && file.endsWith('/nextTick.ts')) continue; // choosing the page's scheduler needs a text node
        ctx.violation({ key: `import:${file}#${c}`, msg: `importing ${file} already uses ${WORDS[c] || c} (${w})`, at: ctx.pos(ev.node) });
    }
    for (const sf of prog.sources) for (const s of sf.statements) {
        if (!ts.isExpressionStatement(s) && !ts.isIfStatement(s) && !ts.isForStatement(s) && !ts.isForOfStatement(s) && !ts.isTryStatement(s)) continue;
        ctx.count('top_level_statements');
        const file = prog.rel(sf.fileName);
        if (ts.isExpressionStatement(s) && (ts.isStringLiteral(s.expression) || ownProperty(s.expression))) continue;
        ctx.violation({ key: `import:${file}#statement`, msg: `${file} runs a statement when it is imported`, at: ctx.pos(s) });
    }
    ctx.lists.documented_effects_seen = Object.fromEntries(Object.entries(used).map(([k, v]) => [k, [...v].join(' ')]));
    ctx.need('entries', 600);
    ctx.need('effects_examined', 60);
}, 'Interprocedural effect inference from every public entry: each call of an external function (resolved through imports and types, including through promisify/bind/callbacks) and each read of clock, random source, environment or platform is classified; an effect outside the table of documented effects of that entry is a violation. Module initialisers are analysed the same way.');
