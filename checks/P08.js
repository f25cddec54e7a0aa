'use strict';
// P08: no call spins: patterns do not backtrack exponentially and every loop makes progress on every turn.
const { run, ts, entries } = require('./lib');
const { eachEntry } = require('./facts');
const { Interp } = require('../engine/absint');
const { withCopyModel } = require('../engine/models');
const { analyseLoop } = require('../engine/progress');
const R = require('../engine/regex');
const V = require('../engine/values');
const K = ts.SyntaxKind;
const LOOPS = new Set([K.WhileStatement, K.DoStatement, K.ForStatement, K.ForOfStatement, K.ForInStatement]);

run('P08', ctx => {
    const { prog } = ctx;
    // ---- patterns ----------------------------------------------------------------------------------------------------
    const judged = new Map();
    const pattern = (source, flags, at, where) => {
        const id = flags + '/' + source;
        if (!judged.has(id)) {
            ctx.count('patterns');
            let r = null;
            try { r = R.exponential(source, flags.replace(/[gy]/g, '')); } catch (e) {
                if (!(e instanceof R.Unsupported)) throw e;
                ctx.count('patterns_undecided'); ctx.note(`${at}: ${e.message}`);
            }
            judged.set(id, r);
        }
        const r = judged.get(id);
        if (r) ctx.violation({ key: `pattern:${where}:${source.slice(0, 40)}`, msg: `matching /${source.slice(0, 80)}/${flags} backtracks exponentially on repetitions of ${JSON.stringify(r.pump)}`, at });
    };
    const owner = n => { for (let x = n; x; x = x.parent) if ((ts.isFunctionDeclaration(x) || ts.isVariableDeclaration(x) || ts.isMethodDeclaration(x)) && x.name && ts.isIdentifier(x.name) && (ts.isFunctionLike(x) || x.parent.parent.parent === x.getSourceFile())) return x.name.text; return 'module'; };
    for (const sf of prog.sources) {
        const walk = n => {
            if (n.kind === K.RegularExpressionLiteral) { const i = n.text.lastIndexOf('/'); ctx.count('pattern_literals'); pattern(n.text.slice(1, i), n.text.slice(i + 1), ctx.pos(n), prog.rel(sf.fileName).replace('packages/', '').replace('/src', '') + '#' + owner(n)); }
            ts.forEachChild(n, walk);
        };
        walk(sf);
    }
    // patterns put together from constants when the code runs
    const built = new Map(), open = new Set();
    eachEntry(ctx, () => {}, {
        exact: true,
        onNew: (I, name, args, e) => {
            if (name !== 'RegExp') return;
            const c = V.consts(I.argAt(args, 0)), f = args.list.length > 1 ? V.consts(I.argAt(args, 1)) : [''];
            if (!c) { open.add(e); return; }
            for (const s of c) if (typeof s === 'string') for (const g of f || ['']) built.set(`${g || ''}/${s}`, [s, g || '', e]);
        }
    });
    for (const [s, f, e] of built.values()) { ctx.count('patterns_built'); pattern(s, f, ctx.pos(e), 'built'); }
    ctx.count('constructions_from_arguments', open.size);

    // ---- loops -------------------------------------------------------------------------------------------------------
    const steps = [];
    for (const sf of prog.sources) {
        const walk = n => {
            if (LOOPS.has(n.kind)) {
                ctx.count('loops');
                const r = analyseLoop(prog, n);
                const where = prog.rel(sf.fileName).replace('packages/', '').replace('/src', '') + '#' + owner(n);
                const head = (n.condition || n.expression || n).getText().replace(/\s+/g, ' ').slice(0, 70);
                if (r.verdict === 'proven') ctx.count('loops_progress');
                else if (r.verdict === 'stuck') ctx.violation({ key: `loop:${where}:${head.slice(0, 40).replace(/ /g, '')}`, msg: `a turn of the loop \`${head}\` can end without moving towards its exit (${r.why})`, at: ctx.pos(n) });
                else { ctx.count('loops_undecided'); ctx.note(`${ctx.pos(n)}: progress of \`${head}\` not decided (${r.why})`); }
                if (r.verdict === 'proven' && r.obligations.length) steps.push({ loop: n, param: r.obligations[0].param, dir: r.obligations[0].dir, where });
            }
            ts.forEachChild(n, walk);
        };
        walk(sf);
    }
    // a loop whose step the caller chooses: with a step of zero or of the wrong sign the loop must not be reached
    for (const s of steps) {
        const e = entries(prog).find(x => x.fn && (x.fn === s.param.parent));
        if (!e) { ctx.count('loops_undecided'); ctx.note(`${ctx.pos(s.loop)}: the step is a parameter of an internal function`); continue; }
        for (const bad of [0, s.dir > 0 ? -1 : 1]) {
            let reached = false;
            const I = new Interp(prog, withCopyModel(prog, { onLoop: (_, n) => { if (n === s.loop) reached = true; } }));
            I.initModules();
            I.analyse(e.fn, K2 => { const l = K2.entryArgs(e.fn); const list = [...l.list]; list[e.fn.parameters.indexOf(s.param)] = V.konst(bad); return { ...l, list }; }, { closure: e.closure });
            ctx.count('steps_tested');
            if (reached) ctx.violation({ key: `step:${s.where}`, msg: `${e.id} enters its loop with a step of ${bad} and never leaves it`, at: ctx.pos(s.loop) });
        }
    }
    ctx.need('loops', 80);
    ctx.need('loops_progress', 70);
    ctx.need('pattern_literals', 60);
    ctx.need('patterns_built', 10);
}, 'Every pattern of the library (literals, and patterns assembled from constants, whose text is derived by constant propagation) is turned into an automaton and searched for exponential ambiguity; every loop is analysed over one turn with bounds on each variable relative to the start of the turn, and must move a condition strictly towards its exit on every path back to its head; steps chosen by the caller must be excluded from the loop when they are zero or negative.');
