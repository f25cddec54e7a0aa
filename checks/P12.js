'use strict';
// P12: every asynchronous operation settles, and its failure arrives at the caller instead of crashing the process.
const { run, ts } = require('./lib');
const { eachEntry } = require('./facts');
const { Settle } = require('../engine/settle');
const V = require('../engine/values');
const K = ts.SyntaxKind;

const EMITTER = /^(child_process\.(spawn|fork|exec|execFile)|fs\.create(Read|Write)Stream|https?\.(request|get)|net\.(connect|createConnection)|tls\.connect|zlib\.create\w+|readline\.createInterface)$/;
const CALLBACK_STYLE = /^child_process\.(exec|execFile)$/;
const FALLIBLE = /^(throw:|ext:(JSON\.parse|new URL|decodeURI|decodeURIComponent|fs\.\w+Sync|new RegExp|BigInt|new Function|process\.kill))/;
const NOBODY = /^throw:packages\/(term|types)\//;
// without a callback there is nobody to tell; the callbacks of these are documented to run later
const ESCAPES = { 'util.copy': /./, // the constructor of the copied value runs at once
     'os.kill': /^(throw:packages\/os\/src\/kill\.ts|ext:process\.kill)$/ };
// documented to hand out an error as a value
const RETURNS_ERROR = new Set(['term.format', 'function.padding']);

run('P12', ctx => {
    const { prog } = ctx;
    const checker = prog.checker;
    let made = new Map(), escaped = [];
    const errCls = o => /Error$/.test(o.cls || '') && o.kind === 'alloc';
    eachEntry(ctx, (e, r, I) => {
        // ---- emitters: a failure event nobody listens to ends the process ---------------------------------------------
        const heard = new Map(), owned = new Set();
        const reach = (v, d, f) => { const seen = new Set(); const go = (x, k) => { for (const o of x.o) { if (seen.has(o)) continue; seen.add(o); f(o); if (k > 0) { for (const y of o.fields.values()) go(y, k - 1); go(o.rest, k - 1); } } }; go(v, d); };
        for (const ev of r.events) {
            if (ev.type === 'extmethod' && /^(on|once|addListener|prependListener|prependOnceListener)$/.test(ev.name)) {
                const names = V.consts(ev.args.list[0] || V.BOT);
                const at = heard.get(ev.obj) || heard.set(ev.obj, new Set()).get(ev.obj);
                for (const n of names || ['?']) at.add(n);
            }
            if (ev.type === 'ext' && /^(stream\.(pipeline|finished|promises)|util\.promisify)/.test(ev.name)) for (const a of ev.allArgs || [ev.args]) for (const v of a.list) reach(v, 2, o => owned.add(o));
        }
        for (const [o, m] of made) {
            ctx.count('emitters');
            const at = heard.get(o) || new Set();
            if (at.has('error') || owned.has(o)) { ctx.count('emitters_with_failure_handler'); continue; }
            if (CALLBACK_STYLE.test(m.name) && m.args.list.length > 1) { ctx.count('emitters_with_failure_handler'); continue; }
            if (/createInterface/.test(m.name)) {
                // fails only when what it reads fails
                let src = null;
                reach(m.args.list[0] || V.BOT, 1, x => { if (made.has(x)) src = x; });
                if (!src) continue;
                ctx.violation({ key: `unheard:${e.id}:${m.name}`, msg: `${e.id}: the reader made from a stream has no "error" listener: a failure of the stream ends the process`, at: prog.pos(m.node) });
                continue;
            }
            let given = false;
            reach(r.ret, 3, x => { if (x === o) given = true; });
            // a reader passes the failure of its stream on to its own listeners
            for (const [q, k] of made) if (/createInterface/.test(k.name) && (heard.get(q) || new Set()).has('error')) reach(k.args.list[0] || V.BOT, 1, x => { if (x === o) given = true; });
            if (given) continue;
            ctx.violation({ key: `unheard:${e.id}:${m.name}`, msg: `${e.id}: nothing listens for the "error" event of ${m.name}: a failure ends the process instead of reaching the caller`, at: prog.pos(m.node) });
        }
        made = new Map();
        // ---- what runs later must not throw: nobody can catch it ---------------------------------------------------------
        const once = new Set();
        for (const x of escaped) {
            if (!once.has(x.node)) ctx.count('deferred_functions');
            once.add(x.node);
            for (const k of x.rs.keys()) {
                if (!FALLIBLE.test(k) || NOBODY.test(k) || (ESCAPES[e.id] && ESCAPES[e.id].test(k))) continue;
                if (/^ext:BigInt/.test(k)) continue;
                ctx.violation({ key: `escape:${e.id}:${k}`, msg: `${e.id}: a function that runs after the call has returned can throw (${k.replace(/^\w+:/, '').replace('packages/', '')}); nobody can catch it`, at: prog.pos(x.node) });
            }
        }
        escaped = [];
        // ---- failures as values -------------------------------------------------------------------------------------------
        for (const ev of r.events) {
            if (ev.type === 'reject') { ctx.count('reject_calls'); for (const o of ev.val ? ev.val.o : []) if (o.cls === 'Promise') ctx.violation({ key: `reject-promise:${e.id}`, msg: `${e.id}: rejects with a promise instead of an error`, at: prog.pos(ev.node) }); }
            if (ev.type === 'resolve') { ctx.count('resolve_calls'); for (const o of ev.val ? ev.val.o : []) if (errCls(o)) ctx.violation({ key: `resolve-error:${e.id}`, msg: `${e.id}: a failure is delivered as a success (resolves with an error)`, at: prog.pos(ev.node) }); }
        }
        if (!/^(types|asserts)\./.test(e.id) && !RETURNS_ERROR.has(e.id)) {
            ctx.count('results');
            const look = v => { for (const o of v.o) { if (errCls(o)) ctx.violation({ key: `returns-error:${e.id}`, msg: `${e.id}: returns an error instead of throwing it`, at: prog.pos(o.node) }); if (o.cls === 'Promise') { for (const x of o.rest.o) if (errCls(x)) ctx.violation({ key: `returns-error:${e.id}`, msg: `${e.id}: the promise resolves with an error instead of rejecting with it`, at: prog.pos(x.node) }); } } };
            look(r.ret);
        }
    }, {
        reasons: true,
        onEscape(I, o, n, rs) { escaped.push({ node: (o && o.node) || n, rs }); },
        onExt(I, name, args, e, st) {
            if (!EMITTER.test(name)) return null;
            I.invokeArgs(args, e, st);
            I.noteThrow(I.unknownV(e, 'extthrow'), e, 'ext:' + name);
            const o = I.unknown(e, name, new Set());
            o.extName = name;
            made.set(o, { name, args, node: e });
            return new V.Val(0, V.NOC, new Set([o]), new Set());
        }
    });
    // ---- promises made by hand -------------------------------------------------------------------------------------------
    const S = new Settle(prog);
    const isPromise = e => { const t = checker.getTypeAtLocation(e); return !!t.symbol && /^(Promise|PromiseLike|PromiseWithChild)$/.test(t.symbol.name) || (t.isIntersection() && t.types.some(x => x.symbol && x.symbol.name === 'Promise')); };
    for (const sf of prog.sources) {
        const where = prog.rel(sf.fileName).replace('packages/', '').replace('/src', '').replace(/\.ts$/, '');
        const walk = n => {
            if (ts.isNewExpression(n) && n.expression.getText() === 'Promise' && n.arguments && n.arguments[0]) {
                ctx.count('promises_made');
                const f = S.fnOf(n.arguments[0]);
                if (!f) { ctx.violation({ key: `settle:${where}`, msg: 'the executor of a promise cannot be found', at: prog.pos(n) }); return; }
                const set = new Set(f.parameters.filter(p => ts.isIdentifier(p.name)).map(p => S.sym(p.name)));
                S.why = new Map();
                if (!S.must(f, set)) {
                    const open = [...S.why].filter(([fn]) => fn.pos >= f.pos && fn.end <= f.end || fn === f).concat([...S.why]);
                    ctx.violation({ key: `settle:${where}`, msg: 'a promise can stay pending for ever: there is a path on which neither resolve nor reject is called, or an emitter can end without either', at: prog.pos(n), path: [...new Set(open.slice(0, 4).flatMap(([, v]) => v.map(x => prog.pos(x))))].join(', ') });
                }
                // a failure event may not make the operation succeed
                const seen = rejectOnly => { const T = new Settle(prog); T.failures = new Map(); T.must(f, new Set([...set].slice(rejectOnly ? 1 : 0))); return T.failures; };
                const all = seen(false), rej = seen(true);
                for (const [h, x] of all) {
                    if (!x.ok) continue;
                    ctx.count('failure_listeners');
                    if (!(rej.get(h) || {}).ok) ctx.violation({ key: `success:${where}:${x.event}`, msg: `when "${x.event}" happens the promise can be fulfilled as if nothing had failed`, at: prog.pos(x.node) });
                }
                // closing a line reader before the answer is handed over: the listener of "close" fails the promise first
                {
                    const ps = [...set], T = new Settle(prog), R = new Settle(prog), B = new Settle(prog);
                    T.early = [];
                    B.early = [];
                    B.must(f, set);
                    T.must(f, new Set(ps.slice(0, 1)));
                    for (const c of T.early) {
                        ctx.count('reader_closings');
                        if (c.fn === f || !B.early.some(b => b.node === c.node) || !T.must(c.fn, new Set(ps.slice(0, 1)))) continue;
                        const loses = T.uses.find(u => u.event === 'close' && u.key === c.key && ps[1] && R.settler(u.handler, new Set(ps.slice(1))) && !R.settler(u.handler, new Set(ps.slice(0, 1))));
                        if (loses) ctx.violation({ key: `order:${where}`, msg: 'the reader is closed before the result is handed over: closing it rejects the promise, and the result is lost', at: prog.pos(c.node) });
                    }
                }
                lateReads(n, f, where);
            }
            // a promise nobody waits for: its failure ends the process, and its work is not part of the call
            if (ts.isExpressionStatement(n)) {
                let x = n.expression;
                while (ts.isParenthesizedExpression(x) || ts.isVoidExpression(x)) x = x.expression;
                if (ts.isCallExpression(x) && isPromise(x)) {
                    ctx.count('promise_statements');
                    const handled = ts.isPropertyAccessExpression(x.expression) && (x.expression.name.text === 'catch' && x.arguments.length === 1 || x.expression.name.text === 'then' && x.arguments.length === 2);
                    if (!handled) ctx.violation({ key: `floating:${where}`, msg: `nobody waits for this promise, so its failure is lost: ${x.getText().slice(0, 60).replace(/\s+/g, ' ')}`, at: prog.pos(n) });
                }
            }
            // an async function where the result is thrown away
            if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(forEach|on|once|addListener)$/.test(n.expression.name.text)) for (const a of n.arguments) {
                if ((ts.isArrowFunction(a) || ts.isFunctionExpression(a)) && ts.getCombinedModifierFlags(a) & ts.ModifierFlags.Async) ctx.violation({ key: `floating-callback:${where}`, msg: `${n.expression.name.text} throws away the promise of this async function`, at: prog.pos(a) });
            }
            ts.forEachChild(n, walk);
        };
        walk(sf);
    }
    // a variable that only the executor fills, read later outside it: the executor may have failed before
    function lateReads(n, f, where) {
        const assigned = new Map();
        const visit = x => { if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.EqualsToken && ts.isIdentifier(x.left)) { const s = S.sym(x.left); const d = s && s.valueDeclaration; if (d && ts.isVariableDeclaration(d) && !d.initializer && !(d.pos >= f.pos && d.end <= f.end) && mayThrow(x.right)) assigned.set(s, x); } ts.forEachChild(x, visit); };
        visit(f);
        const mayThrowBefore = assigned;
        if (!mayThrowBefore.size) return;
        let scope = n; while (scope.parent && !ts.isFunctionLike(scope)) scope = scope.parent;
        const look = x => {
            if (x === f) return;
            if (ts.isPropertyAccessExpression(x) && !x.questionDotToken) {
                let b = x.expression; while (ts.isNonNullExpression(b) || ts.isParenthesizedExpression(b)) b = b.expression;
                if (ts.isIdentifier(b) && mayThrowBefore.has(S.sym(b))) { ctx.count('late_reads'); if (!guarded(x, S.sym(b), scope)) ctx.violation({ key: `late:${where}:${b.text}`, msg: `${b.text} is read after the call, but it is still undefined when starting it failed: the process ends`, at: prog.pos(x) }); }
            }
            ts.forEachChild(x, look);
        };
        look(scope);
    }
    function mayThrow(e) { e = strip(e); return ts.isCallExpression(e) || ts.isNewExpression(e); }
    function strip(e) { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e)) e = e.expression; return e; }
    // does the condition, being true (or false), mean that the variable is filled?
    function filled(e, yes, s) {
        e = strip(S.cond(e));
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return filled(e.operand, !yes, s);
        if (ts.isIdentifier(e)) return yes && S.sym(e) === s;
        if (ts.isPropertyAccessExpression(e)) return yes && filled(e.expression, true, s);
        if (ts.isCallExpression(e)) { const f = e.expression.getText(), a = e.arguments[0]; if (/^(Boolean|isTrue|isTruthy)$/.test(f) && a) return filled(a, yes, s); if (/^is(False|Falsy)$/.test(f) && a) return filled(a, !yes, s); if (/^is(Undefined|NullOrUndefined|Null)$/.test(f) && a) return !yes && ts.isIdentifier(strip(a)) && S.sym(strip(a)) === s; return false; }
        if (!ts.isBinaryExpression(e)) return false;
        const op = e.operatorToken.kind;
        if (op === K.AmpersandAmpersandToken) return yes ? filled(e.left, true, s) || filled(e.right, true, s) : filled(e.left, false, s) && filled(e.right, false, s);
        if (op === K.BarBarToken) return yes ? filled(e.left, true, s) && filled(e.right, true, s) : filled(e.left, false, s) || filled(e.right, false, s);
        const is = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken, not = op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken;
        if (!is && !not || is === yes) return false;
        const none = x => /^(undefined|null|void 0|'undefined'|"undefined")$/.test(x.getText());
        for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) { const v = ts.isTypeOfExpression(strip(a)) ? strip(strip(a).expression) : strip(a); if (ts.isIdentifier(v) && S.sym(v) === s && none(strip(b))) return true; }
        return false;
    }
    function guarded(x, s, scope) {
        for (let c = x, p = x.parent; p && c !== scope; c = p, p = p.parent) {
            if (ts.isIfStatement(p) && p.expression !== c && filled(p.expression, p.thenStatement === c, s)) return true;
            if (ts.isConditionalExpression(p) && p.condition !== c && filled(p.condition, p.whenTrue === c, s)) return true;
            if (ts.isBinaryExpression(p) && p.right === c && p.operatorToken.kind === K.AmpersandAmpersandToken && filled(p.left, true, s)) return true;
            if (ts.isBinaryExpression(p) && p.right === c && p.operatorToken.kind === K.BarBarToken && filled(p.left, false, s)) return true;
            if (ts.isTryStatement(p) && p.tryBlock === c && p.catchClause) return true;
            if (ts.isBlock(p)) for (const q of p.statements) { if (q === c) break; if (ts.isIfStatement(q) && (leaves(q.thenStatement) && filled(q.expression, false, s) || q.elseStatement && leaves(q.elseStatement) && filled(q.expression, true, s))) return true; }
        }
        return false;
    }
    function leaves(s) { return ts.isReturnStatement(s) || ts.isThrowStatement(s) || ts.isBlock(s) && s.statements.length > 0 && leaves(s.statements[s.statements.length - 1]); }
    ctx.need('promises_made', 13);
    ctx.need('emitters', 8);
    ctx.need('failure_listeners', 3);
    ctx.need('emitters_with_failure_handler', 6);
    ctx.need('deferred_functions', 8);
}, 'RULE 1 (settling): for every promise made by hand, a must-analysis over the executor, the library functions it hands resolve/reject to and the listeners and timers it registers: each path calls one of them or hands it over, and for an emitter the failure event and one of its ending events both do. RULE 2 (emitters): every stream, child process, request and reader created has a listener for "error". RULE 3 (deferred code): listeners and timers contain no operation that throws outside a try. RULE 4 (values): a failure is never delivered as a success (an error returned or resolved), and never as a promise inside a rejection. RULE 5: no promise is left without anyone waiting for it. RULE 6: a variable filled by an executor is not read later without a test.');
