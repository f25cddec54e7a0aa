'use strict';
// P02: what a public function does depends on this call only: no call leaves a trace in module-level or global state that a later
// call can see.
const { run, via, ts } = require('./lib');
const { eachEntry } = require('./facts');
const K = ts.SyntaxKind;
const unwrap = n => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.expression; return n; };

run('P02', ctx => {
    const { prog } = ctx;
    const checker = prog.checker;
    // ---- `cache[k] = f(k)`: the stored value is a function of the key alone, so a later hit equals a recomputation
    function localDecl(id) {
        const s = checker.getSymbolAtLocation(id);
        const r = s && prog.resolve(s);
        return r && r.valueDeclaration;
    }
    function assigned(decl) {
        const fn = enclosing(decl);
        let hit = false;
        const visit = n => {
            if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(unwrap(n.left)) && localDecl(unwrap(n.left)) === decl) hit = true;
            if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && ts.isIdentifier(unwrap(n.operand)) && localDecl(unwrap(n.operand)) === decl) hit = true;
            ts.forEachChild(n, visit);
        };
        visit(fn || decl.getSourceFile());
        return hit;
    }
    function enclosing(n) { for (let p = n.parent; p; p = p.parent) if (ts.isFunctionLike(p)) return p; return null; }
    const inside = (n, e) => { for (let p = n; p; p = p.parent) if (p === e) return true; return false; };
    // local variables an expression reads
    function reads(e) {
        const out = new Set();
        const visit = n => {
            if (ts.isPropertyAccessExpression(n)) return visit(n.expression);
            if (ts.isPropertyAssignment(n)) return visit(n.initializer);
            if (n.kind === K.ThisKeyword) out.add('this');
            if (ts.isIdentifier(n)) {
                const d = localDecl(n);
                if (d && prog.isRepo(d) && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) && enclosing(d) && !inside(d, e)) out.add(d);
                return;
            }
            ts.forEachChild(n, visit);
        };
        visit(e);
        return out;
    }
    // every value the variable can hold, with the conditions that select between them; null when it changes in another way
    function sources(d) {
        if (!ts.isVariableDeclaration(d) || !ts.isIdentifier(d.name)) return null;
        if (ts.isForOfStatement(d.parent.parent) || ts.isForInStatement(d.parent.parent)) return null;
        const fn = enclosing(d);
        const out = d.initializer ? [d.initializer] : [];
        let bad = false;
        const scope = d.parent.parent.parent;
        const visit = n => {
            if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(unwrap(n.left)) && localDecl(unwrap(n.left)) === d) {
                out.push(n.right);
                for (let p = n.parent, c = n; p && p !== scope && p !== fn; c = p, p = p.parent) {
                    if (ts.isFunctionLike(p) || ts.isSwitchStatement(p) || ts.isTryStatement(p)) bad = true;
                    if (ts.isIfStatement(p)) out.push(p.expression);
                    else if (ts.isConditionalExpression(p)) out.push(p.condition);
                    else if (ts.isWhileStatement(p) || ts.isDoStatement(p)) out.push(p.expression);
                    else if (ts.isForStatement(p)) { if (p.condition) out.push(p.condition); else bad = true; }
                    else if (ts.isForOfStatement(p) || ts.isForInStatement(p)) out.push(p.expression);
                    else if (ts.isBinaryExpression(p) && c === p.right && [K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(p.operatorToken.kind)) out.push(p.left);
                }
            }
            if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && ts.isIdentifier(unwrap(n.operand)) && localDecl(unwrap(n.operand)) === d) { /* adds a constant */ }
            if ((ts.isArrayLiteralExpression(n) || ts.isObjectLiteralExpression(n)) && ts.isBinaryExpression(n.parent) && n.parent.left === n && reads(n).has(d)) bad = true;
            ts.forEachChild(n, visit);
        };
        visit(fn || d.getSourceFile());
        return bad ? null : out;
    }
    function keyDetermined(keyExpr, valExpr) {
        const k = unwrap(keyExpr);
        if (!ts.isIdentifier(k)) return false;
        const kd = localDecl(k);
        if (!kd || assigned(kd)) return false;
        const seen = new Set();
        const ok = d => {
            if (d === kd || seen.has(d)) return true;
            seen.add(d);
            if (d === 'this') return false;
            const src = sources(d);
            return !!src && src.every(e => [...reads(e)].every(ok));
        };
        return [...reads(valExpr)].every(ok);
    }
    function isKeyedCache(node) {
        // node: the assignment target (x[k] = v, x[k] ??= v) or the call x.set(k, v)
        const t = unwrap(node);
        if (ts.isElementAccessExpression(t) || ts.isBinaryExpression(t)) {
            let a = t;
            while (a && !(ts.isBinaryExpression(a) && a.operatorToken.kind >= K.FirstAssignment && a.operatorToken.kind <= K.LastAssignment)) a = a.parent;
            if (!a) return false;
            const l = unwrap(a.left);
            return ts.isElementAccessExpression(l) && keyDetermined(l.argumentExpression, a.right);
        }
        if (ts.isCallExpression(t) && ts.isPropertyAccessExpression(t.expression) && t.expression.name.text === 'set' && t.arguments.length === 2) return keyDetermined(t.arguments[0], t.arguments[1]);
        return false;
    }
    // ---- a /g or /y regex used through exec in a loop that only ends when nothing is left resets itself
    function drained(call) {
        // find the loop around the call, and require every exit of it to imply that the last match failed
        let v = null;
        for (let p = call.parent, c = call; p; c = p, p = p.parent) {
            if (ts.isFunctionLike(p)) return false;
            if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && p.right && inside(call, p.right) && ts.isIdentifier(unwrap(p.left))) v = localDecl(unwrap(p.left));
            if (ts.isDoStatement(p) || ts.isWhileStatement(p) || ts.isForStatement(p)) {
                const cond = ts.isForStatement(p) ? p.condition : p.expression;
                if (!cond || !v) return false;
                let exits = false;
                const visit = n => {
                    if (ts.isFunctionLike(n)) return;
                    if (n.kind === K.BreakStatement || n.kind === K.ReturnStatement) exits = true;
                    ts.forEachChild(n, visit);
                };
                visit(p.statement);
                return !exits && falseMeansNoMatch(cond, v, call);
            }
        }
        return false;
    }
    // cond being false implies the variable holds no match (for a regex that is global)
    function falseMeansNoMatch(cond, v, call) {
        const e = unwrap(cond);
        if (ts.isIdentifier(e)) return localDecl(e) === v;
        if (ts.isBinaryExpression(e)) {
            const op = e.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken) return (isGlobalFlag(e.left) || falseMeansNoMatch(e.left, v, call)) && (isGlobalFlag(e.right) || falseMeansNoMatch(e.right, v, call));
            if (op === K.BarBarToken) return falseMeansNoMatch(e.left, v, call) || falseMeansNoMatch(e.right, v, call);
            if (op === K.EqualsToken) return ts.isIdentifier(unwrap(e.left)) && localDecl(unwrap(e.left)) === v;
            if (op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken) {
                const nul = x => unwrap(x).kind === K.NullKeyword;
                const isV = x => falseMeansNoMatch(x, v, call);
                return (nul(e.right) && isV(e.left)) || (nul(e.left) && isV(e.right));
            }
        }
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) {
            const c = unwrap(e.operand);
            if (ts.isCallExpression(c) && c.arguments.length === 1 && /^isNull/.test(c.expression.getText())) return falseMeansNoMatch(c.arguments[0], v, call);
            if (ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken) return falseMeansNoMatch(c.operand, v, call);
        }
        return false;
    }
    const isGlobalFlag = x => { const e = unwrap(x); return ts.isPropertyAccessExpression(e) && /^(global|sticky)$/.test(e.name.text); };
    const flagsOf = o => { if (o.regex) return o.regex.slice(o.regex.lastIndexOf('/') + 1); return o.flags; };

    const inert = new Set(), caches = new Set(), reset = new Set(), handed = new Set();
    // its purpose is to queue callbacks across calls
    const SCHEDULERS = new Set(['function.nextTick']);
    eachEntry(ctx, (e, r, I) => {
        if (SCHEDULERS.has(e.id)) { ctx.count('scheduler_entries'); return; }
        const cacheObjs = new Set();
        for (const ev of r.events) {
            if (ev.type === 'modvar') {
                ctx.violation({ key: `${e.id}#var:${ev.key}`, msg: `${e.id} assigns the module-level variable ${ev.key}`, at: ctx.pos(ev.node), path: via(prog, ev) });
                continue;
            }
            if (ev.type !== 'mutate') continue;
            ctx.count('writes_examined');
            const o = ev.obj;
            if (o.org.t !== 'M' && o.org.t !== 'G') continue;
            ctx.count('shared_writes_examined');
            const nm = o.org.name.replace(/^packages\//, '').replace(/^.*\/src\//, m => m);
            if (ev.prop === 'lastIndex') {
                const fl = flagsOf(o);
                if (typeof fl === 'string' && !/[gy]/.test(fl)) { inert.add(nm); continue; } // never read by the engine
                if (ts.isCallExpression(ev.node) && drained(ev.node)) { reset.add(nm); continue; }
            }
            if (isKeyedCache(ev.node)) { caches.add(nm); cacheObjs.add(o); continue; }
            ctx.violation({ key: `${e.id}#${nm.split('#').pop()}`, msg: `${e.id} changes ${o.org.t === 'G' ? 'the global' : 'module-level state'} \`${nm}\` (${ev.how} of ${ev.prop})`, at: ctx.pos(ev.node), path: via(prog, ev) });
        }
        // what a cache holds is shared with every later call: it must not change after that, nor be handed out
        const cached = new Set();
        const inCache = (v, d) => { for (const o of v.o) if (!cached.has(o) && o.kind === 'alloc' && !o.frozen) { cached.add(o); if (d < 4) { for (const f of o.fields.values()) inCache(f, d + 1); inCache(o.rest, d + 1); } } };
        for (const o of cacheObjs) { for (const f of o.fields.values()) inCache(f, 0); inCache(o.rest, 0); }
        if (cached.size) for (const ev of r.events) if ((ev.type === 'mutate' || ev.type === 'fmutate') && cached.has(ev.obj)) {
            const fl = flagsOf(ev.obj);
            if (ev.prop === 'lastIndex' && ((typeof fl === 'string' && !/[gy]/.test(fl)) || (ts.isCallExpression(ev.node) && drained(ev.node)))) continue;
            ctx.violation({ key: `${e.id}#cached:${ev.prop}`, msg: `${e.id} changes (${ev.how} of ${ev.prop}) an object it keeps in a cache for later calls`, at: ctx.pos(ev.node), path: via(prog, ev) });
        }
        // shared mutable tables must not be handed out by reference
        const seen = new Set();
        const walk = (v, d, p) => {
            for (const o of v.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                if ((o.org.t === 'M' || cached.has(o)) && o.kind === 'alloc' && !o.frozen && o.cls !== 'Promise') {
                    handed.add(`${e.id}: ${o.org.name}`);
                    ctx.violation({ key: `${e.id}#returns:${o.org.name.split('#').pop()}`, msg: `${e.id} hands out the module-level ${o.cls} \`${o.org.name}\`${p && ' inside its result'}: the caller can change what later calls see`, at: ctx.pos(e.fn) });
                }
                if (d < 4 && o.kind === 'alloc' && o.org.t === 'F') {
                    for (const [k, f] of o.fields) walk(f, d + 1, p + '.' + k);
                    walk(o.rest, d + 1, p + '[]');
                }
            }
        };
        walk(r.ret, 0, '');
    });
    ctx.lists.inert_match_positions = [...inert];
    ctx.lists.keyed_caches = [...caches];
    ctx.lists.self_resetting_regexes = [...reset];
    // module-level variables that are declared with let/var are listed so that the evidence shows what was considered
    let lets = 0;
    for (const sf of prog.sources) for (const s of sf.statements) if (ts.isVariableStatement(s) && !(s.declarationList.flags & ts.NodeFlags.Const)) lets++;
    ctx.count('module_level_let', lets);
    ctx.need('entries', 600);
    ctx.need('shared_writes_examined', 1);
}, 'Interprocedural effect analysis from every public entry: writes to module-level variables, to objects created by module initialisers and to globals, and module-level mutable objects reachable from results. Exempt by proof, not by name: match-position writes on regexes without g/y, exec loops that only end on a failed match, and `cache[k] = f(k)` where f depends on k alone.');
