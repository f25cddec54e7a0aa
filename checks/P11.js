'use strict';
// P11: stack use follows the nesting of the data, never its size.
const { run, ts } = require('./lib');
const { eachEntry } = require('./facts');
const { recursion } = require('../engine/recursion');
const V = require('../engine/values');
const K = ts.SyntaxKind;

// ---- how many elements an array can have ----------------------------------------------------------------------------
function bounded(I, prog, [v, node], seen = new Set()) {
    if (v.p & V.STR) { const c = V.consts(V.restrict(V.primsOnly(v), V.STR)); if (!c) return 'a text'; }
    for (const o of v.o) {
        if (o.kind === 'alloc' && o.cls === 'Array') {
            if (ts.isParameter(o.node) && o.node.dotDotDotToken) continue; // the arguments of a call
            if (o.sizeOf) {
                if (seen.has(o)) continue;
                const s2 = new Set(seen).add(o);
                for (const s of o.sizeOf) {
                    // longer than itself
                    if (s[2] && reachesSize(s[0], o)) return 'an array put together piece by piece';
                    const why = bounded(I, prog, s, s2);
                    if (why) return why;
                }
                if (!o.grown) continue;
            }
            if (o.grown && o.grown !== true && fixedGrowth(prog, o)) continue;
            if (o.rest.isBot() && !o.spread.length) continue;
            if (o.isArguments) continue;
            return 'an array built from data';
        }
        if (node) {
            const t = prog.checker.getTypeAtLocation(node);
            if (prog.checker.isTupleType(t) && !t.target.hasRestElement) continue;
        }
        return o.org.t === 'P' || o.org.t === 'R' ? `the caller's ${o.org.name}` : 'an array of unknown length';
    }
    return null;
}

// every site that appends to the array runs a fixed number of times for each array made
const owner = n => { for (let x = n.parent; x; x = x.parent) if (ts.isFunctionLike(x) || ts.isSourceFile(x)) return x; return null; };
const loopPart = (x, l) => l.statement === x || l.condition === x || l.incrementor === x || !ts.isForOfStatement(l) && l.expression === x && !ts.isForInStatement(l);
function inLoop(n) {
    for (let x = n; x.parent && !ts.isFunctionLike(x); x = x.parent) {
        const l = x.parent;
        if (ts.isIterationStatement(l, false) && loopPart(x, l) && !keyLoop(n, l)) return true;
    }
    return false;
}
let refs = null;
function callsOf(prog, fn) {
    if (!refs) {
        refs = new Map();
        for (const sf of prog.sources) {
            const walk = n => {
                if (ts.isIdentifier(n)) { let s = prog.checker.getSymbolAtLocation(n); if (s && s.flags & ts.SymbolFlags.Alias) s = prog.checker.getAliasedSymbol(s); const d = s && s.valueDeclaration; if (d && d.name !== n) { const f = ts.isFunctionLike(d) ? d : ts.isVariableDeclaration(d) && d.initializer && ts.isFunctionLike(d.initializer) ? d.initializer : null; if (f && !ts.isImportSpecifier(n.parent) && !ts.isExportSpecifier(n.parent) && !ts.isExportAssignment(n.parent) && !ts.isImportClause(n.parent)) { if (!refs.has(f)) refs.set(f, []); refs.get(f).push(n); } } }
                ts.forEachChild(n, walk);
            };
            walk(sf);
        }
    }
    return refs.get(fn) || [];
}
// run for one key only: under a comparison of the key with a text, in a walk over the keys of an object
const KEYS = /^(Object|Reflect)\.(keys|ownKeys|getOwnPropertyNames|entries)\(/;
const keyName = (name, over) => { if (/\.entries\(/.test(over)) name = ts.isArrayBindingPattern(name) && name.elements[0] && name.elements[0].name; return name && ts.isIdentifier(name) ? name.text : null; };
function forKey(n, k, stop) {
    if (!k) return false;
    const isKey = e => ts.isIdentifier(e) && e.text === k;
    for (let x = n; x !== stop; x = x.parent) {
        if (ts.isCaseClause(x.parent) && x.parent.expression !== x && ts.isStringLiteralLike(x.parent.expression) && isKey(x.parent.parent.parent.expression)) return true;
        if (ts.isIfStatement(x.parent) && x.parent.thenStatement === x && ts.isBinaryExpression(x.parent.expression) && [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken].includes(x.parent.expression.operatorToken.kind)) { const { left, right } = x.parent.expression; if (isKey(left) && ts.isStringLiteralLike(right) || isKey(right) && ts.isStringLiteralLike(left)) return true; }
    }
    return false;
}
function keyLoop(n, l) {
    if (ts.isForInStatement(l) || ts.isForOfStatement(l) && KEYS.test(l.expression.getText())) return ts.isVariableDeclarationList(l.initializer) && forKey(n, keyName(l.initializer.declarations[0].name, l.expression.getText()), l);
    return false;
}
// the walk a function is the body of, or null
function walkOf(prog, f) {
    let at = f;
    if (ts.isVariableDeclaration(f.parent) || ts.isFunctionDeclaration(f)) { const rs = callsOf(prog, f); if (rs.length !== 1) return null; at = rs[0]; }
    const c = at.parent;
    return ts.isCallExpression(c) && c.arguments[0] === at && ts.isPropertyAccessExpression(c.expression) && /^(forEach|map|some|every|filter)$/.test(c.expression.name.text) && KEYS.test(c.expression.expression.getText()) ? c : null;
}
function perKey(prog, n, f) {
    const c = walkOf(prog, f);
    return c && f.parameters[0] && forKey(n, keyName(f.parameters[0].name, c.expression.expression.getText()), f) ? c : null;
}
function once(prog, n, target, seen = new Set()) {
    if (inLoop(n)) return false;
    const f = owner(n);
    if (f === target) return true;
    if (!f || ts.isSourceFile(f) || seen.has(f)) return false;
    const s2 = new Set(seen).add(f);
    const walk = perKey(prog, n, f);
    if (walk) return once(prog, walk, target, s2);
    if (ts.isCallExpression(f.parent) && f.parent.expression === f || ts.isParenthesizedExpression(f.parent) && ts.isCallExpression(f.parent.parent) && f.parent.parent.expression === f.parent) return once(prog, f.parent, target, s2);
    const rs = callsOf(prog, f);
    return rs.length > 0 && rs.every(r => ts.isCallExpression(r.parent) && r.parent.expression === r && once(prog, r.parent, target, s2));
}
const fixedGrowth = (prog, o) => o.org.t === 'F' && [...o.grown].every(e => once(prog, e, owner(o.node)));

// the length of v depends on the length of o
function reachesSize(v, o, seen = new Set()) {
    for (const x of v.o) {
        if (x === o) return true;
        if (seen.has(x)) continue;
        seen.add(x);
        if (x.sizeOf && x.sizeOf.some(s => reachesSize(s[0], o, seen))) return true;
    }
    return false;
}

run('P11', ctx => {
    const { prog } = ctx;
    const sites = new Set(), bad = new Map();
    eachEntry(ctx, () => {}, {
        onGrow: (I, o, args, e) => { if (args.spreadV) { o.sizeOf = o.sizeOf || []; for (const s of args.spreadV) if (!o.sizeOf.some(x => x[1] === s[1])) o.sizeOf.push([...s, true]); } if (o.grown !== true) (o.grown = o.grown || new Set()).add(e); },
        onDynWrite: (I, target, recv) => { for (const o of recv.o) if (o.cls === 'Array' && o.kind === 'alloc') o.grown = true; },
        onSpreadCall: (I, o, key, vals, e) => {
            sites.add(e);
            // arguments for a function of the caller: their number is the caller's choice
            if (key === null && o.lazy && ['P', 'R', 'C'].includes(o.org.t)) return;
            if (key !== null && ['call', 'apply', 'bind'].includes(key)) return;
            for (const s of vals) {
                const why = bounded(I, prog, s);
                if (why && !bad.has(e)) bad.set(e, { why, name: key || o.name || (o.node && o.node.name && o.node.name.getText()) || '?' });
            }
        }
    });
    ctx.count('argument_lists_from_arrays', sites.size);
    const where = n => prog.rel(n.getSourceFile().fileName).replace('packages/', '').replace('/src', '');
    for (const [e, b] of bad) ctx.violation({ key: `args:${where(e)}:${b.name}`, msg: `${b.name} is called with one argument for each element of ${b.why}; a large one overflows the stack`, at: ctx.pos(e) });
    // ---- recursion ----------------------------------------------------------------------------------------------------
    const r = recursion(prog);
    ctx.count('functions_in_cycles', r.functions); ctx.count('recursive_calls', r.calls); ctx.count('descending', r.descending); ctx.count('asynchronous_or_guarded', r.deferred);
    for (const n of r.neutral) ctx.note(`${ctx.pos(n)}: converts its argument and calls itself again`);
    for (const v of r.linear) ctx.violation({ key: `recursion:${where(v.node)}:${v.name}`, msg: `${v.name} calls itself for ${v.why}: the stack grows with the size of the data, not with its nesting`, at: ctx.pos(v.node) });
    ctx.need('entries', 500);
    ctx.need('recursive_calls', 20);
}, 'RULE 1 (argument lists): every call whose arguments are spread from an array (f(...a), new C(...a), f.apply(_, a), Reflect.apply) must have a number of arguments the code or the caller of the entry fixes: the array is a rest parameter, a literal, a tuple, or derived from those; a function the caller supplied may be given the list the caller supplied. RULE 2 (recursion): in the call graph of library functions restricted to synchronous calls outside a guarding try, every cycle must pass through a call that hands over a part of its argument (an element, a property, a child path); a cycle whose calls hand over a slice, a moved index or nothing is linear in the size of the data.');
