'use strict';
// Size-change analysis of recursion: for every cycle of synchronous calls between library functions, does each turn hand over a
// part of what it was given (depth = nesting), or a shorter piece of it / a moved index (depth = size)?
const { ts } = require('./program');
const K = ts.SyntaxKind;
const PIECE = new Set(['slice', 'substring', 'substr', 'subarray', 'splice', 'filter', 'replace', 'trim', 'trimStart', 'trimEnd', 'toSpliced', 'sort', 'reverse', 'toSorted', 'toReversed']);
const SHRINK = new Set(['shift', 'pop', 'splice', 'next', 'push', 'unshift', 'delete', 'read']);
const LATER = new Set(['setTimeout', 'setImmediate', 'setInterval', 'queueMicrotask', 'nextTick', 'requestAnimationFrame', 'requestIdleCallback', 'then', 'catch', 'finally']);
const SAME = new Set(['toString', 'valueOf', 'String', 'Number', 'BigInt', 'Boolean', 'Array.from', 'Object.assign', 'values', 'keys', 'entries', 'flat', 'Object.keys', 'Object.values', 'Object.entries', 'call', 'toJSON']);
const RANK = { same: 1, piece: 2, part: 3 };

function recursion(prog) {
    const ch = prog.checker;
    const symOf = n => { let s = ch.getSymbolAtLocation(n); if (s && s.flags & ts.SymbolFlags.Alias) s = ch.getAliasedSymbol(s); if (n.parent && ts.isShorthandPropertyAssignment(n.parent)) s = ch.getShorthandAssignmentValueSymbol(n.parent) || s; return s; };
    const owner = n => { for (let x = n.parent; x; x = x.parent) if (ts.isFunctionLike(x)) return x; return null; };
    const skip = n => { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression?.(n) || ts.isSatisfiesExpression?.(n)) n = n.expression; return n; };
    const fnsOf = (s, d = 0) => {
        const r = [];
        for (const x of (s && s.declarations) || []) {
            if (ts.isFunctionLike(x) && x.body) r.push(x);
            else if ((ts.isVariableDeclaration(x) || ts.isPropertyAssignment(x) || ts.isPropertyDeclaration(x)) && x.initializer) {
                const i = skip(x.initializer);
                if (ts.isFunctionLike(i)) r.push(i);
                else if (ts.isIdentifier(i) && d < 3) r.push(...fnsOf(symOf(i), d + 1));
                // a function inside a call (a wrapper such as a memoizer) is what the name calls
                else if (ts.isCallExpression(i)) for (const a of i.arguments) { const f = skip(a); if (ts.isFunctionLike(f)) r.push(f); }
            }
            // assigned later
            if (ts.isVariableDeclaration(x) && !x.initializer && writes.has(s)) for (const w of writes.get(s)) { const i = skip(w); if (ts.isFunctionLike(i)) r.push(i); }
        }
        return r;
    };
    // every expression assigned to a variable, and the variables whose contents shrink
    const writes = new Map(), shrunk = new Set(), stepped = new Set();
    const fns = [];
    const collect = n => {
        if (ts.isFunctionLike(n) && n.body) fns.push(n);
        if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(n.left)) {
            const s = symOf(n.left);
            if (s) { if (n.operatorToken.kind === K.EqualsToken) { if (!writes.has(s)) writes.set(s, []); writes.get(s).push(n.right); } else stepped.add(s); }
        }
        if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && ts.isIdentifier(n.operand)) { const s = symOf(n.operand); if (s) stepped.add(s); }
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ts.isIdentifier(n.expression.expression) && SHRINK.has(n.expression.name.text)) { const s = symOf(n.expression.expression); if (s) shrunk.add(s); }
        ts.forEachChild(n, collect);
    };
    for (const sf of prog.sources) collect(sf);

    // what an expression is to the variables it is made of: Map(symbol -> same | piece | part)
    const up = (m, k) => { const r = new Map(); for (const [s, x] of m) r.set(s, RANK[k] > RANK[x] ? k : x); return r; };
    const merge = (...ms) => { const r = new Map(); for (const m of ms) for (const [s, x] of m) if (!r.has(s) || RANK[x] < RANK[r.get(s)]) r.set(s, x); return r; };
    const any = (...ms) => { const r = new Map(); for (const m of ms) for (const [s, x] of m) if (!r.has(s) || RANK[x] > RANK[r.get(s)]) r.set(s, x); return r; };
    const EMPTY = new Map();
    const active = new Set();
    function bindingOf(el) {
        // variable inside a destructuring pattern
        let k = el.dotDotDotToken ? 'piece' : 'part', p = el.parent.parent;
        while (ts.isBindingElement(p)) { k = 'part'; p = p.parent.parent; }
        if (ts.isVariableDeclaration(p)) return up(declOf(p), k);
        if (ts.isParameter(p)) return up(paramOf(p, null), k);
        return EMPTY;
    }
    function declOf(d) {
        if (d.initializer) return rel(d.initializer);
        const l = d.parent && d.parent.parent;
        if (l && (ts.isForOfStatement(l) || ts.isForInStatement(l))) return up(rel(l.expression), 'part');
        return EMPTY;
    }
    // the parameter of a function written in place as an argument: an element of what the call works on
    function paramOf(p, sym) {
        const f = p.parent;
        const c = f.parent;
        if ((ts.isArrowFunction(f) || ts.isFunctionExpression(f)) && c && (ts.isCallExpression(c) || ts.isNewExpression(c)) && (c.arguments || []).includes(f)) {
            const from = [];
            if (ts.isPropertyAccessExpression(c.expression)) from.push(rel(c.expression.expression));
            for (const a of c.arguments) if (a !== f) from.push(rel(a));
            const m = up(any(...from), 'part');
            if (m.size) return m;
        }
        return sym ? new Map([[sym, 'same']]) : EMPTY;
    }
    function ofSym(s) {
        const d = s.valueDeclaration;
        if (!d) return EMPTY;
        if (active.has(s)) return EMPTY;
        active.add(s);
        try {
            if (ts.isParameter(d)) return any(new Map([[s, 'same']]), paramOf(d, s), ...(writes.get(s) || []).map(w => up(rel(w), 'same')));
            const base = new Map([[s, stepped.has(s) || shrunk.has(s) ? 'piece' : 'same']]);
            if (ts.isBindingElement(d)) return any(base, bindingOf(d));
            if (ts.isVariableDeclaration(d)) {
                const init = declOf(d);
                const ws = (writes.get(s) || []).map(rel);
                return any(base, ws.length ? any(init, ...ws) : init);
            }
            return EMPTY;
        } finally { active.delete(s); }
    }
    function rel(n) {
        n = skip(n);
        if (ts.isIdentifier(n)) { const s = symOf(n); return s ? ofSym(s) : EMPTY; }
        if (n.kind === K.ThisKeyword) return EMPTY;
        if (ts.isPropertyAccessExpression(n)) return n.name.text === 'length' || n.name.text === 'size' ? up(rel(n.expression), 'piece') : up(rel(n.expression), 'part');
        if (ts.isElementAccessExpression(n)) return up(rel(n.expression), 'part');
        if (ts.isAwaitExpression(n) || ts.isSpreadElement(n)) return rel(n.expression);
        if (ts.isConditionalExpression(n)) return merge2(rel(n.whenTrue), rel(n.whenFalse));
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken.kind;
            if (op === K.BarBarToken || op === K.QuestionQuestionToken || op === K.AmpersandAmpersandToken) return merge2(rel(n.left), rel(n.right));
            if (op === K.CommaToken || op === K.EqualsToken) return rel(n.right);
            const m = any(rel(n.left), rel(n.right));
            // text put together: a child path; numbers: a moved index
            const t = ch.getTypeAtLocation(n);
            return up(m, t.flags & ts.TypeFlags.StringLike ? 'part' : 'piece');
        }
        if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) return up(rel(n.operand), 'piece');
        if (ts.isTemplateExpression(n)) return up(any(...n.templateSpans.map(x => rel(x.expression))), 'part');
        if (ts.isObjectLiteralExpression(n)) return any(...n.properties.map(p => (ts.isPropertyAssignment(p) ? rel(p.initializer) : ts.isShorthandPropertyAssignment(p) ? rel(p.name) : ts.isSpreadAssignment(p) ? rel(p.expression) : EMPTY)));
        if (ts.isArrayLiteralExpression(n)) return any(...n.elements.map(rel));
        if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
            const c = skip(n.expression);
            const args = (n.arguments || []).filter(a => !ts.isFunctionLike(skip(a))).map(rel);
            if (ts.isPropertyAccessExpression(c)) {
                const nm = c.name.text;
                const recv = rel(c.expression);
                if (nm === 'concat' && ch.getTypeAtLocation(c.expression).flags & ts.TypeFlags.StringLike) return up(any(recv, ...args), 'part');
                if (PIECE.has(nm)) return up(recv, 'piece');
                if (SAME.has(nm) || SAME.has(c.getText())) return any(recv, ...args);
                if (['shift', 'pop', 'get', 'at', 'find', 'next', 'charAt', 'split', 'map', 'match', 'exec', 'readdirSync', 'readdir', 'join', 'resolve'].includes(nm)) return up(any(recv, ...args), nm === 'map' ? 'same' : 'part');
                return up(any(recv, ...args), 'same');
            }
            return any(...args);
        }
        return EMPTY;
    }
    const merge2 = (a, b) => (a.size && b.size ? any(a, b) : a.size ? a : b);

    // ---- calls --------------------------------------------------------------------------------------------------------
    const external = n => {
        const s = symOf(ts.isPropertyAccessExpression(n) ? n.name : n);
        const d = s && s.declarations && s.declarations[0];
        return d ? d.getSourceFile().fileName : null;
    };
    // runs later, on a stack of its own
    const later = call => {
        const c = skip(call.expression);
        const nm = ts.isPropertyAccessExpression(c) ? c.name.text : ts.isIdentifier(c) ? c.text : '';
        if (LATER.has(nm)) return true;
        if (ts.isNewExpression(call)) return false;
        const f = external(c);
        return !!f && (/@types\/node\//.test(f) || /lib\.dom/.test(f));
    };
    const guarded = n => {
        for (let x = n; x.parent && !ts.isFunctionLike(x); x = x.parent) if (ts.isTryStatement(x.parent) && x.parent.tryBlock === x && x.parent.catchClause) {
            let rethrows = false;
            const w = y => { if (ts.isThrowStatement(y)) rethrows = true; else if (!ts.isFunctionLike(y)) ts.forEachChild(y, w); };
            w(x.parent.catchClause.block);
            if (!rethrows) return true;
        }
        return false;
    };
    // something was awaited on every path to here
    const awaited = n => {
        const has = y => { let r = false; const w = z => { if (ts.isAwaitExpression(z)) r = true; if (!r && !ts.isFunctionLike(z) && !ts.isIfStatement(z) && !ts.isIterationStatement?.(z, false) && !ts.isTryStatement(z) && !ts.isSwitchStatement(z) && !ts.isConditionalExpression(z)) ts.forEachChild(z, w); }; w(y); return r; };
        for (let x = n; x.parent && !ts.isFunctionLike(x); x = x.parent) if (ts.isBlock(x.parent) || ts.isCaseOrDefaultClause(x.parent)) {
            for (const s of x.parent.statements) { if (s === x) break; if ((ts.isExpressionStatement(s) || ts.isVariableStatement(s)) && has(s)) return true; }
        }
        return false;
    };
    const edges = [];
    let deferred = 0, calls = 0;
    const params = f => f.parameters.map(p => p.name);
    const symsOfPattern = n => { const r = []; const w = x => { if (ts.isIdentifier(x)) { const s = symOf(x); if (s) r.push(s); } else if (x.elements) for (const e of x.elements) if (ts.isBindingElement(e)) w(e.name); }; w(n); return r; };
    const isRestOf = (s, pat) => pat.elements.some(e => ts.isBindingElement(e) && e.dotDotDotToken && ts.isIdentifier(e.name) && symOf(e.name) === s);
    const addEdge = (from, to, node, arcs) => edges.push({ from, to, node, arcs });
    const parts = args => any(...args.map(a => up(rel(a), 'part')));
    for (const f of fns) {
        const walk = n => {
            if (n !== f && ts.isFunctionLike(n)) return;
            if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
                const c = skip(n.expression);
                const args = n.arguments || [];
                let targets = [];
                if (ts.isIdentifier(c)) targets = fnsOf(symOf(c));
                else if (ts.isPropertyAccessExpression(c)) {
                    targets = fnsOf(symOf(c.name));
                    if (['call', 'apply', 'bind'].includes(c.name.text) && ts.isIdentifier(skip(c.expression))) targets = fnsOf(symOf(skip(c.expression)));
                } else if (ts.isFunctionLike(c)) targets = [c];
                const shift = ts.isPropertyAccessExpression(c) && ['call', 'apply'].includes(c.name.text) ? 1 : 0;
                for (const t of targets) {
                    calls++;
                    if (guarded(n) || awaited(n)) { deferred++; continue; }
                    const arcs = [];
                    let i = shift;
                    for (const p of t.parameters) {
                        if (ts.isIdentifier(p.name) && p.name.text === 'this') continue;
                        const a = args[i++];
                        if (!a) continue;
                        for (const [s, k] of rel(a)) for (const ps of symsOfPattern(p.name)) arcs.push([s, ps, ts.isIdentifier(p.name) ? k : k !== 'part' && isRestOf(ps, p.name) ? 'piece' : 'part']);
                    }
                    addEdge(f, t, n, arcs);
                }
                // functions handed over: run by the callee with parts of what it works on
                if (!later(n)) for (const a of args) {
                    const x = skip(a);
                    const recv = ts.isPropertyAccessExpression(c) ? [c.expression] : [];
                    const rest = args.filter(y => y !== a && !ts.isFunctionLike(skip(y)));
                    const hand = ts.isFunctionLike(x) ? [x] : ts.isIdentifier(x) ? fnsOf(symOf(x)) : [];
                    for (const t of hand) {
                        if (guarded(n) || awaited(n)) { deferred++; continue; }
                        const arcs = [];
                        for (const [s, k] of parts([...recv, ...rest])) for (const p of t.parameters) for (const ps of symsOfPattern(p.name)) arcs.push([s, ps, k]);
                        addEdge(f, t, n, arcs);
                    }
                } else if (args.some(a => ts.isFunctionLike(skip(a)))) deferred++;
            }
            ts.forEachChild(n, walk);
        };
        if (f.body) walk(f.body);
        for (const p of f.parameters) if (p.initializer) walk(p.initializer);
    }
    // cycles
    const out = new Map();
    for (const e of edges) { if (!out.has(e.from)) out.set(e.from, []); out.get(e.from).push(e); }
    const reach = f => { const s = new Set(), q = [f]; while (q.length) for (const e of out.get(q.pop()) || []) if (!s.has(e.to)) { s.add(e.to); q.push(e.to); } return s; };
    const reaches = new Map(fns.map(f => [f, reach(f)]));
    const inCycle = edges.filter(e => reaches.get(e.to).has(e.from) || e.to === e.from);
    const cyc = new Set(inCycle.map(e => e.from));
    // variables of a function: its own parameters and what it captures; a captured variable keeps its value over a call
    const varsOf = new Map();
    for (const f of cyc) {
        const s = new Set();
        const w = n => { if (ts.isIdentifier(n)) { const x = symOf(n); const d = x && x.valueDeclaration; if (d && (ts.isParameter(d) || ts.isVariableDeclaration(d) || ts.isBindingElement(d)) && owner(d) && (owner(d) !== f || ts.isParameter(d))) s.add(x); } ts.forEachChild(n, w); };
        w(f);
        varsOf.set(f, s);
    }
    const captured = new Set([...varsOf.values()].flatMap(x => [...x]));
    const inside = (a, b) => { for (let x = a; x; x = x.parent) if (x === b) return true; return false; };
    const graph = e => {
        const g = new Map();
        const put = (a, b, k) => { const id = a; if (!g.has(id)) g.set(id, new Map()); const m = g.get(id); if (!m.has(b) || RANK[k] > RANK[m.get(b)]) m.set(b, k); };
        for (const [a, b, k] of e.arcs) put(a, b, k);
        for (const s of captured) {
            const d = s.valueDeclaration;
            const o = owner(d);
            // a variable of a function around both
            if (o && o !== e.to && inside(e.from, o) && inside(e.to, o) && (o !== e.from || inside(e.to, e.from))) put(s, s, stepped.has(s) || shrunk.has(s) ? 'piece' : 'same');
        }
        return g;
    };
    const key = g => [...g].flatMap(([a, m]) => [...m].map(([b, k]) => `${ids(a)}>${ids(b)}${k[2]}`)).sort().join(' ');
    const idm = new Map();
    function ids(s) { if (!idm.has(s)) idm.set(s, idm.size); return idm.get(s); }
    const compose = (g, h) => {
        const r = new Map();
        for (const [a, m] of g) for (const [b, k] of m) for (const [c, j] of h.get(b) || []) {
            if (!r.has(a)) r.set(a, new Map());
            const x = RANK[k] > RANK[j] ? k : j, mm = r.get(a);
            if (!mm.has(c) || RANK[x] > RANK[mm.get(c)]) mm.set(c, x);
        }
        return r;
    };
    const all = new Map();
    const list = [];
    const push = (from, to, g, first) => { const id = `${fns.indexOf(from)}/${fns.indexOf(to)}/${key(g)}`; if (all.has(id) || list.length > 20000) return; const x = { from, to, g, first }; all.set(id, x); list.push(x); };
    for (const e of inCycle) push(e.from, e.to, graph(e), e);
    for (let i = 0; i < list.length; i++) {
        const x = list[i];
        for (const y of list.slice()) { if (x.to === y.from) push(x.from, y.to, compose(x.g, y.g), x.first); if (y.to === x.from) push(y.from, x.to, compose(y.g, x.g), y.first); }
    }
    const linear = [], neutral = [];
    let descending = 0;
    const nameOf = f => (f.name ? f.name.getText() : f.parent && ts.isVariableDeclaration(f.parent) ? f.parent.name.getText() : 'a function');
    const seen = new Set();
    for (const x of list) {
        if (x.from !== x.to || key(compose(x.g, x.g)) !== key(x.g)) continue;
        const self = [...x.g].map(([a, m]) => m.get(a)).filter(Boolean);
        if (self.includes('part')) { descending++; continue; }
        const id = nameOf(x.from) + prog.pos(x.first.node);
        if (seen.has(id)) continue;
        seen.add(id);
        if (self.includes('piece')) linear.push({ node: x.first.node, name: nameOf(x.from), why: 'a shorter piece or a moved index of what it was given' });
        else neutral.push(x.first.node);
    }
    return { functions: cyc.size, calls, descending, deferred, linear, neutral };
}
module.exports = { recursion };
