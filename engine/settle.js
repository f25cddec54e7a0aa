'use strict';
// Must-settle analysis: on every path through a function, is one of the given "settlers" (the resolve/reject pair of a promise, or
// a completion callback) called, or handed to something that will call it? A path is a set of tokens; the join of two paths is the
// intersection. Listeners on an emitter count together: the events that end the emitter's life must all settle.
const { ts } = require('./program');
const K = ts.SyntaxKind;

// the events one of which happens in each way an emitter can end; the first group is the failure
const LIFE = {
    ChildProcess: { fail: ['error'], ends: ['close', 'exit'] },
    ReadStream: { fail: ['error'], ends: ['end', 'close'] },
    Readable: { fail: ['error'], ends: ['end', 'close'] },
    IncomingMessage: { fail: ['error'], ends: ['end', 'close'] },
    ReadableStream: { fail: ['error'], ends: ['end', 'close'] },
    Writable: { fail: ['error'], ends: ['finish', 'close'] },
    WritableStream: { fail: ['error'], ends: ['finish', 'close'] },
    WriteStream: { fail: ['error'], ends: ['finish', 'close'] },
    Transform: { fail: ['error'], ends: ['end', 'finish', 'close'] },
    Duplex: { fail: ['error'], ends: ['end', 'finish', 'close'] },
    ClientRequest: { fail: ['error'], ends: ['response', 'close'] },
    Interface: { fail: ['error'], ends: ['close'] },
    Socket: { fail: ['error'], ends: ['close', 'end'] }
};
const strip = e => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; };
const TIMERS = /^(setTimeout|setImmediate|setInterval|queueMicrotask|nextTick|requestAnimationFrame)$/;

class Settle {
    constructor(prog) { this.prog = prog; this.checker = prog.checker; this.busy = new Map(); this.emitters = new Map(); this.uses = []; this.given = new Set(); /* variables that certainly hold the failure */ }
    within(s, fn) { const d = s.valueDeclaration; return !!d && d.parent === fn; }
    isGiven(e) { e = strip(e); return !!e && ts.isIdentifier(e) && this.given.has(this.sym(e)); }
    // the listener of a failure event, called with the failure
    failing(h, S) {
        const f = this.fnOf(h), p = f && f.parameters[0], old = this.given;
        if (!p || !ts.isIdentifier(p.name)) return this.settler(h, S);
        this.given = new Set(old).add(this.sym(p.name));
        const r = this.settler(h, S);
        this.given = old;
        return r;
    }
    local(d) { if (!this.files) this.files = new Set(this.prog.sources); return this.files.has(d.getSourceFile()); }
    sym(id) {
        let s = ts.isShorthandPropertyAssignment(id.parent) ? this.checker.getShorthandAssignmentValueSymbol(id.parent) : this.checker.getSymbolAtLocation(id);
        if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
        return s;
    }
    // the function an expression denotes
    fnOf(e) {
        e = strip(e);
        if (!e) return null;
        if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return e;
        if (ts.isIdentifier(e)) {
            const s = this.sym(e);
            for (const d of (s && s.declarations) || []) {
                if (ts.isFunctionDeclaration(d) && d.body && this.local(d)) return d;
                if (ts.isVariableDeclaration(d) && d.initializer && this.local(d)) { const i = strip(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return i; if (ts.isIdentifier(i) && i !== e) return this.fnOf(i); }
            }
        }
        return null;
    }
    // does calling this value settle?
    settler(e, S) {
        e = strip(e);
        if (!e) return false;
        if (ts.isIdentifier(e)) { const s = this.sym(e); if (s && S.has(s)) return true; }
        if (ts.isConditionalExpression(e)) return this.settler(e.whenTrue, S) && this.settler(e.whenFalse, S);
        if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'bind') return this.settler(e.expression.expression, S);
        const f = this.fnOf(e);
        return !!f && this.must(f, S);
    }
    must(fn, S, isPromise) {
        const key = [...S].map(s => this.id(s)).sort().join(',') + '|' + [...this.given].filter(s => this.within(s, fn)).map(s => this.id(s)).sort().join(',');
        let m = this.busy.get(fn);
        if (!m) this.busy.set(fn, m = new Map());
        if (m.has(key)) { const v = m.get(key); return v === null ? true : v; } // coinductive on recursion
        m.set(key, null);
        const r = this.run(fn, S, isPromise);
        m.set(key, r);
        return r;
    }
    id(s) { if (!this.ids) { this.ids = new Map(); } if (!this.ids.has(s)) this.ids.set(s, this.ids.size); return this.ids.get(s); }
    run(fn, S) {
        const A = { S: new Set(S), exits: [], fails: [], emit: new Map(), fn, isAsync: (fn.modifiers || []).some(m => m.kind === K.AsyncKeyword), guarded: 0 };
        if (!fn.body) return false;
        let st = new Set();
        if (ts.isBlock(fn.body)) { st = this.stmts(fn.body.statements, st, A); } else st = this.expr(fn.body, st, A);
        if (st) A.exits.push([st, fn]);
        let ok = true;
        for (const [t, at] of A.exits) if (!this.done(t, A)) { ok = false; A.fails.push(at); }
        this.last = A;
        if (!ok) { if (!this.why) this.why = new Map(); this.why.set(fn, A.fails); }
        return ok;
    }
    done(t, A) {
        if (t.has('settled')) return true;
        for (const [k, kind] of A.emit) {
            const life = LIFE[kind], em = [...t].filter(x => x.startsWith(k + ' ')).map(x => x.slice(k.length + 1));
            if (kind === 'Interface' && em.includes('close')) return true;
            // a failed start still ends in "close": then it is enough that the failure is taken notice of
            if (kind === 'ChildProcess' && em.includes('close') && em.includes('~error')) return true;
            if (life.ends.some(x => em.includes(x)) && life.fail.every(x => em.includes(x))) return true;
        }
        return false;
    }
    join(a, b) { if (!a) return b; if (!b) return a; const r = new Set(); for (const x of a) if (b.has(x)) r.add(x); return r; }
    stmts(list, st, A) { for (const s of list) { if (!st) return null; st = this.stmt(s, st, A); } return st; }
    stmt(s, st, A) {
        if (ts.isBlock(s)) return this.stmts(s.statements, st, A);
        if (ts.isExpressionStatement(s)) return this.expr(s.expression, st, A);
        if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) if (d.initializer) st = this.expr(d.initializer, st, A, d); return st; }
        if (ts.isReturnStatement(s)) { if (s.expression) st = this.expr(s.expression, st, A); if (st) A.exits.push([st, s]); return null; }
        if (ts.isThrowStatement(s)) return null;
        if (ts.isIfStatement(s)) {
            st = this.expr(s.expression, st, A);
            const c = this.truth(s.expression, A, st);
            const t = c === false || this.alreadyOver(s.expression, A) ? null : this.stmt(s.thenStatement, new Set(st), A);
            const x = this.cond(s.expression), not = ts.isPrefixUnaryExpression(x) && x.operator === K.ExclamationToken ? x.operand : null;
            const e = c === true || not && ts.isIdentifier(strip(not)) && this.alreadyOver(not, A) ? null : s.elseStatement ? this.stmt(s.elseStatement, new Set(st), A) : st;
            return this.join(t, e);
        }
        if (ts.isSwitchStatement(s)) {
            st = this.expr(s.expression, st, A);
            let out = null, cur = null, dflt = false;
            const brk = A.brk; A.brk = [];
            for (const c of s.caseBlock.clauses) {
                if (ts.isDefaultClause(c)) dflt = true;
                cur = this.stmts(c.statements, this.join(cur && new Set(cur), new Set(st)), A);
            }
            out = cur;
            for (const b of A.brk) out = this.join(out, b);
            A.brk = brk;
            if (!dflt) out = this.join(out, st);
            return out;
        }
        if (ts.isBreakStatement(s)) { if (A.brk) A.brk.push(new Set(st)); return null; }
        if (ts.isContinueStatement(s)) return null;
        if (ts.isIterationStatement(s, false)) {
            const brk = A.brk; A.brk = [];
            let exits0 = null;
            if (ts.isForStatement(s) && s.initializer && !ts.isVariableDeclarationList(s.initializer)) st = this.expr(s.initializer, st, A);
            const body = this.stmt(s.statement, new Set(st), A);
            if (ts.isDoStatement(s)) exits0 = body;
            let out = ts.isDoStatement(s) ? exits0 : (s.expression || s.condition) && (s.expression || s.condition).kind === K.TrueKeyword ? null : st;
            for (const b of A.brk) out = this.join(out, b);
            A.brk = brk;
            return out;
        }
        if (ts.isTryStatement(s)) {
            const before = new Set(st);
            if (s.catchClause) A.guarded++;
            let t = this.stmt(s.tryBlock, st, A);
            if (s.catchClause) A.guarded--;
            if (s.catchClause) { const c = this.stmt(s.catchClause.block, before, A); t = this.join(t, c); }
            if (s.finallyBlock) { t = t && this.stmt(s.finallyBlock, t, A); }
            return t;
        }
        if (ts.isLabeledStatement(s)) return this.stmt(s.statement, st, A);
        return st;
    }
    // a condition kept in a constant
    cond(e) {
        e = strip(e);
        for (let i = 0; i < 5 && e && ts.isIdentifier(e); i++) {
            const s = this.sym(e), d = s && s.valueDeclaration;
            if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) break;
            const x = strip(d.initializer);
            if (ts.isFunctionLike(x) || ts.isNewExpression(x)) break;
            e = x;
        }
        return e;
    }
    // conditions about the settler itself, and the countdown of pending work
    truth(e, A) {
        e = this.cond(e);
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken && !this.countdown(e, A)) { const t = this.truth(e.operand, A); return t === undefined ? t : !t; }
        if (ts.isIdentifier(e)) { const s = this.sym(e); if (s && (A.S.has(s) || this.given.has(s))) return true; }
        if (this.given.size) {
            if (ts.isCallExpression(e) && e.arguments.length === 1 && this.isGiven(e.arguments[0])) { const f = e.expression.getText(); if (/^(is(Error|Truthy|Object)|Boolean)$/.test(f)) return true; if (/^is(Null|Undefined|NullOrUndefined|Falsy|Nil)$/.test(f)) return false; }
            if (ts.isBinaryExpression(e)) {
                const op = e.operatorToken.kind, none = x => /^(null|undefined|void 0)$/.test(strip(x).getText());
                if (op === K.InstanceOfKeyword && this.isGiven(e.left) && /Error$/.test(e.right.getText())) return true;
                if (this.isGiven(e.left) && none(e.right) || this.isGiven(e.right) && none(e.left)) { if (op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken) return true; if (op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken) return false; }
            }
        }
        if (ts.isCallExpression(e) && e.arguments.length === 1 && /^isFunction/.test(e.expression.getText())) { const a = strip(e.arguments[0]); if (ts.isIdentifier(a) && A.S.has(this.sym(a))) return true; }
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.AmpersandAmpersandToken) { const l = this.truth(e.left, A), r = this.truth(e.right, A); return l === true && r === true ? true : undefined; }
        // the last of several pending pieces of work settles
        if (this.countdown(e, A)) return true;
        return undefined;
    }
    countdown(e, A) {
        let x = e;
        if (ts.isPrefixUnaryExpression(x) && x.operator === K.ExclamationToken) x = strip(x.operand);
        else if (ts.isBinaryExpression(x) && /^(1|0)$/.test(x.right.getText()) && [K.LessThanToken, K.LessThanEqualsToken, K.EqualsEqualsEqualsToken, K.EqualsEqualsToken].includes(x.operatorToken.kind)) x = strip(x.left);
        else return false;
        if (!ts.isPropertyAccessExpression(x) || x.name.text !== 'size') return false;
        const set = x.expression.getText(), fn = A.fn;
        let found = false;
        const visit = n => { if (ts.isCallExpression(n) && n.expression.getText() === `${set}.delete` && n.end < e.pos) found = true; ts.forEachChild(n, visit); };
        visit(fn);
        return found;
    }
    // "if (req.destroyed) return": whoever destroyed it has settled
    // and "if (done) return; done = true;": whoever set the flag went on to settle
    alreadyOver(e, A) {
        e = this.cond(e);
        if (ts.isIdentifier(e)) {
            const s = this.sym(e), d = s && s.valueDeclaration;
            if (!d || !ts.isVariableDeclaration(d)) return false;
            let set = 0, other = 0;
            const scope = d.getSourceFile();
            const visit = n => {
                if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(n.left) && this.sym(n.left) === s) { if (n.right.kind === K.TrueKeyword && (n.pos > e.end && n.pos >= A.fn.pos && n.end <= A.fn.end || this.flagged(n, A))) set++; else other++; }
                ts.forEachChild(n, visit);
            };
            visit(scope);
            return set > 0 && !other && (!d.initializer || d.initializer.kind === K.FalseKeyword);
        }
        return ts.isPropertyAccessExpression(e) && /^(destroyed|aborted|killed|writableEnded|readableEnded)$/.test(e.name.text);
    }
    // the flag is set by another function that settles on each of its paths
    flagged(n, A) {
        let g = n.parent;
        while (g && !ts.isFunctionLike(g)) g = g.parent;
        return !!g && !(A.fn.pos >= g.pos && A.fn.end <= g.end) && this.must(g, A.S);
    }
    kindOf(e) {
        const t = this.checker.getTypeAtLocation(e);
        const names = new Set();
        const walk = x => { if (!x || names.size > 20) return; const n = x.symbol && x.symbol.name; if (n) names.add(n); if (x.isUnion && x.isUnion()) x.types.forEach(walk); for (const b of (x.getBaseTypes && x.getBaseTypes()) || []) walk(b); };
        walk(t);
        for (const n of names) { if (LIFE[n]) return n; if (/^ChildProcess/.test(n)) return 'ChildProcess'; }
        return null;
    }
    emitterKey(e) {
        e = strip(e);
        // on() returns the emitter
        while (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && /^(on|once|addListener|prependListener)$/.test(e.expression.name.text)) e = strip(e.expression.expression);
        return { e, key: ts.isIdentifier(e) ? 'v' + this.id(this.sym(e)) : 'x' + e.getText() };
    }
    expr(e, st, A, decl) {
        e = strip(e);
        if (!e) return st;
        if (ts.isFunctionLike(e)) return st;
        if (ts.isConditionalExpression(e)) {
            st = this.expr(e.condition, st, A);
            const c = this.truth(e.condition, A);
            if (c !== undefined) return this.expr(c ? e.whenTrue : e.whenFalse, st, A);
            return this.join(this.expr(e.whenTrue, new Set(st), A), this.expr(e.whenFalse, new Set(st), A));
        }
        if (ts.isBinaryExpression(e)) {
            const op = e.operatorToken.kind;
            if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(op)) {
                st = this.expr(e.left, st, A);
                const r = this.expr(e.right, new Set(st), A);
                if (op === K.AmpersandAmpersandToken && this.truth(e.left, A) === true) return r;
                return this.join(st, r);
            }
            if (op === K.EqualsToken) {
                const l = strip(e.left);
                const r = this.expr(e.right, st, A, ts.isIdentifier(l) ? l : null);
                const out = r || st;
                // kept for whoever asked for it: deferred, abort functions
                if (this.settler(e.right, A.S)) { if (ts.isIdentifier(l) && !this.inside(l, A.fn)) out.add('settled'); else if (ts.isPropertyAccessExpression(l)) out.add('settled'); else if (ts.isIdentifier(l)) A.S.add(this.sym(l)); }
                return out;
            }
            st = this.expr(e.left, st, A);
            return this.expr(e.right, st, A);
        }
        if (ts.isCallExpression(e) || ts.isNewExpression(e)) return this.call(e, st, A, decl);
        if (ts.isAwaitExpression(e)) {
            st = this.expr(e.expression, st, A);
            // what it waits for may fail: then the rest does not run, and nobody looks at the promise of a listener or executor
            if (st && A.isAsync && !A.guarded && !this.heard) A.exits.push([new Set(st), e]);
            return st;
        }
        ts.forEachChild(e, c => { if (st && !ts.isTypeNode(c) && !ts.isFunctionLike(c)) st = ts.isExpression(c) || ts.isSpreadElement(c) ? this.expr(c, st, A) : this.inner(c, st, A); });
        return st;
    }
    inner(n, st, A) { ts.forEachChild(n, c => { if (!ts.isFunctionLike(c) && !ts.isTypeNode(c)) st = ts.isExpression(c) ? this.expr(c, st, A) : this.inner(c, st, A); }); return st; }
    inside(id, fn) { const s = this.sym(id); const d = s && s.valueDeclaration; return !!d && d.pos >= fn.pos && d.end <= fn.end; }
    call(e, st, A, decl) {
        const callee = strip(e.expression), args = e.arguments || [];
        for (const a of args) st = this.expr(ts.isSpreadElement(a) ? a.expression : a, st, A);
        if (ts.isPropertyAccessExpression(callee)) {
            const m = callee.name.text;
            // ending a line reader calls its "close" listeners at once
            if (this.early && m === 'close' && !st.has('settled') && this.kindOf(callee.expression) === 'Interface') this.early.push({ node: e, fn: A.fn, key: this.emitterKey(callee.expression).key });
            const failed = m === 'catch' ? args[0] : m === 'then' ? args[1] : null, own = strip(callee.expression);
            // work().catch(reject): the failures of an asynchronous function of this scope are looked at
            if (failed && ts.isCallExpression(own) && this.fnOf(own.expression) && this.settler(failed, A.S)) {
                const h = this.heard, b = this.busy; this.heard = true; this.busy = new Map();
                st = this.expr(own, st, A);
                this.heard = h; this.busy = b;
            } else st = this.expr(callee.expression, st, A);
            if (/^(on|once|addListener|prependListener|prependOnceListener)$/.test(m) && args.length === 2 && ts.isStringLiteralLike(args[0])) {
                const { e: em, key } = this.emitterKey(callee.expression);
                const kind = this.kindOf(em);
                this.uses.push({ node: e, emitter: em, key, kind, event: args[0].text, handler: args[1] });
                if (this.failures && /^(error|timeout)$/.test(args[0].text)) this.failures.set(args[1], { ok: this.failing(args[1], A.S), event: args[0].text, node: e });
                if (kind) {
                    A.emit.set(key, kind);
                    if (this.settler(args[1], A.S)) st.add(`${key} ${args[0].text}`);
                    if (args[0].text === 'error') { const f = this.fnOf(args[1]); if (!f || (f.parameters.length && usesParam(f))) st.add(`${key} ~error`); }
                }
                return st;
            }
            if (m === 'then' || m === 'catch' || m === 'finally') {
                const oks = m === 'then' && args[0] && this.settler(args[0], A.S), errs = m === 'then' && args[1] && this.settler(args[1], A.S), ct = m === 'catch' && args[0] && this.settler(args[0], A.S);
                if (m === 'finally' && args[0] && this.settler(args[0], A.S)) st.add('settled');
                if (oks && errs) st.add('settled');
                if (oks && !errs) st.add('then:' + (e.getStart()));
                if (ct) { const inner = strip(callee.expression); if (ts.isCallExpression(inner) && st.has('then:' + inner.getStart())) st.add('settled'); }
                if (oks && !errs) { this.halves = this.halves || []; this.halves.push({ node: e, A }); }
                return st;
            }
            if ((m === 'call' || m === 'apply') && this.settler(callee.expression, A.S)) { st.add('settled'); return st; }
            if (TIMERS.test(m)) { if (args[0] && this.settler(args[0], A.S)) st.add('settled'); return st; }
        }
        if (ts.isIdentifier(callee)) {
            const s = this.sym(callee);
            if (s && A.S.has(s)) { st.add('settled'); return st; }
            if (TIMERS.test(callee.text)) { if (args[0] && this.settler(args[0], A.S)) st.add('settled'); return st; }
        }
        // a local function: its parameters that receive a settler are settlers, and it sees those of its scope
        const f = this.fnOf(callee);
        if (f) {
            const S2 = new Set(A.S);
            args.forEach((a, i) => { const p = f.parameters[i]; if (p && ts.isIdentifier(p.name) && this.settler(a, A.S)) S2.add(this.sym(p.name)); });
            const old = this.given;
            args.forEach((a, i) => { const p = f.parameters[i]; if (p && ts.isIdentifier(p.name) && this.isGiven(a)) this.given = new Set(this.given).add(this.sym(p.name)); });
            if ((S2.size > A.S.size || this.mentions(f, A.S)) && this.must(f, S2)) st.add('settled');
            this.given = old;
            return st;
        }
        // a function from outside with a completion callback
        const given = args.filter(a => this.settler(ts.isSpreadElement(a) ? a.expression : a, A.S));
        if (given.length) {
            const kind = this.kindOf(e);
            if (kind === 'ClientRequest') {
                const target = decl && (ts.isVariableDeclaration(decl) ? decl.name : decl);
                const key = target && ts.isIdentifier(target) ? 'v' + this.id(this.sym(target)) : 'x' + e.getText();
                A.emit.set(key, kind);
                st.add(`${key} response`);
            } else if (this.interfaceMethod(callee)) {
                const { key } = this.emitterKey(callee.expression);
                A.emit.set(key, 'Interface'); // an answer may never come; only "close" always does
            } else st.add('settled');
        }
        return st;
    }
    interfaceMethod(callee) { return ts.isPropertyAccessExpression(callee) && this.kindOf(callee.expression) === 'Interface'; }
    // directly, or in a local function it refers to
    mentions(f, S, seen = new Set([f])) {
        let r = false;
        const visit = n => {
            if (r) return;
            if (ts.isIdentifier(n)) { if (S.has(this.sym(n))) { r = true; return; } const g = this.fnOf(n); if (g && !seen.has(g)) { seen.add(g); if (this.mentions(g, S, seen)) { r = true; return; } } }
            ts.forEachChild(n, visit);
        };
        visit(f.body);
        return r;
    }
}
function usesParam(f) {
    const p = f.parameters[0].name; if (!ts.isIdentifier(p)) return true;
    let r = false; const visit = n => { if (ts.isIdentifier(n) && n.text === p.text && n.parent !== f.parameters[0]) r = true; ts.forEachChild(n, visit); }; visit(f.body); return r;
}
module.exports = { Settle, LIFE };
