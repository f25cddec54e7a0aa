'use strict';
// Typestate of what the library opens: file handles, streams, readline interfaces, requests and timers. Every path through a
// function is a set of tokens ("O<i>": resource i is open, "S": the promise is settled); branches on whether a handle is there,
// exceptions, finally blocks, helpers and the settlers of a promise are followed through the source.
// Rule A: a function that waits for what it opened leaves no path, failing ones included, with it open.
// Rule B: in the executor of a promise and in the listeners it registers, no path settles the promise and leaves the resource open,
// unless the listener is for an event that ends the resource.
const { ts } = require('./program');
const { Settle } = require('./settle');
const K = ts.SyntaxKind;
const KINDS = {
    FileHandle: { release: /^close$/, ends: [] },
    Dir: { release: /^close(Sync)?$/, ends: [] },
    ReadStream: { release: /^(close|destroy)$/, ends: ['end', 'close', 'error'] },
    WriteStream: { release: /^(close|destroy|end)$/, ends: ['finish', 'close', 'error'] },
    Interface: { release: /^close$/, ends: ['close', 'error'] },
    ClientRequest: { release: /^(destroy|abort)$/, ends: ['close', 'error'] },
    Worker: { release: /^terminate$/, ends: ['exit', 'error'] },
    Socket: { release: /^(destroy|end|close)$/, ends: ['close', 'error'] },
    Server: { release: /^close$/, ends: ['close', 'error'] },
    Fd: { release: null, ends: [] },
    Timeout: { release: null, ends: [] }
};
const LISTEN = /^(on|once|addListener|prependListener|addEventListener)$/;
const strip = e => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; };
const isFn = n => ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n);
const CAP = 400;

class Release {
    constructor(prog) {
        this.prog = prog; this.ck = prog.checker; this.S = new Settle(prog);
        this.found = []; this.resources = []; this.stats = { functions: 0, executors: 0, listeners: 0, resources: 0, exits: 0 };
        this.sites = new Map(); this.depth = 0;
    }
    typeKind(n) {
        const seen = new Set();
        const look = t => {
            if (!t || seen.has(t)) return null;
            seen.add(t);
            if (t.isUnionOrIntersection && t.isUnionOrIntersection()) { for (const x of t.types) { const k = look(x); if (k) return k; } return null; }
            const s = t.symbol || t.aliasSymbol;
            const name = s && s.name;
            if (name === 'Promise' && t.typeArguments !== undefined) return look(this.ck.getTypeArguments(t)[0]);
            if (!name || !(s.declarations || []).some(d => d.getSourceFile().fileName.includes('/@types/node/') || d.getSourceFile().isDeclarationFile)) return null;
            return KINDS[name] ? name : null;
        };
        try { return look(this.ck.getTypeAtLocation(n)); } catch { return null; }
    }
    sym(n) { return this.S.sym(n); }
    // the call that opens something, when the expression is one
    opening(e) {
        e = strip(e);
        if (!e) return null;
        if (ts.isAwaitExpression(e)) return this.opening(e.expression);
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken) return this.opening(e.right);
        if (!ts.isCallExpression(e) && !ts.isNewExpression(e)) return null;
        const c = strip(e.expression);
        // open(...).catch(...) and .then(...) on the way
        if (ts.isPropertyAccessExpression(c) && /^(catch|then|finally|on|once|setEncoding|unref|ref)$/.test(c.name.text)) { const o = this.opening(c.expression); return o && { ...o, maybe: o.maybe || /^(catch|then)$/.test(c.name.text) }; }
        const kind = /(^|\.)openSync$/.test(c.getText()) ? 'Fd' : this.typeKind(e);
        if (!kind) return null;
        if (kind === 'Timeout' && !/^(setTimeout|setInterval)$/.test(ts.isPropertyAccessExpression(c) ? c.name.text : c.getText())) return null;
        // a method of the resource gives itself back
        if (ts.isPropertyAccessExpression(c) && this.typeKind(c.expression) === kind) return null;
        return { call: e, kind, maybe: false };
    }
    resource(sym, open, env) {
        let r = this.sites.get(open.call);
        if (!r) { r = { id: this.resources.length, kind: open.kind, at: open.call, syms: new Set(), name: sym ? sym.name : open.kind }; this.sites.set(open.call, r); this.resources.push(r); this.stats.resources++; }
        if (sym) r.syms.add(sym);
        return r;
    }
    byExpr(e, A) {
        e = strip(e);
        if (e && ts.isArrayLiteralExpression(e)) return [...new Set(e.elements.flatMap(x => this.byExpr(x, A)))];
        if (!e || !ts.isIdentifier(e)) return [];
        let s = this.sym(e);
        for (let i = 0; s && i < 6; i++) {
            const hit = this.resources.filter(r => r.syms.has(s));
            if (hit.length) return hit;
            if (A.env.has(s)) { const b = A.env.get(s); if (!b || b === e) return []; if (ts.isArrayLiteralExpression(strip(b))) return this.byExpr(b, A); e = b; s = ts.isIdentifier(strip(b)) ? this.sym(strip(b)) : null; continue; }
            const d = s.valueDeclaration;
            const list = d && ts.isVariableDeclaration(d) && d.parent.parent;
            if (list && ts.isForOfStatement(list)) { const l = this.arrayOf(list.expression, A); return l ? this.byExpr(l, A) : []; }
            if (d && ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const && ts.isIdentifier(strip(d.initializer))) { s = this.sym(strip(d.initializer)); continue; }
            return [];
        }
        return [];
    }
    arrayOf(e, A) {
        e = strip(e);
        if (ts.isArrayLiteralExpression(e)) return e;
        const s = ts.isIdentifier(e) && this.sym(e), b = s && A.env.get(s), d = s && s.valueDeclaration;
        if (b && b !== e) return ts.isArrayLiteralExpression(strip(b)) ? strip(b) : null;
        return d && ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const ? (ts.isArrayLiteralExpression(strip(d.initializer)) ? strip(d.initializer) : null) : null;
    }
    // ---- path sets -------------------------------------------------------------------------------------------------------
    add(st, tok) { const r = new Set(); for (const w of st) { const t = new Set(w ? w.split(' ') : []); t.add(tok); r.add([...t].sort().join(' ')); } return r; }
    del(st, tok) { const r = new Set(); for (const w of st) r.add(w.split(' ').filter(x => x && x !== tok).join(' ')); return r; }
    or(a, b) { if (!a) return b; if (!b) return a; const r = new Set(a); for (const x of b) r.add(x); if (r.size > CAP) this.over = true; return r; }
    has(w, tok) { return w.split(' ').includes(tok); }
    only(st, tok, yes) { const r = new Set(); for (const w of st) if (this.has(w, tok) === yes) r.add(w); return r.size ? r : null; }

    // walks a function body; gives the outcomes
    body(fn, st, A) {
        if (!fn.body) return { n: st };
        const o = { ret: null, thr: null };
        const save = A.out;
        A.out = o;
        let n;
        if (ts.isBlock(fn.body)) n = this.stmts(fn.body.statements, st, A);
        else { n = this.expr(fn.body, st, A); this.escape(fn.body, n, A); }
        A.out = save;
        return { n: this.or(n, o.ret), thr: o.thr };
    }
    thr(st, A) { if (st && A.out) A.out.thr = this.or(A.out.thr, st); }
    stmts(list, st, A) { for (const s of list) { if (!st) return null; st = this.stmt(s, st, A); } return st; }
    stmt(s, st, A) {
        if (!st) return null;
        if (ts.isBlock(s)) return this.stmts(s.statements, st, A);
        if (ts.isExpressionStatement(s)) return this.expr(s.expression, st, A);
        if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) st = this.decl(d, st, A); return st; }
        if (ts.isReturnStatement(s)) {
            if (s.expression && this.chained(s.expression) && A.rule === 'A') { const c = this.chain(strip(s.expression), st, A); this.thr(c.err, A); st = c.ok; if (!st) return null; }
            else if (s.expression) { st = this.expr(s.expression, st, A); st = this.escape(s.expression, st, A); }
            A.out.ret = this.or(A.out.ret, st);
            return null;
        }
        if (ts.isThrowStatement(s)) { st = this.expr(s.expression, st, A); this.thr(st, A); return null; }
        if (ts.isIfStatement(s)) {
            const c = this.cond(s.expression, st, A);
            const t = c.t && this.stmt(s.thenStatement, c.t, A);
            const f = c.f && (s.elseStatement ? this.stmt(s.elseStatement, c.f, A) : c.f);
            return this.or(t, f);
        }
        if (ts.isLabeledStatement(s)) return this.stmt(s.statement, st, A);
        if (ts.isBreakStatement(s)) { A.out.brk = this.or(A.out.brk, st); return null; }
        if (ts.isContinueStatement(s)) { A.out.con = this.or(A.out.con, st); return null; }
        if (ts.isSwitchStatement(s)) {
            st = this.expr(s.expression, st, A);
            const o = A.out, brk = o.brk;
            o.brk = null;
            let cur = null, dflt = false;
            for (const c of s.caseBlock.clauses) { if (ts.isDefaultClause(c)) dflt = true; else st = this.expr(c.expression, st, A); cur = this.stmts(c.statements, this.or(cur, st), A); }
            const out = this.or(this.or(cur, o.brk), dflt ? null : st);
            o.brk = brk;
            return out;
        }
        if (ts.isWhileStatement(s) || ts.isDoStatement(s) || ts.isForStatement(s) || ts.isForOfStatement(s) || ts.isForInStatement(s)) {
            if (ts.isForStatement(s) && s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) { for (const d of s.initializer.declarations) st = this.decl(d, st, A); } else st = this.expr(s.initializer, st, A); }
            if (ts.isForOfStatement(s) || ts.isForInStatement(s)) { st = this.expr(s.expression, st, A); if (st && s.awaitModifier) this.thr(st, A); }
            const o = A.out, brk = o.brk, con = o.con;
            let head = st, exit = null;
            const sure = ts.isForOfStatement(s) && (l => l && l.elements.length > 0 && !l.elements.some(ts.isSpreadElement))(this.arrayOf(s.expression, A));
            for (let i = 0; i < 20 && head; i++) {
                o.brk = null; o.con = null;
                let t = head, f = ts.isForOfStatement(s) || ts.isForInStatement(s) ? head : null;
                const e = ts.isForStatement(s) ? s.condition : s.expression;
                if (!ts.isDoStatement(s) && e && !ts.isForOfStatement(s) && !ts.isForInStatement(s)) { const c = this.cond(e, head, A); t = c.t; f = c.f; }
                let b = t && this.stmt(s.statement, t, A);
                b = this.or(b, o.con);
                if (ts.isForStatement(s) && s.incrementor && b) b = this.expr(s.incrementor, b, A);
                if (ts.isDoStatement(s) && b) { const c = this.cond(s.expression, b, A); b = c.t; f = c.f; }
                exit = this.or(this.or(exit, sure ? b : f), o.brk);
                if (sure) break;
                const next = this.or(head, b);
                if (next.size === head.size) break;
                head = next;
            }
            o.brk = brk; o.con = con;
            return exit;
        }
        if (ts.isTryStatement(s)) {
            const o = A.out, t = { ret: null, thr: null };
            A.out = t;
            let n = this.stmt(s.tryBlock, st, A);
            if (s.catchClause) {
                const c = t.thr;
                t.thr = null;
                if (c) n = this.or(n, this.stmt(s.catchClause.block, c, A));
            }
            A.out = o;
            const fin = x => (x && s.finallyBlock ? this.stmt(s.finallyBlock, x, A) : x);
            for (const k of ['ret', 'thr', 'brk', 'con']) if (t[k]) { const x = fin(t[k]); if (x) o[k] = this.or(o[k], x); }
            return fin(n);
        }
        return st;
    }
    decl(d, st, A) {
        if (!st || !d.initializer) return st;
        const open = this.opening(d.initializer);
        st = this.expr(d.initializer, st, A, open);
        if (open && ts.isIdentifier(d.name)) st = this.opened(this.sym(d.name), open, st, A);
        return st;
    }
    opened(sym, open, st, A) {
        if (!st) return st;
        if (A.rule === 'A' && open.kind !== 'Fd' && !A.timers) return st;
        if (A.inExecutor && A.rule === 'A' && open.kind !== 'Timeout') return st;
        const r = this.resource(sym, open);
        A.mine.add(r);
        const now = this.add(st, 'O' + r.id);
        return open.maybe ? this.or(now, this.del(st, 'O' + r.id)) : now;
    }
    // a value handed to the caller is the caller's to close
    escape(e, st, A) {
        e = strip(e);
        if (!e || !st) return st;
        const lose = x => { for (const r of this.byExpr(x, A)) st = this.del(st, 'O' + r.id); };
        if (ts.isIdentifier(e)) lose(e);
        else if (ts.isObjectLiteralExpression(e)) for (const p of e.properties) { if (ts.isShorthandPropertyAssignment(p)) { const s = this.sym(p.name); for (const r of this.resources) if (r.syms.has(s)) st = this.del(st, 'O' + r.id); } else if (ts.isPropertyAssignment(p)) st = this.escape(p.initializer, st, A); }
        else if (ts.isArrayLiteralExpression(e)) for (const x of e.elements) st = this.escape(x, st, A);
        else if (ts.isConditionalExpression(e)) { st = this.escape(e.whenTrue, st, A); st = this.escape(e.whenFalse, st, A); }
        else if (ts.isAwaitExpression(e)) st = this.escape(e.expression, st, A);
        return st;
    }
    // both outcomes of a condition, with what it says about the presence of a resource
    cond(e, st, A, d = 0) {
        e = strip(e);
        if (!st) return { t: null, f: null };
        if (e.kind === K.TrueKeyword) return { t: st, f: null };
        if (e.kind === K.FalseKeyword) return { t: null, f: st };
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) { const c = this.cond(e.operand, st, A, d); return { t: c.f, f: c.t }; }
        if (ts.isBinaryExpression(e)) {
            const op = e.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken) { const a = this.cond(e.left, st, A, d), b = this.cond(e.right, a.t, A, d); return { t: b.t, f: this.or(a.f, b.f) }; }
            if (op === K.BarBarToken) { const a = this.cond(e.left, st, A, d), b = this.cond(e.right, a.f, A, d); return { t: this.or(a.t, b.t), f: b.f }; }
            const eq = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken, ne = op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken;
            if (eq || ne) {
                const nil = x => { x = strip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === 'undefined') || ts.isVoidExpression(x); };
                const x = nil(e.right) ? e.left : nil(e.left) ? e.right : null, rs = x ? this.byExpr(x, A) : [];
                if (rs.length) { const c = this.present(rs, st); return eq ? { t: c.f, f: c.t } : c; }
            }
        }
        if (ts.isCallExpression(e) && e.arguments.length === 1 && /null|undefined|nil/i.test(e.expression.getText())) {
            const rs = this.byExpr(e.arguments[0], A);
            if (rs.length) { const c = this.present(rs, st), neg = /not|non/i.test(e.expression.getText()); return neg ? c : { t: c.f, f: c.t }; }
        }
        if (ts.isIdentifier(e)) {
            const rs = this.byExpr(e, A);
            if (rs.length) return this.present(rs, st);
            const s = this.sym(e), v = s && s.valueDeclaration;
            if (v && d < 4 && ts.isVariableDeclaration(v) && v.initializer && v.parent.flags & ts.NodeFlags.Const && /boolean|true|false/.test(this.ck.typeToString(this.ck.getTypeAtLocation(v)))) {
                const q = strip(v.initializer);
                if (ts.isBinaryExpression(q) || ts.isPrefixUnaryExpression(q) || ts.isCallExpression(q) || ts.isIdentifier(q)) { const save = A.out; A.out = { ret: null, thr: null }; const c = this.cond(q, st, A, d + 1); A.out = save; return c; }
            }
        }
        st = this.expr(e, st, A);
        return { t: st, f: st };
    }
    // an open one is there; one that was closed, or never opened, may be either
    present(rs, st) { let t = null; for (const r of rs) t = this.or(t, st); let f = st; for (const r of rs) f = f && this.only(f, 'O' + r.id, false); return { t, f }; }
    settler(e, A, d = 0) {
        e = strip(e);
        if (!e || d > 12) return false;
        if (ts.isIdentifier(e)) { const s = this.sym(e); if (s && A.settle.has(s)) return true; const b = s && A.env.get(s); return !!b && b !== e && this.settler(b, A, d + 1); }
        return false;
    }
    fnOf(e, A, d = 0) {
        e = strip(e);
        if (e && ts.isIdentifier(e) && d < 12) { const s = this.sym(e), b = s && A.env.get(s); if (b && b !== e) return this.fnOf(b, A, d + 1); }
        return this.S.fnOf(e);
    }
    inline(fn, args, st, A) {
        if (this.depth > 8 || A.stack.includes(fn)) return { n: st, thr: st };
        const env = new Map(A.env), settle = new Set(A.settle);
        fn.parameters.forEach((p, i) => { if (!ts.isIdentifier(p.name)) return; const s = this.sym(p.name); env.delete(s); settle.delete(s); if (p.dotDotDotToken) env.set(s, ts.factory.createArrayLiteralExpression(args.slice(i))); else if (args[i]) { if (this.settler(args[i], A)) settle.add(s); else env.set(s, args[i]); } });
        this.depth++;
        const B = { ...A, env, settle, stack: [...A.stack, fn] };
        const r = this.body(fn, st, B);
        this.depth--;
        return r;
    }
    expr(e, st, A, open) {
        if (!st || !e) return st;
        e = strip(e);
        if (isFn(e) || ts.isClassExpression(e)) return st;
        if (ts.isIdentifier(e) || ts.isLiteralExpression(e)) return st;
        if (ts.isBinaryExpression(e)) {
            const op = e.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) { const c = this.cond(e.left, st, A); const r = op === K.AmpersandAmpersandToken ? c.t : c.f; return this.or(op === K.AmpersandAmpersandToken ? c.f : c.t, r && this.expr(e.right, r, A)); }
            if (op === K.QuestionQuestionToken) { st = this.expr(e.left, st, A); return this.or(st, this.expr(e.right, st, A)); }
            if (op === K.EqualsToken) {
                const o = this.opening(e.right);
                st = this.expr(e.right, st, A, o);
                const l = strip(e.left);
                if (o && ts.isIdentifier(l)) return this.opened(this.sym(l), o, st, A);
                if (!ts.isIdentifier(l)) { st = this.expr(l, st, A); return this.escape(e.right, st, A); }
                // the variable holds something else from here on
                if (ts.isIdentifier(l) && (strip(e.right).kind === K.NullKeyword || strip(e.right).getText() === 'undefined')) return st;
                return st;
            }
            st = this.expr(e.left, st, A);
            return this.expr(e.right, st, A);
        }
        if (ts.isConditionalExpression(e)) { const c = this.cond(e.condition, st, A); return this.or(c.t && this.expr(e.whenTrue, c.t, A), c.f && this.expr(e.whenFalse, c.f, A)); }
        if (ts.isAwaitExpression(e) && !open && this.chained(e.expression)) { const c = this.chain(strip(e.expression), st, A); this.thr(c.err, A); return c.ok; }
        if (ts.isAwaitExpression(e)) { const was = st; st = this.expr(e.expression, st, A, open); if (st && this.fewer(was, st)) return st; if (!this.releasing(e.expression, A) && !this.quiet(e.expression)) this.thr(st, A); return st; }
        if (ts.isNewExpression(e)) {
            const n = ts.isIdentifier(e.expression) ? e.expression.text : '';
            if (n === 'Promise' && e.arguments && e.arguments[0]) {
                const f = this.fnOf(e.arguments[0], A);
                if (f && A.rule === 'A') { // what the executor sets going at once belongs to the function that waits for it
                    const r = this.inline(f, [], st, { ...A, inExecutor: true, out: null });
                    return this.or(r.n, r.thr);
                }
                return st;
            }
            for (const a of e.arguments || []) st = this.expr(a, st, A);
            return st;
        }
        if (ts.isCallExpression(e)) return this.call(e, st, A, open);
        let r = st;
        ts.forEachChild(e, c => { if (r && !ts.isTypeNode(c)) r = this.expr(c, r, A); });
        return r;
    }
    chained(e) { e = strip(e); return ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && /^(then|catch|finally)$/.test(e.expression.name.text) && !this.opening(e); }
    // what holds when the promise of a chain is fulfilled, and when it is rejected
    chain(e, st, A) {
        if (!st) return { ok: null, err: null };
        if (!this.chained(e)) { const n = this.expr(e, st, A); return { ok: n, err: this.releasing(e, A) ? null : n }; }
        const p = this.chain(strip(e.expression.expression), st, A), m = e.expression.name.text;
        const go = (h, s) => {
            if (!s) return { n: null, thr: null };
            if (!h || strip(h).kind === K.NullKeyword || strip(h).getText() === 'undefined') return null;
            const f = this.fnOf(h, A);
            if (!f) return { n: this.settler(h, A) ? this.add(s, 'S') : s, thr: s };
            const r = this.inline(f, [], s, A);
            return { n: r.n, thr: r.thr };
        };
        const [a, b] = e.arguments;
        if (m === 'finally') { const x = go(a, p.ok) || { n: p.ok }, y = go(a, p.err) || { n: p.err }; return { ok: x.n, err: this.or(this.or(y.n, y.thr || null), x.thr || null) }; }
        const x = (m === 'then' && go(a, p.ok)) || { n: p.ok, thr: null }, y = go(m === 'then' ? b : a, p.err) || { n: null, thr: p.err };
        return { ok: this.or(x.n, y.n), err: this.or(x.thr, y.thr) };
    }
    // an awaited expression whose failure was already taken care of
    quiet(e, d = 0) {
        e = this.behind(e);
        if (e && ts.isAwaitExpression(e)) e = this.behind(e.expression);
        if (!e || !ts.isCallExpression(e)) return false;
        if (ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'catch') return true;
        // a helper that does only that
        const f = d < 4 && this.S.fnOf(e.expression);
        if (!f || !f.body) return false;
        if (!ts.isBlock(f.body)) return this.quiet(f.body, d + 1);
        const [x] = f.body.statements;
        return f.body.statements.length === 1 && ts.isReturnStatement(x) && !!x.expression && this.quiet(x.expression, d + 1);
    }
    // closing something may fail too, but then there is nothing more to do about it
    fewer(a, b) { const toks = x => new Set([...x].flatMap(w => w.split(' ').filter(y => y[0] === 'O'))); const B = toks(b); return [...toks(a)].some(t => !B.has(t)); }
    // const closed = file.close(); await closed;
    behind(e) { e = strip(e); for (let i = 0; i < 4 && e && ts.isIdentifier(e); i++) { const s = this.sym(e), d = s && s.valueDeclaration; if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !(d.parent.flags & ts.NodeFlags.Const)) break; e = strip(d.initializer); } return e; }
    releasing(e, A) { e = this.behind(e); return !!e && ts.isCallExpression(e) && this.released(e, A).length > 0; }
    released(e, A) {
        const c = strip(e.expression);
        if (ts.isPropertyAccessExpression(c)) {
            if (c.name.text === 'catch' || c.name.text === 'then' || c.name.text === 'finally') { const b = strip(c.expression); return ts.isCallExpression(b) ? this.released(b, A) : []; }
            const own = this.byExpr(c.expression, A);
            if (own.length) return own.filter(r => KINDS[r.kind].release && KINDS[r.kind].release.test(c.name.text));
        }
        if (/^clear(Timeout|Interval)$/.test(c.getText()) && e.arguments[0]) return this.byExpr(e.arguments[0], A).filter(r => r.kind === 'Timeout');
        if (/(^|\.)close(Sync)?$/.test(c.getText()) && e.arguments[0]) { const rs = this.byExpr(e.arguments[0], A).filter(r => r.kind === 'Fd'); if (rs.length) return rs; }
        if (ts.isIdentifier(c) && c.text === 'destroy' && e.arguments[0]) return this.byExpr(e.arguments[0], A);
        return [];
    }
    call(e, st, A, open) {
        const c = strip(e.expression);
        // listeners are paths of their own
        if (ts.isPropertyAccessExpression(c) && LISTEN.test(c.name.text)) {
            st = this.expr(c.expression, st, A);
            const ev = e.arguments[0] && ts.isStringLiteralLike(strip(e.arguments[0])) ? strip(e.arguments[0]).text : null;
            this.listener(c.expression, ev, e.arguments[1], st, A);
            return st;
        }
        if (ts.isPropertyAccessExpression(c) && !open) st = this.expr(c.expression, st, A);
        const rel = this.released(e, A);
        const before = st;
        for (const a of e.arguments) {
            if (isFn(strip(a))) continue;
            st = this.expr(ts.isSpreadElement(a) ? a.expression : a, st, A);
            if (!st) return st;
        }
        if (rel.length) { for (const r of rel) st = this.del(st, 'O' + r.id); return st; }
        if (this.settler(c, A)) return this.add(st, 'S');
        // settlers handed on as values settle
        if (e.arguments.some(a => this.settler(a, A)) && !this.fnOf(c, A)) st = this.add(st, 'S');
        const opening = open || this.opening(e);
        // a timer that nothing can clear any more
        if (!open && opening && opening.call === e && A.rule === 'A' && opening.kind === 'Timeout' && A.timers && this.inRace(e)) st = this.opened(null, opening, st, A);
        const f = this.fnOf(c, A);
        if (f && (!opening || opening.call !== e)) {
            const isAsync = (f.modifiers || []).some(m => m.kind === K.AsyncKeyword);
            const r = this.inline(f, [...e.arguments], st, A);
            if (r.thr && !isAsync) this.thr(r.thr, A);
            return isAsync ? this.or(r.n, r.thr) : r.n;
        }
        // callbacks of array methods run at once, for every element
        if (ts.isPropertyAccessExpression(c) && /^(forEach|map|every|some|filter|flatMap|reduce)$/.test(c.name.text)) {
            const g = this.fnOf(e.arguments[0], A), l = this.arrayOf(c.expression, A);
            if (g) { const r = this.inline(g, l ? [l] : [], st, A); this.thr(r.thr, A); return l ? r.n : this.or(st, r.n); }
        }
        // functions handed to a resource or its opening are called later: paths of their own
        for (const a of e.arguments) {
            const g = this.fnOf(a, A);
            if (!g || this.settler(a, A)) continue;
            if (opening && opening.call === e || (ts.isPropertyAccessExpression(c) && this.byExpr(c.expression, A).length)) A.later.push({ fn: g, after: e, env: A.env, settle: A.settle, timer: opening && opening.kind === 'Timeout' ? opening.call : null });
            else if (/^(then|catch|finally)$/.test(ts.isPropertyAccessExpression(c) ? c.name.text : '')) A.later.push({ fn: g, after: e, env: A.env, settle: A.settle, timer: null });
        }
        if (!this.harmless(c) && !this.promised(e)) this.thr(this.or(before, st), A);
        return st;
    }
    inRace(e) { for (let n = e.parent; n && !ts.isSourceFile(n); n = n.parent) if (ts.isCallExpression(n) && /^Promise\.(race|any)$/.test(n.expression.getText())) return true; return false; }
    // a call that gives a promise fails where it is waited for
    promised(e) { try { const t = this.ck.getTypeAtLocation(e); return !!t.symbol && t.symbol.name === 'Promise'; } catch { return false; } }
    // calls of the language that do not fail for the values the types allow
    harmless(c) { return /^(Buffer\.(alloc|from)|console\.\w+|Math\.\w+|Date\.now|Boolean|Number\.is\w+|Array\.isArray)$/.test(c.getText()) || (ts.isIdentifier(c) && /^is[A-Z]/.test(c.text)); }
    listener(target, ev, h, st, A) {
        if (!h) return;
        const f = this.fnOf(h, A), direct = this.settler(h, A);
        const ended = this.ended(target, ev, A);
        if (direct) { A.later.push({ direct: h, ended, env: A.env, settle: A.settle }); return; }
        if (f) A.later.push({ fn: f, ended, env: A.env, settle: A.settle });
    }
    // opened with the request to stay open at its end
    keeps(r) { return (r.at.arguments || []).some(a => { const o = strip(a); return ts.isObjectLiteralExpression(o) && o.properties.some(p => ts.isPropertyAssignment(p) && p.name.getText() === 'autoClose' && p.initializer.kind === K.FalseKeyword); }); }
    // which resources an event ends: its own; the end of a stream that hangs on it ends it as well
    ended(target, ev, A) {
        const rs = this.byExpr(target, A);
        if (rs.length) return rs.some(r => KINDS[r.kind].ends.includes(ev) && !(this.keeps(r) && ev !== 'close')) ? 'all' : null;
        return ev === 'end' || ev === 'close' ? 'all' : null;
    }

    // ---- rules -----------------------------------------------------------------------------------------------------------
    report(rule, r, fn, at, what) { this.found.push({ rule, r, fn, at, what }); }
    run() {
        for (const sf of this.prog.sources) {
            const visit = n => {
                if (isFn(n) && n.body) this.ruleA(n);
                if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'Promise' && n.arguments && n.arguments[0]) { const f = this.S.fnOf(n.arguments[0]); if (f) this.ruleB(f); }
                ts.forEachChild(n, visit);
            };
            visit(sf);
        }
        return this.found;
    }
    waits(fn) {
        if (!(fn.modifiers || []).some(m => m.kind === K.AsyncKeyword)) return false;
        let w = false;
        const v = n => { if (w || (n !== fn && isFn(n))) return; if (ts.isAwaitExpression(n)) w = true; ts.forEachChild(n, v); };
        v(fn.body);
        return w;
    }
    ruleA(fn) {
        this.stats.functions++;
        const A = { rule: 'A', env: new Map(), settle: new Set(), later: [], mine: new Set(), stack: [fn], out: null, timers: this.waits(fn), inExecutor: false };
        // an executor's own resources are judged by rule B
        if (this.isExecutor(fn)) return;
        const r = this.body(fn, new Set(['']), A);
        for (const [how, set] of [['returns', r.n], ['fails', r.thr]]) for (const w of set || []) {
            this.stats.exits++;
            for (const x of A.mine) if (this.has(w, 'O' + x.id) && this.owned(x, fn)) this.report('A', x, fn, x.at, `a path that ${how} leaves ${this.name(x)} open`);
        }
    }
    // the resource is opened by this function itself (or by the executor of a promise it makes), not by a helper that hands it on
    owned(x, fn) {
        for (let n = x.at.parent; n; n = n.parent) {
            if (n === fn) return true;
            if (isFn(n) && !(x.kind === 'Timeout' && this.isExecutor(n))) return false;
        }
        return false;
    }
    isExecutor(fn) { let p = fn.parent; while (p && ts.isParenthesizedExpression(p)) p = p.parent; return !!p && ts.isNewExpression(p) && p.expression.getText() === 'Promise'; }
    name(x) { return `${x.name} (${x.kind})`; }
    ruleB(ex) {
        this.stats.executors++;
        const settle = new Set();
        for (const p of ex.parameters) if (ts.isIdentifier(p.name)) settle.add(this.sym(p.name));
        const A = { rule: 'B', env: new Map(), settle, later: [], mine: new Set(), stack: [ex], out: null, timers: true, inExecutor: true };
        const r = this.body(ex, new Set(['']), A);
        for (const w of this.or(r.n, r.thr) || []) { this.stats.exits++; if (this.has(w, 'S')) for (const x of A.mine) if (x.kind !== 'Timeout' && this.has(w, 'O' + x.id)) this.report('B', x, ex, x.at, `settles its promise and leaves ${this.name(x)} open`); }
        const seen = new Set();
        for (let i = 0; i < A.later.length && i < 200; i++) {
            const l = A.later[i];
            const key = (l.fn || l.direct).pos + ':' + (l.fn || l.direct).getSourceFile().fileName;
            this.stats.listeners++;
            const mine = [...A.mine].filter(x => l.ended !== 'all' && x.at !== l.timer && x.kind !== 'Timeout');
            if (!mine.length && seen.has(key)) continue;
            seen.add(key);
            if (l.direct) { for (const x of mine) this.report('B', x, ex, l.direct, `a listener settles the promise and leaves ${this.name(x)} open`); continue; }
            const B = { ...A, env: l.env, settle: l.settle, stack: [l.fn], out: null };
            const st = new Set([mine.map(x => 'O' + x.id).sort().join(' ')]);
            const q = this.body(l.fn, st, B);
            for (const w of this.or(q.n, q.thr) || []) { this.stats.exits++; if (this.has(w, 'S')) for (const x of mine) if (this.has(w, 'O' + x.id)) this.report('B', x, ex, l.fn, `a path of this listener settles the promise and leaves ${this.name(x)} open`); }
        }
    }
}
module.exports = { Release, KINDS };
