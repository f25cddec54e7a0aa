'use strict';
// Typestate of a wrapper that remembers: its captured variables, over constants and named results, are the state of an automaton;
// every call of the wrapper is one transition, read off the source of the function it returned. What cannot be followed is
// `Undecided` (never an alarm).
const { ts } = require('./program');
const K = ts.SyntaxKind;
class Undecided extends Error {}
const konst = v => ({ k: 'const', v }), UNK = { k: 'unknown' }, UNDEF = konst(undefined);
const strip = e => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; };

class Guard {
    constructor(prog, result) { this.prog = prog; this.checker = prog.checker; this.result = result; this.calls = 0; this.steps = 0; this.depth = 0; }
    sym(id) {
        let s = ts.isShorthandPropertyAssignment(id.parent) ? this.checker.getShorthandAssignmentValueSymbol(id.parent) : this.checker.getSymbolAtLocation(id);
        if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
        return s;
    }
    // env: {vars: Map(symbol -> {v}), up}
    look(s, env) { for (let e = env; e; e = e.up) if (e.vars.has(s)) return e.vars.get(s); return null; }
    declare(s, v, env) { env.vars.set(s, { v }); }
    // undefined: cannot tell
    truth(v) {
        if (v.k === 'const') return !!v.v;
        if (v.k === 'unknown') return undefined;
        return true;
    }
    apply(f, args) {
        if (f.k === 'cb') { this.calls++; return this.result(this.calls); }
        if (f.k !== 'fn') throw new Undecided('call');
        if (++this.depth > 20) throw new Undecided('depth');
        const env = { vars: new Map(), up: f.env }, ps = f.node.parameters.filter(p => p.name.getText() !== 'this');
        if (ts.isFunctionExpression(f.node) && f.node.name) this.declare(this.sym(f.node.name), f, env);
        ps.forEach((p, i) => {
            if (!ts.isIdentifier(p.name)) { for (const el of p.name.elements) if (ts.isBindingElement(el) && ts.isIdentifier(el.name)) this.declare(this.sym(el.name), UNK, env); return; }
            let v = p.dotDotDotToken ? UNK : i < args.length ? args[i] : UNDEF;
            if (p.initializer && v.k === 'const' && v.v === undefined) v = this.expr(p.initializer, env);
            this.declare(this.sym(p.name), v, env);
        });
        let out;
        if (!ts.isBlock(f.node.body)) out = this.expr(f.node.body, env);
        else { const r = this.block(f.node.body.statements, env); if (r && r.t === 'throw') throw new Undecided('throw'); out = r && r.t === 'return' ? r.v : UNDEF; }
        this.depth--;
        return out;
    }
    block(list, env) {
        for (const s of list) if (ts.isFunctionDeclaration(s) && s.body && s.name) this.declare(this.sym(s.name), { k: 'fn', node: s, env }, env);
        for (const s of list) { const r = this.stmt(s, env); if (r) return r; }
        return null;
    }
    stmt(s, env) {
        if (++this.steps > 5000) throw new Undecided('steps');
        if (ts.isVariableStatement(s)) {
            for (const d of s.declarationList.declarations) {
                const v = d.initializer ? this.expr(d.initializer, env) : UNDEF;
                if (ts.isIdentifier(d.name)) this.declare(this.sym(d.name), v, env);
                else for (const el of d.name.elements) if (ts.isBindingElement(el) && ts.isIdentifier(el.name)) this.declare(this.sym(el.name), UNK, env); else throw new Undecided('pattern');
            }
            return null;
        }
        if (ts.isExpressionStatement(s)) { this.expr(s.expression, env); return null; }
        if (ts.isReturnStatement(s)) return { t: 'return', v: s.expression ? this.expr(s.expression, env) : UNDEF };
        if (ts.isThrowStatement(s)) return { t: 'throw' };
        if (ts.isBlock(s)) return this.block(s.statements, { vars: new Map(), up: env });
        if (ts.isEmptyStatement(s) || ts.isFunctionDeclaration(s) || ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) return null;
        if (ts.isIfStatement(s)) {
            const c = this.truth(this.expr(s.expression, env));
            if (c === undefined) {
                // a check of the arguments: they are valid
                if (!s.elseStatement && throws(s.thenStatement)) return null;
                throw new Undecided('condition');
            }
            return c ? this.stmt(s.thenStatement, env) : s.elseStatement ? this.stmt(s.elseStatement, env) : null;
        }
        if (ts.isTryStatement(s)) {
            const r = this.stmt(s.tryBlock, env);
            const f = s.finallyBlock && this.stmt(s.finallyBlock, env);
            return f || r;
        }
        if (ts.isSwitchStatement(s)) {
            const v = this.expr(s.expression, env);
            let on = false;
            const run = from => { for (const c of s.caseBlock.clauses.slice(from)) for (const x of c.statements) { if (ts.isBreakStatement(x)) return null; const r = this.stmt(x, env); if (r) return r; } return null; };
            for (let i = 0; i < s.caseBlock.clauses.length; i++) {
                const c = s.caseBlock.clauses[i];
                if (ts.isDefaultClause(c)) continue;
                const q = this.equal(v, this.expr(c.expression, env));
                if (q === undefined) throw new Undecided('switch');
                if (q) return run(i);
            }
            const d = s.caseBlock.clauses.findIndex(ts.isDefaultClause);
            return d < 0 ? on || null : run(d);
        }
        throw new Undecided(K[s.kind]);
    }
    equal(a, b) {
        if (a === b && a.k !== 'unknown') return true;
        if (a.k === 'unknown' || b.k === 'unknown') return undefined;
        if (a.k === 'const' && b.k === 'const') return a.v === b.v;
        return false;
    }
    ref(e, env) {
        e = strip(e);
        if (ts.isIdentifier(e)) { const c = this.look(this.sym(e), env); if (!c) throw new Undecided('variable'); return { get: () => c.v, set: v => { c.v = v; } }; }
        if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
            const o = this.expr(e.expression, env);
            let k = ts.isPropertyAccessExpression(e) ? e.name.text : null;
            if (k === null) { const x = this.expr(e.argumentExpression, env); if (x.k !== 'const') throw new Undecided('key'); k = String(x.v); }
            if (o.k !== 'obj' || !o.fields) throw new Undecided('object');
            return { get: () => o.fields.get(k) || UNDEF, set: v => o.fields.set(k, v) };
        }
        throw new Undecided('target');
    }
    expr(e, env) {
        e = strip(e);
        if (++this.steps > 5000) throw new Undecided('steps');
        switch (e.kind) {
            case K.TrueKeyword: return konst(true);
            case K.FalseKeyword: return konst(false);
            case K.NullKeyword: return konst(null);
            case K.NumericLiteral: return konst(Number(e.text));
            case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return konst(e.text);
            case K.ArrowFunction: case K.FunctionExpression:
                if ((e.modifiers || []).some(m => m.kind === K.AsyncKeyword) || e.asteriskToken) throw new Undecided('async');
                return { k: 'fn', node: e, env };
        }
        if (ts.isIdentifier(e)) {
            if (e.text === 'undefined') return UNDEF;
            const s = this.sym(e), c = this.look(s, env);
            if (c) return c.v;
            for (const d of (s && s.declarations) || []) if (ts.isFunctionDeclaration(d) && d.body && this.prog.isRepo(d)) return { k: 'fn', node: d, env: null };
            else if (ts.isVariableDeclaration(d) && d.initializer && this.prog.isRepo(d) && ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) { const i = strip(d.initializer); if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return { k: 'fn', node: i, env: null }; }
            return UNK;
        }
        if (ts.isVoidExpression(e)) { this.expr(e.expression, env); return UNDEF; }
        if (ts.isTypeOfExpression(e)) { const v = this.expr(e.expression, env); return v.k === 'const' ? konst(typeof v.v) : v.k === 'cb' || v.k === 'fn' ? konst('function') : v.k === 'obj' ? konst('object') : UNK; }
        if (ts.isPrefixUnaryExpression(e) || ts.isPostfixUnaryExpression(e)) {
            if (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) {
                const r = this.ref(e.operand, env), old = r.get();
                if (old.k !== 'const') throw new Undecided('count');
                const v = konst(e.operator === K.PlusPlusToken ? old.v + 1 : old.v - 1);
                r.set(v);
                return ts.isPrefixUnaryExpression(e) ? v : old;
            }
            const v = this.expr(e.operand, env);
            if (e.operator === K.ExclamationToken) { const t = this.truth(v); return t === undefined ? UNK : konst(!t); }
            if (v.k !== 'const') return UNK;
            return e.operator === K.MinusToken ? konst(-v.v) : e.operator === K.PlusToken ? konst(+v.v) : UNK;
        }
        if (ts.isConditionalExpression(e)) {
            const c = this.truth(this.expr(e.condition, env));
            if (c === undefined) throw new Undecided('condition');
            return this.expr(c ? e.whenTrue : e.whenFalse, env);
        }
        if (ts.isBinaryExpression(e)) return this.binary(e, env);
        if (ts.isObjectLiteralExpression(e)) {
            const o = { k: 'obj', fields: new Map() };
            for (const p of e.properties) {
                if (ts.isPropertyAssignment(p) && (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name))) o.fields.set(p.name.text, this.expr(p.initializer, env));
                else if (ts.isShorthandPropertyAssignment(p)) o.fields.set(p.name.text, this.expr(p.name, env));
                else if (ts.isMethodDeclaration(p) && ts.isIdentifier(p.name)) o.fields.set(p.name.text, { k: 'fn', node: p, env });
                else throw new Undecided('literal');
            }
            return o;
        }
        if (ts.isArrayLiteralExpression(e)) { for (const x of e.elements) this.harmless(this.expr(ts.isSpreadElement(x) ? x.expression : x, env)); return UNK; }
        if (ts.isTemplateExpression(e)) { for (const x of e.templateSpans) this.expr(x.expression, env); return UNK; }
        if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
            const o = this.expr(e.expression, env);
            if (o.k === 'obj' && o.fields) return this.ref(e, env).get();
            return UNK;
        }
        if (ts.isCallExpression(e)) return this.call(e, env);
        if (ts.isNewExpression(e)) { for (const a of e.arguments || []) this.harmless(this.expr(a, env)); return { k: 'obj' }; }
        throw new Undecided(K[e.kind]);
    }
    harmless(v) { if (v.k === 'cb' || v.k === 'fn') throw new Undecided('escapes'); }
    binary(e, env) {
        const op = e.operatorToken.kind;
        if (op === K.CommaToken) { this.expr(e.left, env); return this.expr(e.right, env); }
        if (op === K.EqualsToken) { const v = this.expr(e.right, env); this.ref(e.left, env).set(v); return v; }
        const logical = { [K.AmpersandAmpersandToken]: 'and', [K.BarBarToken]: 'or', [K.QuestionQuestionToken]: 'nn', [K.AmpersandAmpersandEqualsToken]: 'and', [K.BarBarEqualsToken]: 'or', [K.QuestionQuestionEqualsToken]: 'nn' }[op];
        if (logical) {
            const set = op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken || op === K.QuestionQuestionEqualsToken;
            const l = this.expr(e.left, env);
            const stop = logical === 'nn' ? (l.k === 'unknown' ? undefined : !(l.k === 'const' && (l.v === null || l.v === undefined))) : this.truth(l) === undefined ? undefined : this.truth(l) === (logical === 'or');
            if (stop === undefined) {
                const c = this.calls, st = this.expr(e.right, env); // both unknown: fine as long as nothing happens
                if (this.calls !== c || set) throw new Undecided('logic');
                return st.k === 'unknown' ? st : UNK;
            }
            if (stop) return l;
            const v = this.expr(e.right, env);
            if (set) this.ref(e.left, env).set(v);
            return v;
        }
        const plain = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken }[op];
        const l = this.expr(e.left, env), r = this.expr(e.right, env);
        const out = this.math(plain || op, l, r);
        if (plain) this.ref(e.left, env).set(out);
        else if (op >= K.FirstAssignment && op <= K.LastAssignment) throw new Undecided('assignment');
        return out;
    }
    math(op, l, r) {
        if ([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken].includes(op)) { const q = this.equal(l, r); return q === undefined ? UNK : konst(q === (op === K.EqualsEqualsEqualsToken)); }
        if ([K.EqualsEqualsToken, K.ExclamationEqualsToken].includes(op)) {
            const n = x => x.k === 'const' && (x.v === null || x.v === undefined);
            if (l.k === 'unknown' || r.k === 'unknown') return UNK;
            const q = n(l) || n(r) ? n(l) && n(r) : l.k === 'const' && r.k === 'const' ? l.v == r.v : l === r; // eslint-disable-line eqeqeq
            return konst(q === (op === K.EqualsEqualsToken));
        }
        if (l.k !== 'const' || r.k !== 'const') return UNK;
        const a = l.v, b = r.v;
        switch (op) {
            case K.LessThanToken: return konst(a < b);
            case K.LessThanEqualsToken: return konst(a <= b);
            case K.GreaterThanToken: return konst(a > b);
            case K.GreaterThanEqualsToken: return konst(a >= b);
            case K.PlusToken: return konst(a + b);
            case K.MinusToken: return konst(a - b);
            case K.AsteriskToken: return konst(a * b);
            default: return UNK;
        }
    }
    call(e, env) {
        const c = strip(e.expression);
        const argv = () => e.arguments.map(a => (ts.isSpreadElement(a) ? (this.harmless(this.expr(a.expression, env)), UNK) : this.expr(a, env)));
        if (ts.isPropertyAccessExpression(c)) {
            const o = this.expr(c.expression, env), m = c.name.text;
            if (o.k === 'cb' || o.k === 'fn') {
                if (m === 'bind') { argv(); return o; }
                if (m === 'call') return this.apply(o, argv().slice(1));
                if (m === 'apply') { const a = argv(); if (o.k === 'fn' && o.node.parameters.length && a.length > 1) throw new Undecided('apply'); return this.apply(o, []); }
            }
            if (o.k === 'obj' && o.fields && o.fields.has(m)) return this.apply(o.fields.get(m), argv());
            if (ts.isIdentifier(c.expression) && c.expression.text === 'Reflect' && m === 'apply') { const a = argv(); if (a[0].k === 'cb') return this.apply(a[0], []); throw new Undecided('apply'); }
            for (const a of argv()) this.harmless(a);
            return UNK;
        }
        const f = this.expr(c, env), args = argv();
        if (f.k === 'cb') return this.apply(f, args);
        if (f.k === 'fn') {
            if (f.env) return this.apply(f, args);
            // a function of the library: followed when it can be, otherwise it must not get hold of anything
            const d = this.depth, n = this.calls;
            try { return this.apply(f, args); } catch (x) { if (!(x instanceof Undecided) || this.calls !== n) throw x; this.depth = d; }
            for (const a of args) if (a.k === 'fn') throw new Undecided('escapes');
            // a predicate about the caller's function
            return UNK;
        }
        for (const a of args) this.harmless(a);
        return UNK;
    }
    // the function the wrapper gives back
    make(fn, args) { return this.apply({ k: 'fn', node: fn, env: null }, args); }
}
function throws(s) { return ts.isThrowStatement(s) || ts.isBlock(s) && s.statements.some(throws); }
module.exports = { Guard, Undecided, konst };
