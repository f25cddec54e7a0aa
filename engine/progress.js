'use strict';
// Does every turn of a loop make progress? A structured dataflow analysis over one turn of the loop: the abstract state maps a
// variable (or `x.length`, `re.lastIndex`) to bounds on its value relative to values at the start of the turn.
// Verdicts: proven (some condition of the loop moves strictly towards its exit on every path back to the head), stuck (every
// condition is known not to move on some path back to the head), unknown.
const { ts } = require('./program');
const SK = ts.SyntaxKind;
const INF = Infinity;

class Rel { // value = base0 + [lo, hi] for each base; base '#' is the number zero
    constructor(m, tag) { this.m = m || new Map(); this.tag = tag || null; }
    static of(base, lo = 0, hi = lo) { return new Rel(new Map([[base, [lo, hi]]])); }
    shift(lo, hi) { const r = new Map(); for (const [b, [l, h]] of this.m) r.set(b, [l + lo, h + hi]); return new Rel(r); }
    get(b) { return this.m.get(b); }
    constant() { const c = this.m.get('#'); return c && c[0] === c[1] ? c[0] : undefined; }
}
const TOP = new Rel();

let bounds = null; // the two sides of the condition of the loop under analysis: joins keep how far their distance moved
function deltaOf(s) {
    const [a, b] = bounds;
    const x = s.vars.get(a), y = s.vars.get(b);
    const l = x ? x.get(a) : [0, 0], h = y ? y.get(b) : [0, 0];
    const d = l && h ? l[0] - h[1] : -INF;
    return s.delta !== undefined ? Math.max(d, s.delta) : d;
}
function joinRel(a, b) {
    if (a === b) return a;
    if (a.tag === 'null' || b.tag === 'null') {
        const o = a.tag === 'null' ? b : a, m = new Map();
        for (const [k, [, h]] of o.m) m.set(k, [-INF, h]);
        return new Rel(m, o.tag);
    }
    const m = new Map();
    for (const [k, [l, h]] of a.m) { const o = b.m.get(k); if (o) m.set(k, [Math.min(l, o[0]), Math.max(h, o[1])]); }
    return new Rel(m, a.tag && b.tag && a.tag === b.tag ? a.tag : null);
}
function sameRel(a, b) {
    if (a.m.size !== b.m.size) return false;
    for (const [k, [l, h]] of a.m) { const o = b.m.get(k); if (!o || o[0] !== l || o[1] !== h) return false; }
    return true;
}
class State {
    constructor(vars, facts) { this.vars = vars || new Map(); this.facts = facts || new Map(); }
    clone() { const s = new State(new Map(this.vars), new Map(this.facts)); s.delta = this.delta; s.split = this.split; return s; }
}
function join(a, b) {
    if (!a) return b;
    if (!b || a === b) return a;
    const s = new State();
    for (const k of new Set([...a.vars.keys(), ...b.vars.keys()])) {
        const x = a.vars.get(k) || Rel.of(k), y = b.vars.get(k) || Rel.of(k);
        s.vars.set(k, joinRel(x, y));
    }
    for (const [k, v] of a.facts) if (b.facts.get(k) === v) s.facts.set(k, v);
    if (bounds) s.delta = Math.min(deltaOf(a), deltaOf(b));
    return s;
}
function same(a, b) {
    if (!a || !b) return a === b;
    for (const k of new Set([...a.vars.keys(), ...b.vars.keys()]))
        if (!sameRel(a.vars.get(k) || Rel.of(k), b.vars.get(k) || Rel.of(k))) return false;
    return a.facts.size === b.facts.size;
}
function widen(a, b) {
    const s = join(a, b);
    for (const [k, r] of s.vars) {
        const o = (a.vars.get(k) || Rel.of(k));
        const m = new Map();
        for (const [bs, [l, h]] of r.m) { const p = o.m.get(bs); m.set(bs, p ? [l < p[0] ? -INF : l, h > p[1] ? INF : h] : [l, h]); }
        s.vars.set(k, new Rel(m, r.tag));
    }
    return s;
}

class Progress {
    constructor(prog, loop, { emptyMatch = null, mayMatchEmpty = () => true } = {}) {
        this.prog = prog; this.ck = prog.checker; this.loop = loop;
        this.world = emptyMatch; this.mayMatchEmpty = mayMatchEmpty;
        this.obligations = []; this.sawExec = false; this.stack = []; this.external = false;
        this.conjuncts = [];
    }
    sym(n) { const s = this.ck.getSymbolAtLocation(n); return s && (s.flags & ts.SymbolFlags.Alias ? this.ck.getAliasedSymbol(s) : s); }
    // a stable name of an assignable place: `s12`, `s12.length`
    key(n) {
        n = skip(n);
        if (ts.isIdentifier(n)) {
            let s = this.sym(n);
            if (!s) return null;
            const d = s.valueDeclaration;
            // `const n = x.length` stays a name of its own: its value is that of the time of the declaration
            return 's' + ts.getSymbolId(s);
        }
        if (n.kind === SK.ThisKeyword) return 'this';
        if (ts.isPropertyAccessExpression(n)) { const k = this.key(n.expression); return k && k + '.' + n.name.text; }
        if (ts.isElementAccessExpression(n) && ts.isStringLiteralLike(n.argumentExpression)) { const k = this.key(n.expression); return k && k + '.' + n.argumentExpression.text; }
        return null;
    }
    // constants of the program: numeric literals and `const` names bound to them
    numeric(n, d = 0) {
        n = skip(n);
        if (ts.isNumericLiteral(n)) return Number(n.text);
        if (ts.isPrefixUnaryExpression(n) && n.operator === SK.MinusToken) { const v = this.numeric(n.operand, d); return v === undefined ? v : -v; }
        if (ts.isIdentifier(n) && d < 5) {
            const s = this.sym(n), dec = s && s.valueDeclaration;
            if (dec && ts.isVariableDeclaration(dec) && dec.initializer && (dec.parent.flags & ts.NodeFlags.Const) && ts.isIdentifier(dec.name)) return this.numeric(dec.initializer, d + 1);
        }
        if (ts.isBinaryExpression(n)) {
            const a = this.numeric(n.left, d), b = this.numeric(n.right, d);
            if (a === undefined || b === undefined) return undefined;
            switch (n.operatorToken.kind) { case SK.PlusToken: return a + b; case SK.MinusToken: return a - b; case SK.AsteriskToken: return a * b; case SK.SlashToken: return a / b; }
        }
        return undefined;
    }
    read(st, k) { return st.vars.get(k) || Rel.of(k); }
    write(st, k, rel) {
        st.split = null;
        for (const other of [...st.vars.keys()]) if (other.startsWith(k + '.')) st.vars.set(other, TOP);
        // a place inside a reassigned object that is not in the map yet must not read as unchanged
        if (!k.includes('.')) st.vars.set(k + '.*', TOP);
        for (const { l, r, strict, lc, rc } of this.limits || []) {
            // the condition held at the start of the turn: what is assigned from one side also bounds the other
            if (k === l && !rel.get(l)) { const o = r ? rel.get(r) : rel.get('#'); if (o) rel = new Rel(new Map(rel.m).set(l, [o[0] - (r ? 0 : rc) + strict, INF])); }
            if (k === l && (rel.tag === 'find' || !rel.get(l) && rel.get('#'))) rel = new Rel(new Map(rel.m).set(l, [-INF, INF]));
            if (k === r && !rel.get(r)) { const o = l ? rel.get(l) : rel.get('#'); if (o) rel = new Rel(new Map(rel.m).set(r, [-INF, o[1] - (l ? 0 : lc) - strict])); }
        }
        st.vars.set(k, rel);
        if (bounds && bounds.includes(k)) st.delta = undefined;
        for (const f of [...st.facts.keys()]) if (f.split('|').slice(1).some(x => x === k || x.startsWith(k + '.'))) st.facts.delete(f);
    }
    readPath(st, k) {
        if (st.vars.has(k)) return st.vars.get(k);
        const head = k.split('.')[0];
        if (k.includes('.') && st.vars.has(head + '.*')) return TOP;
        return Rel.of(k);
    }
    // ---- expressions: returns [state, rel]; the state is updated in place -----------------------------------------
    ev(n, st) {
        n = skip(n);
        const c = this.numeric(n);
        if (c !== undefined) return Rel.of('#', c);
        switch (n.kind) {
            case SK.Identifier: return this.readPath(st, this.key(n) || '?' + n.text);
            case SK.NullKeyword: return new Rel(new Map(), 'null');
            case SK.PropertyAccessExpression: case SK.ElementAccessExpression: {
                const k = this.key(n);
                this.ev(n.expression, st);
                if (n.argumentExpression) this.ev(n.argumentExpression, st);
                if (k) return this.readPath(st, k);
                return new Rel(new Map(), this.descend(n.expression, st));
            }
            case SK.PrefixUnaryExpression: case SK.PostfixUnaryExpression: {
                if (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) {
                    const k = this.key(n.operand), d = n.operator === SK.PlusPlusToken ? 1 : -1;
                    if (!k) { this.ev(n.operand, st); return TOP; }
                    const old = this.readPath(st, k), now = old.shift(d, d);
                    this.write(st, k, now);
                    return n.kind === SK.PrefixUnaryExpression ? now : old;
                }
                if (n.operator === SK.ExclamationToken) { this.cond(n, st, true); return TOP; }
                this.ev(n.operand, st);
                return TOP;
            }
            case SK.BinaryExpression: return this.binary(n, st);
            case SK.ConditionalExpression: {
                const { t, f } = this.cond(n.condition, st);
                let rt = TOP, rf = TOP;
                if (t) rt = this.ev(n.whenTrue, t);
                if (f) rf = this.ev(n.whenFalse, f);
                const j = join(t, f);
                this.assignState(st, j);
                return t && f ? joinRel(rt, rf) : t ? rt : rf;
            }
            case SK.CallExpression: return this.call(n, st).rel;
            case SK.NewExpression: for (const a of n.arguments || []) this.ev(a, st); return TOP;
            case SK.AwaitExpression: this.ev(n.expression, st); this.external = true; return TOP;
            case SK.ArrowFunction: case SK.FunctionExpression: case SK.ClassExpression: return TOP;
            case SK.TemplateExpression: for (const s of n.templateSpans) this.ev(s.expression, st); return TOP;
            default: ts.forEachChild(n, ch => { if (isExpr(ch)) this.ev(ch, st); else if (ch.kind === SK.PropertyAssignment) this.ev(ch.initializer, st); else if (ch.kind === SK.SpreadElement || ch.kind === SK.SpreadAssignment) this.ev(ch.expression, st); }); return TOP;
        }
    }
    assignState(st, j) { if (!j || j === st) return; st.vars = j.vars; st.facts = j.facts; st.delta = j.delta; st.split = j.split; }
    descend(e, st) { const k = this.key(e); return k ? 'desc:' + k : null; }
    binary(n, st) {
        const op = n.operatorToken.kind;
        if (op === SK.EqualsToken) {
            const l = skip(n.left);
            if (ts.isArrayLiteralExpression(l) || ts.isObjectLiteralExpression(l)) { this.ev(n.right, st); for (const k of this.patternKeys(l)) this.write(st, k, TOP); return TOP; }
            const r = this.ev(n.right, st);
            const k = this.key(n.left);
            if (!k) { this.ev(n.left, st); return r; }
            this.write(st, k, r);
            const right = skip(n.right);
            const rk = this.key(right);
            if (rk) { for (const p of ['length', 'lastIndex']) { st.vars.set(k + '.' + p, this.readPath(st, rk + '.' + p)); } }
            if (right.kind === SK.NullKeyword || isUndef(right)) st.vars.set(k + '.length', new Rel(new Map(), 'null'));
            // x = x.slice(n): shorter by n
            if (ts.isCallExpression(right) && ts.isPropertyAccessExpression(right.expression) && ['slice', 'substring'].includes(right.expression.name.text) && right.arguments.length === 1) {
                const bk = this.key(right.expression.expression), a = this.numeric(right.arguments[0]);
                if (bk) { const src = bk === k ? Rel.of(k + '.length') : this.readPath(st, bk + '.length'); st.vars.set(k + '.length', a > 0 ? src.shift(-a, -a) : a === 0 ? src : this.stepped(right.arguments[0], src, -1, st)); }
            }
            return r;
        }
        if (op >= SK.FirstCompoundAssignment && op <= SK.LastCompoundAssignment) {
            if (op === SK.AmpersandAmpersandEqualsToken || op === SK.BarBarEqualsToken || op === SK.QuestionQuestionEqualsToken) {
                const b = st.clone(); const r = this.ev(n.right, b); const k = this.key(n.left); if (k) this.write(b, k, r);
                this.assignState(st, join(st.clone(), b)); return TOP;
            }
            const r = this.ev(n.right, st);
            const k = this.key(n.left);
            if (!k) { this.ev(n.left, st); return TOP; }
            const old = this.readPath(st, k);
            const base = { [SK.PlusEqualsToken]: SK.PlusToken, [SK.MinusEqualsToken]: SK.MinusToken, [SK.AsteriskEqualsToken]: SK.AsteriskToken, [SK.SlashEqualsToken]: SK.SlashToken }[op];
            const now = base === undefined ? TOP : this.arith(base, old, r, n.left, n.right, st);
            this.write(st, k, now);
            return now;
        }
        if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken || op === SK.QuestionQuestionToken) {
            const { t, f } = this.cond(n, st);
            const j = join(t, f);
            if (j) this.assignState(st, j);
            return TOP;
        }
        if (op === SK.CommaToken) { this.ev(n.left, st); return this.ev(n.right, st); }
        const a = this.ev(n.left, st), b = this.ev(n.right, st);
        if (op === SK.PlusToken || op === SK.MinusToken || op === SK.AsteriskToken || op === SK.SlashToken) {
            // midpoint of the two sides of the condition
            if (op === SK.SlashToken && this.numeric(n.right) === 2 && this.bounds) {
                const terms = []; let k = 0;
                const flat = e => { e = skip(e); if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.PlusToken) { flat(e.left); flat(e.right); } else { const c = this.numeric(e); if (c !== undefined) k += c; else terms.push(this.key(e)); } };
                flat(n.left);
                const [x, y] = this.bounds;
                if (terms.length === 2 && terms.includes(x) && terms.includes(y)) {
                    const m = new Map();
                    if (k >= 0) { m.set(x, [(k + 0) / 2 > 0 ? 0.5 : 0, INF]); m.set(y, [-INF, k > 0 ? 0.5 : -0.5]); }
                    return new Rel(m);
                }
            }
            return this.arith(op, a, b, n.left, n.right, st);
        }
        return TOP;
    }
    arith(op, a, b, ln, rn, st) {
        const ca = a.get('#'), cb = b.get('#');
        if (op === SK.PlusToken) {
            if (cb) return a.shift(cb[0], cb[1]);
            if (ca) return b.shift(ca[0], ca[1]);
            return this.stepped(rn, a, 1, st);
        }
        if (op === SK.MinusToken) { if (cb) return a.shift(-cb[1], -cb[0]); return this.stepped(rn, a, -1, st); }
        if (op === SK.AsteriskToken && cb && cb[0] === cb[1] && cb[0] > 1 && this.positiveStart(ln)) return a.shift(1, INF);
        if (op === SK.SlashToken && cb && cb[0] === cb[1] && cb[0] > 1) { const r = new Rel(new Map(), null); const k = this.key(ln); if (k) r.m.set(k, [-INF, -1]); r.tag = k ? 'shrink:' + k : null; return r; }
        return TOP;
    }
    positiveStart(n) {
        n = skip(n);
        if (!ts.isIdentifier(n)) return false;
        const s = this.sym(n), d = s && s.valueDeclaration;
        return !!(d && ts.isVariableDeclaration(d) && d.initializer && this.numeric(d.initializer) > 0);
    }
    // a step that is not a constant: lengths and counters may be zero, parameters are an obligation of their own
    stepped(stepNode, rel, dir, st) {
        const s = skip(stepNode);
        if (ts.isIdentifier(s)) {
            const sym = this.sym(s), d = sym && sym.valueDeclaration;
            if (d && ts.isParameter(d) && encloses(d.parent, this.loop)) { this.obligations.push({ node: s, param: d, dir }); return dir > 0 ? rel.shift(1, INF) : rel.shift(-INF, -1); }
            if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const) && ts.isIdentifier(d.name)) return this.stepped(d.initializer, rel, dir, st);
            return TOP;
        }
        if (ts.isConditionalExpression(s)) {
            const a = this.numeric(s.whenTrue), b = this.numeric(s.whenFalse);
            if (a !== undefined && b !== undefined) { const lo = Math.min(a, b) * dir, hi = Math.max(a, b) * dir; return rel.shift(Math.min(lo, hi), Math.max(lo, hi)); }
        }
        if (ts.isBinaryExpression(s) && [SK.BarBarToken, SK.QuestionQuestionToken].includes(s.operatorToken.kind) && this.numeric(s.right) > 0) {
            // `n || 1`: never zero
            if (s.operatorToken.kind === SK.BarBarToken && this.nonNegative(s.left)) return dir > 0 ? rel.shift(1, INF) : rel.shift(-INF, -1);
        }
        if (ts.isCallExpression(s) && s.expression.getText() === 'Math.max' && s.arguments.some(a => this.numeric(a) > 0)) return dir > 0 ? rel.shift(1, INF) : rel.shift(-INF, -1);
        if (this.nonNegative(s)) return dir > 0 ? rel.shift(0, INF) : rel.shift(-INF, 0);
        return TOP;
    }
    nonNegative(n) {
        n = skip(n);
        if (ts.isPropertyAccessExpression(n) && (n.name.text === 'length' || n.name.text === 'size' || n.name.text === 'byteLength')) return true;
        if (ts.isIdentifier(n)) {
            const s = this.sym(n), d = s && s.valueDeclaration;
            if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) return this.nonNegative(d.initializer);
            if (d && ts.isBindingElement(d)) { const nm = (d.propertyName || d.name).getText(); return nm === 'length' || nm === 'size'; }
        }
        const c = this.numeric(n);
        return c !== undefined && c >= 0 && Number.isInteger(c);
    }
    patternKeys(n) {
        const out = [];
        const walk = x => { if (ts.isIdentifier(x)) { const k = this.key(x); if (k) out.push(k); } else ts.forEachChild(x, walk); };
        walk(n);
        return out;
    }
    // ---- calls -----------------------------------------------------------------------------------------------------
    localFn(callee) {
        callee = skip(callee);
        if (callee.kind === SK.ArrowFunction || callee.kind === SK.FunctionExpression) return callee;
        if (!ts.isIdentifier(callee)) return null;
        const s = this.sym(callee);
        let d = s && s.valueDeclaration;
        if (!d || !this.prog.isRepo(d)) return null;
        if (ts.isVariableDeclaration(d) && d.initializer) d = skip(d.initializer);
        if (ts.isFunctionDeclaration(d) && !d.body && s.declarations) d = s.declarations.find(x => x.body) || d;
        return ts.isFunctionLike(d) && d.body && !d.asteriskToken ? d : null;
    }
    call(n, st) {
        st.split = null;
        const callee = skip(n.expression);
        for (const a of n.arguments) if (!isFn(skip(a))) this.ev(ts.isSpreadElement(a) ? a.expression : a, st);
        if (ts.isPropertyAccessExpression(callee)) {
            const recv = this.key(callee.expression), name = callee.name.text;
            if (!recv) this.ev(callee.expression, st);
            if (recv) {
                const lk = recv + '.length';
                if (name === 'shift' || name === 'pop') { st.vars.set(lk, this.readPath(st, lk).shift(-1, -1)); st.vars.set(recv + '.taken', this.readPath(st, recv + '.taken').shift(1, 1)); return { rel: new Rel(new Map(), 'taken:' + recv) }; }
                if (name === 'push' || name === 'unshift') {
                    const spread = n.arguments.some(ts.isSpreadElement);
                    const k = n.arguments.filter(a => !ts.isSpreadElement(a)).length;
                    st.vars.set(lk, this.readPath(st, lk).shift(k, spread ? INF : k));
                    // what was just taken is put back
                    for (const a of n.arguments) if (!isFn(skip(a)) && this.ev(ts.isSpreadElement(a) ? a.expression : a, st.clone()).tag === 'taken:' + recv) st.vars.set(recv + '.taken', this.readPath(st, recv + '.taken').shift(-1, -1));
                    return { rel: TOP };
                }
                if (name === 'splice') {
                    const del = n.arguments[1] && this.numeric(n.arguments[1]), add = Math.max(0, n.arguments.length - 2);
                    const r = this.readPath(st, lk);
                    if (del !== undefined) st.vars.set(lk, del > 0 ? r.shift(-del + add, -1 + add) : r.shift(add, add));
                    else if (n.arguments.length === 1) st.vars.set(lk, r.shift(-INF, -1));
                    else st.vars.set(lk, n.arguments[1] && n.arguments.length === 2 ? this.stepped(n.arguments[1], r, -1, st) : TOP);
                    return { rel: TOP };
                }
                if ((name === 'exec' || name === 'test') && this.isRegExp(callee.expression)) return { rel: this.exec(n, recv, callee.expression, st) };
                if ((name === 'indexOf' || name === 'search') && n.arguments.length) {
                    const from = n.arguments[1] ? this.ev(n.arguments[1], st.clone()) : Rel.of('#', 0, INF);
                    const m = new Map(); for (const [b, [l]] of from.m) m.set(b, [l, INF]);
                    return { rel: new Rel(m, 'find') };
                }
                if (['flat', 'slice', 'trim', 'trimStart', 'trimEnd', 'next', 'substring', 'concat', 'replace'].includes(name)) {
                    this.callbacks(n, st);
                    return { rel: new Rel(new Map(), 'desc:' + recv) };
                }
            }
        }
        this.callbacks(n, st);
        const fn = this.localFn(callee);
        if (fn && this.inLoopScope(fn)) return this.inline(fn, n, st);
        if (/^(Date|performance)\.now$/.test(callee.getText())) this.external = true;
        if (/^Math\.(floor|ceil|trunc|round)$/.test(callee.getText()) && n.arguments.length === 1) {
            const r = this.ev(n.arguments[0], st.clone());
            return { rel: r };
        }
        if (/^Math\.min$/.test(callee.getText())) { const m = new Map(); for (const a of n.arguments) for (const [b, [, h]] of this.ev(a, st.clone()).m) m.set(b, [-INF, Math.min(h, m.has(b) ? m.get(b)[1] : INF)]); return { rel: new Rel(m) }; }
        if (/^Math\.max$/.test(callee.getText())) { const m = new Map(); for (const a of n.arguments) for (const [b, [l]] of this.ev(a, st.clone()).m) m.set(b, [Math.max(l, m.has(b) ? m.get(b)[0] : -INF), INF]); return { rel: new Rel(m) }; }
        return { rel: TOP };
    }
    callbacks(n, st) {
        for (const a of n.arguments) {
            const fn = skip(a);
            if (!isFn(fn)) continue;
            // may run any number of times
            let cur = st.clone();
            for (let i = 0; i < 4; i++) {
                const r = this.fnBody(fn, cur.clone(), null);
                const nx = i < 2 ? join(cur, r) : widen(cur, join(cur, r) || cur);
                if (same(nx, cur)) break;
                cur = nx;
            }
            this.assignState(st, cur);
        }
    }
    fnBody(fn, st, wantCond) {
        if (this.stack.includes(fn) || this.stack.length > 5 || encloses(fn, this.loop)) {
            // a new activation has its own locals: only what it assigns outside itself can change here
            for (const [k, own] of this.assigned(fn)) if (!own) this.write(st, k, TOP);
            return wantCond ? { t: st, f: st.clone() } : st;
        }
        this.stack.push(fn);
        try {
            if (!ts.isBlock(fn.body)) {
                if (wantCond) return this.cond(fn.body, st);
                this.lastRel = this.ev(fn.body, st);
                return st;
            }
            const saved = this.returns;
            this.returns = { normal: null, t: null, f: null, wantCond };
            const r = this.block(fn.body.statements, st);
            const got = this.returns;
            this.returns = saved;
            if (wantCond) return { t: got.t, f: join(got.f, r.normal) };
            return join(got.normal, r.normal);
        } finally { this.stack.pop(); }
    }
    assigned(fn) {
        const out = new Map();
        const add = t => {
            const k = this.key(t); if (!k) return;
            let r = skip(t); while (ts.isPropertyAccessExpression(r) || ts.isElementAccessExpression(r)) r = skip(r.expression);
            const s = ts.isIdentifier(r) ? this.sym(r) : null, d = s && s.valueDeclaration;
            out.set(k, !!(d && encloses(fn, d)));
        };
        const walk = n => {
            if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) add(n.left);
            if ((n.kind === SK.PrefixUnaryExpression || n.kind === SK.PostfixUnaryExpression) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) add(n.operand);
            ts.forEachChild(n, walk);
        };
        walk(fn);
        return out;
    }
    inline(fn, n, st, wantCond) {
        if (encloses(fn, this.loop)) { const r = this.fnBody(fn, st, wantCond); return wantCond ? r : { rel: TOP }; }
        // only functions that can reach variables of this loop matter: bind parameters and walk the body
        fn.parameters.forEach((p, i) => {
            if (!ts.isIdentifier(p.name)) return;
            const k = this.key(p.name); const a = n.arguments[i];
            if (!k) return;
            const r = a && !ts.isSpreadElement(a) && !isFn(skip(a)) ? this.ev(a, st.clone()) : TOP;
            this.write(st, k, r);
            const ak = a && this.key(a);
            if (ak) for (const q of ['length', 'lastIndex']) st.vars.set(k + '.' + q, this.readPath(st, ak + '.' + q));
        });
        if (wantCond) return this.fnBody(fn, st, true);
        if (fn.modifiers && fn.modifiers.some(m => m.kind === SK.AsyncKeyword)) { /* runs up to its first await: the whole body is assumed */ }
        const r = this.fnBody(fn, st.clone(), null);
        if (r) this.assignState(st, r);
        return { rel: TOP, dead: !r };
    }
    isRegExp(e) {
        const t = this.ck.getTypeAtLocation(e);
        const s = t && t.getSymbol();
        return !!(s && s.name === 'RegExp');
    }
    exec(n, recv, re, st) {
        st.split = null;
        this.sawExec = true;
        const k = recv + '.lastIndex';
        const step = this.world === 'empty' ? [0, 0] : this.mayMatchEmpty(re) ? (this.world === 'full' ? [1, INF] : [0, INF]) : [1, INF];
        st.vars.set(k, this.readPath(st, k).shift(step[0], step[1]));
        return TOP;
    }
    // ---- conditions ------------------------------------------------------------------------------------------------
    expand(n, d = 0) {
        n = skip(n);
        if (ts.isIdentifier(n) && d < 4) {
            const s = this.sym(n), dec = s && s.valueDeclaration;
            if (dec && ts.isVariableDeclaration(dec) && dec.initializer && (dec.parent.flags & ts.NodeFlags.Const) && ts.isIdentifier(dec.name)) {
                const i = skip(dec.initializer);
                if (ts.isPropertyAccessExpression(i) || ts.isIdentifier(i) || ts.isElementAccessExpression(i)) return this.expand(i, d + 1);
            }
        }
        return n;
    }
    factKey(n, st) { // 'op|left|right'
        const norm = e => { const x = this.expand(e); const c = this.numeric(x); return c !== undefined ? String(c) : this.key(x); };
        let op = n.operatorToken.kind, l = norm(n.left), r = norm(n.right);
        if (!l || !r) return null;
        let neg = false;
        if (op === SK.GreaterThanToken) { [l, r] = [r, l]; op = SK.LessThanToken; }
        if (op === SK.GreaterThanEqualsToken) { op = SK.LessThanToken; neg = true; }
        else if (op === SK.LessThanEqualsToken) { [l, r] = [r, l]; op = SK.LessThanToken; neg = true; }
        if (op === SK.ExclamationEqualsEqualsToken || op === SK.ExclamationEqualsToken) { op = SK.EqualsEqualsEqualsToken; neg = true; }
        if (op === SK.EqualsEqualsToken) op = SK.EqualsEqualsEqualsToken;
        if (op !== SK.LessThanToken && op !== SK.EqualsEqualsEqualsToken) return null;
        return { key: `${op === SK.LessThanToken ? '<' : '='}|${l}|${r}`, neg };
    }
    emptiness(n) { // does this expression test that the match is the empty string?
        const e = x => this.expand(x);
        const isText = x => { x = e(x); return ts.isElementAccessExpression(x) && /^['"]?0['"]?$/.test(x.argumentExpression.getText()); };
        const isLen = x => { x = e(x); return ts.isPropertyAccessExpression(x) && x.name.text === 'length' && isText(x.expression); };
        n = skip(n);
        if (ts.isPrefixUnaryExpression(n) && n.operator === SK.ExclamationToken) return isText(n.operand) || isLen(n.operand);
        if (ts.isCallExpression(n) && n.arguments.length >= 1) {
            const nm = n.expression.getText();
            if (/isZero$/.test(nm)) return isLen(n.arguments[0]);
            if (/isStringEmpty$/.test(nm)) return isText(n.arguments[0]);
        }
        if (ts.isBinaryExpression(n) && [SK.EqualsEqualsEqualsToken, SK.EqualsEqualsToken].includes(n.operatorToken.kind)) {
            const [a, b] = [e(n.left), e(n.right)];
            for (const [x, y] of [[a, b], [b, a]]) {
                if (isText(x) && ts.isStringLiteralLike(y) && y.text === '') return true;
                if (isLen(x) && this.numeric(y) === 0) return true;
                if (ts.isPropertyAccessExpression(x) && x.name.text === 'index' && ts.isPropertyAccessExpression(y) && y.name.text === 'lastIndex') return true;
            }
        }
        return false;
    }
    cond(n, st) {
        n = skip(n);
        // a condition that was just put into a variable
        if (ts.isIdentifier(n) && st.split && st.split.k === this.key(n)) { const { t, f } = st.split; return { t: t && t.clone(), f: f && f.clone() }; }
        if (n.kind === SK.TrueKeyword) return { t: st, f: null };
        if (n.kind === SK.FalseKeyword) return { t: null, f: st };
        if (ts.isPrefixUnaryExpression(n) && n.operator === SK.ExclamationToken) {
            if (this.world === 'empty' && this.emptiness(n)) return { t: st, f: null };
            const { t, f } = this.cond(n.operand, st); return { t: f, f: t };
        }
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken.kind;
            if (op === SK.AmpersandAmpersandToken) {
                const a = this.cond(n.left, st);
                if (!a.t) return { t: null, f: a.f };
                const b = this.cond(n.right, a.t === a.f ? a.t.clone() : a.t);
                return { t: b.t, f: join(a.f, b.f) };
            }
            if (op === SK.BarBarToken) {
                const a = this.cond(n.left, st);
                if (!a.f) return { t: a.t, f: null };
                const b = this.cond(n.right, a.f === a.t ? a.f.clone() : a.f);
                return { t: join(a.t, b.t), f: b.f };
            }
        }
        if (this.world === 'empty') {
            if (this.emptiness(n)) return { t: st, f: null };
            const txt = n.getText();
            if (this.conjuncts.some(c => c.getText() === txt)) return { t: st, f: null };
            // a fresh match of this turn is assumed to exist in this world
        }
        if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.QuestionQuestionToken) {
            this.ev(n.left, st);
            const b = this.cond(n.right, st.clone());
            return { t: join(st.clone(), b.t), f: join(st.clone(), b.f) };
        }
        if (ts.isCallExpression(n)) {
            const fn = this.localFn(n.expression);
            if (fn && this.inLoopScope(fn)) {
                for (const a of n.arguments) if (!isFn(skip(a))) this.ev(ts.isSpreadElement(a) ? a.expression : a, st);
                const r = this.inline(fn, n, st, true);
                return { t: r.t, f: r.f === r.t && r.t ? r.f.clone() : r.f };
            }
        }
        if (ts.isBinaryExpression(n)) {
            const cmp = [SK.LessThanToken, SK.LessThanEqualsToken, SK.GreaterThanToken, SK.GreaterThanEqualsToken, SK.EqualsEqualsEqualsToken, SK.ExclamationEqualsEqualsToken, SK.EqualsEqualsToken, SK.ExclamationEqualsToken];
            if (cmp.includes(n.operatorToken.kind)) {
                const a = this.ev(n.left, st), b = this.ev(n.right, st);
                const t = st.clone(), f = st.clone();
                const fk = this.factKey(n, st);
                if (fk) {
                    const known = st.facts.get(fk.key);
                    if (known !== undefined) return (known !== fk.neg) ? { t, f: null } : { t: null, f };
                    t.facts.set(fk.key, !fk.neg); f.facts.set(fk.key, fk.neg);
                }
                this.refine(n, a, b, t, f);
                for (const [x, rel, other] of [[n.left, a, b], [n.right, b, a]]) {
                    if (rel.tag !== 'find') continue;
                    const k = this.key(skip(x).kind === SK.BinaryExpression ? skip(x).left : x), c = other.constant(), op = n.operatorToken.kind;
                    if (!k) continue;
                    const found = s => this.write(s, k, new Rel(rel.m)), lost = s => this.write(s, k, Rel.of('#', -1));
                    if (c === -1 && [SK.ExclamationEqualsEqualsToken, SK.ExclamationEqualsToken, SK.GreaterThanToken].includes(op) || c === 0 && op === SK.GreaterThanEqualsToken) { found(t); lost(f); }
                    if (c === -1 && [SK.EqualsEqualsEqualsToken, SK.EqualsEqualsToken].includes(op) || c === 0 && op === SK.LessThanToken) { lost(t); found(f); }
                }
                return { t, f };
            }
        }
        this.ev(n, st);
        return { t: st.clone(), f: st.clone() };
    }
    inLoopScope(fn) { return fn.getSourceFile() === this.loop.getSourceFile(); }
    refine(n, a, b, t, f) {
        const op = n.operatorToken.kind;
        const upd = (s, node, base, lo, hi) => {
            const k = this.key(node);
            if (!k) return;
            const r = this.readPath(s, k), o = r.get(base);
            if (!o) return;
            const m = new Map(r.m); m.set(base, [Math.max(o[0], lo), Math.min(o[1], hi)]); s.vars.set(k, new Rel(m, r.tag));
        };
        for (const [base, [al, ah]] of a.m) {
            const o = b.m.get(base); if (!o) continue;
            const [bl, bh] = o;
            const eq = s => { upd(s, n.left, base, bl, bh); upd(s, n.right, base, al, ah); };
            const ne = s => { if (al >= bh) upd(s, n.left, base, bh + 1, INF); if (ah <= bl) upd(s, n.left, base, -INF, bl - 1); if (bl >= ah) upd(s, n.right, base, ah + 1, INF); if (bh <= al) upd(s, n.right, base, -INF, al - 1); };
            const lt = s => { upd(s, n.left, base, -INF, bh - 1); upd(s, n.right, base, al + 1, INF); };
            const ge = s => { upd(s, n.left, base, bl, INF); upd(s, n.right, base, -INF, ah); };
            const gt = s => { upd(s, n.left, base, bl + 1, INF); upd(s, n.right, base, -INF, ah - 1); };
            const le = s => { upd(s, n.left, base, -INF, bh); upd(s, n.right, base, al, INF); };
            if (op === SK.EqualsEqualsEqualsToken || op === SK.EqualsEqualsToken) { eq(t); ne(f); }
            if (op === SK.ExclamationEqualsEqualsToken || op === SK.ExclamationEqualsToken) { ne(t); eq(f); }
            if (op === SK.LessThanToken) { lt(t); ge(f); }
            if (op === SK.GreaterThanEqualsToken) { ge(t); lt(f); }
            if (op === SK.GreaterThanToken) { gt(t); le(f); }
            if (op === SK.LessThanEqualsToken) { le(t); gt(f); }
        }
    }
    // ---- statements ------------------------------------------------------------------------------------------------
    block(list, st) {
        let cur = st; const out = { normal: null, brk: null, cont: null, labels: new Map() };
        for (const s of list) {
            if (!cur) break;
            const r = this.stmt(s, cur);
            cur = r.normal; merge(out, r);
        }
        out.normal = cur;
        return out;
    }
    stmt(n, st) {
        const R = (normal, brk = null, cont = null) => ({ normal, brk, cont, labels: new Map() });
        switch (n.kind) {
            case SK.Block: return this.block(n.statements, st);
            case SK.ExpressionStatement: {
                const e = skip(n.expression);
                if (ts.isCallExpression(e)) { const r = this.call(e, st); return R(r.dead ? null : st); }
                this.ev(n.expression, st); return R(st);
            }
            case SK.VariableStatement: this.decls(n.declarationList, st); return R(st);
            case SK.IfStatement: {
                const { t, f } = this.cond(n.expression, st);
                const a = t ? this.stmt(n.thenStatement, t === f ? t.clone() : t) : R(null);
                const b = f ? (n.elseStatement ? this.stmt(n.elseStatement, f) : R(f)) : R(null);
                const out = R(join(a.normal, b.normal)); merge(out, a); merge(out, b);
                return out;
            }
            case SK.ReturnStatement: {
                if (!this.returns) { if (n.expression) this.ev(n.expression, st); return R(null); }
                if (this.returns.wantCond && n.expression) {
                    const { t, f } = this.cond(n.expression, st);
                    this.returns.t = join(this.returns.t, t); this.returns.f = join(this.returns.f, f);
                } else { if (n.expression) this.ev(n.expression, st); this.returns.normal = join(this.returns.normal, st); this.returns.f = join(this.returns.f, st); }
                return R(null);
            }
            case SK.ThrowStatement: this.ev(n.expression, st); this.thrown = join(this.thrown || null, st); return R(null);
            case SK.BreakStatement: if (n.label) { const r = R(null); r.labels.set('b:' + n.label.text, st); return r; } return R(null, st);
            case SK.ContinueStatement: if (n.label) { const r = R(null); r.labels.set('c:' + n.label.text, st); return r; } return R(null, null, st);
            case SK.WhileStatement: case SK.DoStatement: case SK.ForStatement: case SK.ForOfStatement: case SK.ForInStatement: return this.inner(n, st);
            case SK.SwitchStatement: {
                this.ev(n.expression, st);
                let fall = null; const out = R(null); let hasDefault = false;
                for (const c of n.caseBlock.clauses) {
                    if (c.kind === SK.DefaultClause) hasDefault = true; else this.ev(c.expression, st);
                    const r = this.block(c.statements, join(fall, st.clone()));
                    fall = r.normal; const b = r.brk; r.brk = null; merge(out, r); out.normal = join(out.normal, b);
                }
                out.normal = join(out.normal, fall);
                if (!hasDefault) out.normal = join(out.normal, st);
                return out;
            }
            case SK.TryStatement: {
                const before = st.clone();
                const savedThrown = this.thrown; this.thrown = null;
                const a = this.block(n.tryBlock.statements, st);
                let at = join(before, a.normal); at = join(at, this.thrown); this.thrown = savedThrown;
                // anything assigned in the block may or may not have happened
                const out = R(a.normal); merge(out, a);
                if (n.catchClause) { const c = this.block(n.catchClause.block.statements, at.clone()); out.normal = join(out.normal, c.normal); merge(out, c); }
                if (n.finallyBlock) {
                    const fin = s => { if (!s) return null; const r = this.block(n.finallyBlock.statements, s.clone()); merge(out, { brk: r.brk, cont: r.cont, labels: r.labels }); return r.normal; };
                    out.normal = fin(out.normal); out.brk = fin(out.brk); out.cont = fin(out.cont);
                }
                return out;
            }
            case SK.LabeledStatement: {
                const r = this.stmt(n.statement, st);
                r.normal = join(r.normal, r.labels.get('b:' + n.label.text) || null);
                r.labels.delete('b:' + n.label.text);
                return r;
            }
            default: return R(st);
        }
    }
    decls(list, st) {
        for (const d of list.declarations) {
            if (!d.initializer) { if (ts.isIdentifier(d.name)) { const k = this.key(d.name); if (k) this.write(st, k, TOP); } continue; }
            if (isFn(skip(d.initializer))) continue;
            if (ts.isIdentifier(d.name) && this.isCondition(d.initializer)) {
                const k = this.key(d.name);
                const { t, f } = this.cond(d.initializer, st.clone());
                if (k && (t || f)) {
                    for (const x of [t, f]) if (x) this.write(x, k, TOP);
                    const T = t && t.clone(), F = f && (f === t ? f.clone() : f.clone());
                    this.assignState(st, join(t && t.clone(), f && f.clone()));
                    st.split = { k, t: T, f: F };
                    continue;
                }
            }
            const r = this.ev(d.initializer, st);
            if (ts.isIdentifier(d.name)) {
                const k = this.key(d.name);
                if (k) {
                    this.write(st, k, r);
                    const ak = this.key(d.initializer);
                    if (ak) for (const q of ['length', 'lastIndex']) st.vars.set(k + '.' + q, this.readPath(st, ak + '.' + q));
                    else { st.vars.delete(k + '.*'); }
                }
            } else for (const k of this.patternKeys(d.name)) this.write(st, k, TOP);
        }
    }
    isCondition(n) {
        n = skip(n);
        if (ts.isPrefixUnaryExpression(n)) return n.operator === SK.ExclamationToken;
        if (ts.isBinaryExpression(n)) return [SK.AmpersandAmpersandToken, SK.BarBarToken, SK.LessThanToken, SK.LessThanEqualsToken, SK.GreaterThanToken, SK.GreaterThanEqualsToken, SK.EqualsEqualsEqualsToken, SK.ExclamationEqualsEqualsToken, SK.EqualsEqualsToken, SK.ExclamationEqualsToken].includes(n.operatorToken.kind);
        if (ts.isCallExpression(n)) { const fn = this.localFn(n.expression); return !!(fn && this.inLoopScope(fn)); }
        return false;
    }
    // one full turn: condition, body, incrementor; returns the state at the next evaluation of the condition (or null)
    inner(n, st) {
        if (n.kind === SK.ForStatement && n.initializer) { if (ts.isVariableDeclarationList(n.initializer)) this.decls(n.initializer, st); else this.ev(n.initializer, st); }
        if (n.kind === SK.ForOfStatement || n.kind === SK.ForInStatement) this.ev(n.expression, st);
        let head = st.clone(), exit = null; const out = { normal: null, brk: null, cont: null, labels: new Map() };
        for (let i = 0; i < 6; i++) {
            const { back, leave, labels } = this.turn(n, head.clone());
            exit = leave;
            for (const [k, s] of labels) out.labels.set(k, join(out.labels.get(k) || null, s));
            if (!back) break;
            const nx = i < 2 ? join(head, back) : widen(head, back);
            if (same(nx, head)) break;
            head = nx;
        }
        out.normal = exit;
        return out;
    }
    turn(n, st) {
        const isOf = n.kind === SK.ForOfStatement || n.kind === SK.ForInStatement;
        let leave = null, enter = st;
        const own = n.parent && n.parent.kind === SK.LabeledStatement ? n.parent.label.text : null;
        if (n.kind === SK.WhileStatement) { const c = this.cond(n.expression, st); enter = c.t; leave = c.f; }
        else if (n.kind === SK.ForStatement && n.condition) { const c = this.cond(n.condition, st); enter = c.t; leave = c.f; }
        else if (isOf) { leave = st.clone(); if (ts.isVariableDeclarationList(n.initializer)) for (const k of this.patternKeys(n.initializer.declarations[0].name)) this.write(enter, k, TOP); }
        if (!enter) return { back: null, leave, labels: new Map() };
        if (enter === leave) enter = enter.clone();
        const r = this.stmt(n.statement, enter);
        leave = join(leave, r.brk);
        let back = join(r.normal, r.cont);
        if (own) { back = join(back, r.labels.get('c:' + own) || null); r.labels.delete('c:' + own); leave = join(leave, r.labels.get('b:' + own) || null); r.labels.delete('b:' + own); }
        if (back) {
            if (n.kind === SK.ForStatement && n.incrementor) this.ev(n.incrementor, back);
            if (n.kind === SK.DoStatement) { const c = this.cond(n.expression, back); leave = join(leave, c.f); back = c.t; }
        }
        return { back, leave, labels: r.labels };
    }
}
function merge(out, r) {
    out.brk = join(out.brk, r.brk); out.cont = join(out.cont, r.cont);
    for (const [k, s] of r.labels || []) out.labels.set(k, join(out.labels.get(k) || null, s));
}
function skip(n) { while (n && (n.kind === SK.ParenthesizedExpression || n.kind === SK.AsExpression || n.kind === SK.NonNullExpression || n.kind === SK.TypeAssertionExpression || n.kind === SK.SatisfiesExpression)) n = n.expression; return n; }
function encloses(fn, n) { for (let x = n; x; x = x.parent) if (x === fn) return true; return false; }
function isFn(n) { return n.kind === SK.ArrowFunction || n.kind === SK.FunctionExpression; }
function isUndef(n) { return ts.isIdentifier(n) && n.text === 'undefined'; }
function isExpr(n) { return ts.isExpression ? ts.isExpression(n) : true; }

function conjuncts(n, out = []) {
    n = skip(n);
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.AmpersandAmpersandToken) { conjuncts(n.left, out); conjuncts(n.right, out); } else out.push(n);
    return out;
}

// verdict on one conjunct given the state after one full turn (at the next evaluation of the condition)
function judge(P, c, back, whole) {
    c = skip(c);
    if (ts.isBinaryExpression(c)) {
        let { left, right } = c, op = c.operatorToken.kind;
        if (op === SK.BarBarToken) { const a = judge(P, left, back, whole), b = judge(P, right, back, whole); return a === 'progress' && b === 'progress' ? 'progress' : a === 'stuck' || b === 'stuck' ? 'stuck' : 'unknown'; }
        if (op === SK.GreaterThanToken || op === SK.GreaterThanEqualsToken) { [left, right] = [right, left]; op = SK.LessThanToken; }
        const move = n => { // movement of an operand during the turn, relative to its own value at the previous evaluation
            n = skip(n);
            if (P.numeric(n) !== undefined) return [0, 0];
            let x = n, k = P.key(x);
            if (!k && (ts.isPostfixUnaryExpression(x) || ts.isPrefixUnaryExpression(x)) && P.key(x.operand)) k = P.key(x.operand);
            if (!k && ts.isBinaryExpression(x) && x.operatorToken.kind === SK.EqualsToken) k = P.key(x.left);
            if (k) { const r = P.readPath(back, k); if (r.tag === 'null') return [-INF, -INF]; const m = r.get(k); if (m) return m; if (r.tag === 'shrink:' + k) return [-INF, -1]; return null; }
            if (ts.isBinaryExpression(x) && [SK.PlusToken, SK.MinusToken].includes(x.operatorToken.kind)) {
                const a = move(x.left), b = move(x.right);
                if (!a || !b) return null;
                return x.operatorToken.kind === SK.PlusToken ? [a[0] + b[0], a[1] + b[1]] : [a[0] - b[1], a[1] - b[0]];
            }
            // any other expression: unchanged when nothing it mentions changed
            let changed = false, shrink = false;
            const walk = y => { if (ts.isIdentifier(y)) { const kk = P.key(y); if (kk) { const r = P.readPath(back, kk), m = r.get(kk); if (r.tag === 'shrink:' + kk) shrink = true; else if (!m || m[0] !== 0 || m[1] !== 0) changed = true; } } else if (ts.isCallExpression(y) && !/^Math\./.test(y.expression.getText())) { changed = true; } ts.forEachChild(y, walk); };
            walk(x);
            if (changed) return null;
            if (shrink) return [-INF, -1];
            return [0, 0];
        };
        if (op === SK.LessThanToken || op === SK.LessThanEqualsToken) {
            if (/\b(Date|performance)\.now\(\)/.test(c.getText())) return 'progress';
            const a = move(left), b = move(right);
            if (a && b && a[0] - b[1] > 0) return 'progress';
            if (bounds && back.delta > 0 && [left, right].every(x => bounds.includes(P.key(x)))) return 'progress';
            if ([left, right].some(x => P.key(x) && taken(P, P.key(x).replace(/\.length$/, ''), back))) return 'unknown';
            return a && b ? 'stuck' : 'unknown';
        }
        if ([SK.EqualsEqualsEqualsToken, SK.EqualsEqualsToken].includes(op)) {
            // walking along a text: `s[i] === c`, `s.charAt(i) === c`
            for (const x of [skip(left), skip(right)]) {
                const idx = ts.isElementAccessExpression(x) ? x.argumentExpression : ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && /^(charAt|charCodeAt|codePointAt|at)$/.test(x.expression.name.text) ? x.arguments[0] : null;
                if (!idx) continue;
                const m = move(idx);
                if (m && (m[0] > 0 || m[1] < 0)) return 'progress';
                if (m) return 'stuck';
            }
        }
        if ([SK.ExclamationEqualsEqualsToken, SK.ExclamationEqualsToken].includes(op)) {
            const v = consumption(P, c, back);
            if (v) return v;
            const rx = matching(P, c, back);
            if (rx) return rx;
            const a = move(left), b = move(right);
            if (a && a[0] > 0 && P.numeric(right) === -1 || b && b[0] > 0 && P.numeric(left) === -1) return 'progress';
            if (a && a[0] > -INF && P.numeric(right) === -1 || b && b[0] > -INF && P.numeric(left) === -1) return 'stuck';
            if (!a || !b) return 'unknown';
            const lo = a[0] - b[1], hi = a[1] - b[0];
            return lo === 1 && hi === 1 || lo === -1 && hi === -1 ? 'progress' : lo === 0 && hi === 0 ? 'stuck' : 'unknown';
        }
    }
    const v = consumption(P, c, back);
    if (v) return v;
    const rx = matching(P, c, back);
    if (rx) return rx;
    if (ts.isPrefixUnaryExpression(c) && c.operator === SK.ExclamationToken) return judge2(P, c.operand, back, whole);
    return judge2(P, c, back, whole);
}
function judge2(P, c, back, whole) {
    c = skip(c);
    // truthiness of a counter
    let t = c, k = P.key(t), operand = t;
    if ((ts.isPostfixUnaryExpression(t) || ts.isPrefixUnaryExpression(t)) && P.key(t.operand)) { operand = t.operand; k = P.key(operand); }
    if (k) {
        const ty = P.ck.getTypeAtLocation(skip(operand));
        const m = P.readPath(back, k).get(k);
        if (ty.flags & ts.TypeFlags.NumberLike) {
            if (!m) return 'unknown';
            if (m[0] === -1 && m[1] === -1) return whole(operand) ? 'progress' : 'stuck';
            return 'stuck';
        }
        if (P.readPath(back, k).tag === 'desc:' + k) return 'progress';
        return m && m[0] === 0 && m[1] === 0 ? 'stuck' : 'unknown';
    }
    if (ts.isBinaryExpression(c) && c.operatorToken.kind === SK.EqualsToken) { // while ((x = f(...)))
        const r = skip(c.right);
        return ts.isCallExpression(r) || ts.isPropertyAccessExpression(r) ? 'unknown' : 'unknown';
    }
    if (ts.isCallExpression(c)) {
        // a predicate over variables: something it is given must change
        const fn = P.localFn(c.expression);
        if (fn) {
            const rets = [];
            const walk = y => { if (ts.isFunctionLike(y)) return; if (y.kind === SK.ReturnStatement && y.expression) rets.push(y.expression); ts.forEachChild(y, walk); };
            if (ts.isBlock(fn.body)) ts.forEachChild(fn.body, walk); else rets.push(fn.body);
            const vs = rets.filter(e => e.kind !== SK.TrueKeyword && e.kind !== SK.FalseKeyword).flatMap(e => conjuncts(e)).map(e => { e = skip(e); return e.kind === SK.CallExpression ? 'unknown' : judge(P, e, back, whole); });
            if (vs.includes('progress')) return 'progress';
            if (vs.length && vs.every(v => v === 'stuck') && !c.arguments.length) return 'stuck';
        }
        let moved = false, unknown = false, any = false;
        const walk = y => {
            if (ts.isIdentifier(y) && !(ts.isCallExpression(y.parent) && y.parent.expression === y) && !(ts.isPropertyAccessExpression(y.parent) && y.parent.name === y)) {
                const kk = P.key(y); if (!kk) return; any = true;
                const r = P.readPath(back, kk), m = r.get(kk), lm = P.readPath(back, kk + '.length').get(kk + '.length');
                if (r.tag && r.tag === 'desc:' + kk) moved = true;
                else if (m && (m[0] > 0 || m[1] < 0)) moved = true;
                else if (lm && lm[1] < 0) moved = true;
                else if (!m) unknown = true;
            }
            ts.forEachChild(y, walk);
        };
        walk(c);
        return moved ? 'progress' : unknown || !any ? 'unknown' : P.external ? 'unknown' : 'stuck';
    }
    return 'unknown';
}
// something is taken from the collection on every turn (and perhaps put back: a worklist)
function taken(P, k, back) { const m = P.readPath(back, k + '.taken').get(k + '.taken'); return !!m && m[0] > 0; }
function consumption(P, c, back) {
    let verdict = null;
    const walk = y => {
        if (ts.isCallExpression(y) && ts.isPropertyAccessExpression(y.expression) && ['shift', 'pop'].includes(y.expression.name.text)) {
            const k = P.key(y.expression.expression);
            const m = k && P.readPath(back, k + '.length').get(k + '.length');
            verdict = !m || m[1] >= 0 && m[0] < 0 ? 'unknown' : m[1] < 0 ? 'progress' : 'stuck';
        }
        ts.forEachChild(y, walk);
    };
    walk(c);
    if (!verdict) { // truthiness of `x.length`
        const x = skip(c);
        if (ts.isPropertyAccessExpression(x) && x.name.text === 'length') {
            const k = P.key(x), m = k && P.readPath(back, k).get(k);
            verdict = !m ? 'unknown' : m[1] < 0 ? 'progress' : taken(P, k.replace(/\.length$/, ''), back) ? 'unknown' : 'stuck';
        }
    }
    return verdict;
}
// a condition that holds while a pattern keeps matching
function matching(P, c, back) {
    let re = null;
    const find = y => { if (ts.isCallExpression(y) && ts.isPropertyAccessExpression(y.expression) && ['exec', 'test'].includes(y.expression.name.text) && P.isRegExp(y.expression.expression)) re = P.key(y.expression.expression); if (!isFn(y)) ts.forEachChild(y, find); };
    find(c);
    if (!re) {
        // `match` / `match !== null` with `match = re.exec(...)` assigned inside the loop
        const ids = [];
        const walk = y => { if (ts.isIdentifier(y)) { const k = P.key(y); if (k) ids.push(k); } ts.forEachChild(y, walk); };
        walk(c);
        const scan = y => {
            if (ts.isBinaryExpression(y) && y.operatorToken.kind === SK.EqualsToken && ids.includes(P.key(y.left))) find(y.right);
            ts.forEachChild(y, scan);
        };
        scan(P.loop);
    }
    if (!re) return null;
    const m = P.readPath(back, re + '.lastIndex').get(re + '.lastIndex');
    return !m ? 'unknown' : m[0] > 0 ? 'progress' : 'stuck';
}

/**
 * Analyses one loop. Returns {verdict, why, obligations}.
 */
function analyseLoop(prog, loop, opts = {}) {
    const cond = loop.kind === SK.ForStatement ? loop.condition : loop.kind === SK.ForOfStatement || loop.kind === SK.ForInStatement ? null : loop.expression;
    const run = world => {
        const P = new Progress(prog, loop, { emptyMatch: world, mayMatchEmpty: opts.mayMatchEmpty });
        const cs = cond ? conjuncts(cond) : [];
        P.conjuncts = cs;
        bounds = null;
        P.limits = [];
        if (loop.kind !== SK.DoStatement) for (const c of cs) {
            if (!ts.isBinaryExpression(c)) continue;
            let { left, right } = c, op = c.operatorToken.kind;
            if (op === SK.GreaterThanToken || op === SK.GreaterThanEqualsToken) { [left, right] = [right, left]; op = op === SK.GreaterThanToken ? SK.LessThanToken : SK.LessThanEqualsToken; }
            if (op !== SK.LessThanToken && op !== SK.LessThanEqualsToken) continue;
            const lc = P.numeric(left), rc = P.numeric(right);
            P.limits.push({ l: lc === undefined ? P.key(left) : null, r: rc === undefined ? P.key(right) : null, lc, rc, strict: op === SK.LessThanToken ? 1 : 0 });
        }
        for (const c of cs) if (ts.isBinaryExpression(c) && [SK.LessThanToken, SK.LessThanEqualsToken].includes(c.operatorToken.kind)) { const a = P.key(c.left), b = P.key(c.right); if (a && b) P.bounds = bounds = [a, b]; }
        const st = new State();
        const { back } = P.turn(loop, st);
        if (!back) return { verdict: 'proven', why: 'no path returns to the head', obligations: P.obligations, sawExec: P.sawExec };
        // the next evaluation of the condition belongs to the measure too: `while (x--)`, `while ((k = xs.pop()))`
        if (cond && loop.kind !== SK.DoStatement) { const c = P.cond(cond, back.clone()); if (!c.t) return { verdict: 'proven', why: 'the condition is false after one turn', obligations: P.obligations, sawExec: P.sawExec }; }
        if (loop.kind === SK.ForOfStatement || loop.kind === SK.ForInStatement) {
            const k = P.key(loop.expression);
            const m = k && P.readPath(back, k + '.length').get(k + '.length');
            return { verdict: m && m[0] > 0 ? 'stuck' : 'proven', why: m && m[0] > 0 ? `every turn adds to \`${loop.expression.getText()}\`` : 'iterates a collection', obligations: [], sawExec: false };
        }
        if (!cond || cond.kind === SK.TrueKeyword) {
            let moved = P.external;
            for (const [k, r] of back.vars) { const m = r.get(k); if (m && (m[0] > 0 || m[1] < 0)) moved = true; }
            const exits = hasExit(loop);
            return { verdict: moved && exits ? 'proven' : exits ? 'unknown' : 'stuck', why: moved ? 'a counter moves on every turn' : 'no counter moves', obligations: P.obligations, sawExec: P.sawExec };
        }
        const whole = operand => wholeNumber(P, operand, loop);
        const vs = cs.map(c => judge(P, c, back, whole));
        if (!vs.includes('progress') && hasExit(loop) && !cs.some((c, i) => vs[i] === 'stuck' && relational(c))) {
            // the loop also leaves from its body: a counter that moves on every turn can drive that exit
            for (const [k, r] of back.vars) {
                const m = r.get(k);
                if (m && (m[0] > 0 || m[1] < 0) && !k.endsWith('.taken')) return { verdict: 'proven', why: 'a counter moves on every turn and the body leaves the loop', obligations: P.obligations, sawExec: P.sawExec };
            }
        }
        const verdict = vs.includes('progress') ? 'proven' : vs.every(v => v === 'stuck') ? 'stuck' : 'unknown';
        const i = vs.indexOf('progress');
        return { verdict, why: cs.map((c, j) => `\`${c.getText().replace(/\s+/g, ' ').slice(0, 60)}\`: ${vs[j]}`).join(', '), obligations: P.obligations, sawExec: P.sawExec };
    };
    const first = run(null);
    if (first.sawExec && first.verdict !== 'proven') {
        const a = run('full'), b = run('empty');
        if (a.verdict === 'proven' && b.verdict === 'proven') return a;
        return a.verdict === 'proven' ? b : a;
    }
    return first;
}
function relational(c) { c = skip(c); return ts.isBinaryExpression(c) && c.operatorToken.kind >= SK.LessThanToken && c.operatorToken.kind <= SK.GreaterThanEqualsToken; }
function hasExit(loop) {
    let yes = false;
    const walk = (n, inLoop) => {
        if (yes || ts.isFunctionLike(n)) return;
        if (n.kind === SK.ReturnStatement || n.kind === SK.ThrowStatement) yes = true;
        if (n.kind === SK.BreakStatement && (!inLoop || n.label)) yes = true;
        const nested = n.kind === SK.WhileStatement || n.kind === SK.DoStatement || n.kind === SK.ForStatement || n.kind === SK.ForOfStatement || n.kind === SK.ForInStatement || n.kind === SK.SwitchStatement;
        ts.forEachChild(n, c => walk(c, inLoop || nested));
    };
    walk(loop.statement, false);
    return yes;
}
// is the counter a non-negative whole number when the loop starts?
function wholeNumber(P, operand, loop) {
    operand = skip(operand);
    if (!ts.isIdentifier(operand)) return false;
    const s = P.sym(operand), d = s && s.valueDeclaration;
    if (!d) return false;
    if (ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) return P.nonNegative(d.initializer) || P.numeric(d.initializer) >= 0;
    return P.nonNegative(operand);
}

module.exports = { analyseLoop };
