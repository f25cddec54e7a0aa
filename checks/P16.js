'use strict';
// P16: any text can be a key: objects built from data keep every key, tables only find what was put in.
const { run, ts } = require('./lib');
const { eachEntry } = require('./facts');
const V = require('../engine/values');
const K = ts.SyntaxKind;

const strip = e => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; return e; };
// what every ordinary object has without anybody having put it there
const INHERITED = ['__proto__', 'constructor', 'hasOwnProperty', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', 'toString', 'valueOf', '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__'];

run('P16', ctx => {
    const { prog } = ctx, { checker } = prog;
    const symOf = e => { let s = ts.isShorthandPropertyAssignment(e.parent) ? checker.getShorthandAssignmentValueSymbol(e.parent) : checker.getSymbolAtLocation(e); return s; };
    const declOf = e => { const s = ts.isIdentifier(e) && symOf(e); return s && s.valueDeclaration; };
    // the same variable, property or constant
    const same = (a, b) => {
        a = strip(a); b = strip(b);
        if (!a || !b || a.kind !== b.kind) return false;
        if (ts.isIdentifier(a)) return symOf(a) === symOf(b);
        if (ts.isPropertyAccessExpression(a)) return a.name.text === b.name.text && same(a.expression, b.expression);
        if (ts.isElementAccessExpression(a)) return same(a.expression, b.expression) && same(a.argumentExpression, b.argumentExpression);
        if (ts.isCallExpression(a)) return a.getText() === b.getText();
        return a.getText() === b.getText();
    };
    const cond = e => { e = strip(e); for (let i = 0; i < 5 && ts.isIdentifier(e); i++) { const d = declOf(e); if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) break; e = strip(d.initializer); } return e; };
    // one character: no inherited name is that short
    const oneChar = (e, d = 0) => {
        e = strip(e);
        if (d > 5) return false;
        if (ts.isStringLiteralLike(e)) return e.text.length < 4;
        if (ts.isElementAccessExpression(e)) { const t = checker.getTypeAtLocation(e.expression); return !!(t.flags & ts.TypeFlags.StringLike) || checker.typeToString(t) === 'string'; }
        if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'charAt') return true;
        if (ts.isBinaryExpression(e) && [K.QuestionQuestionToken, K.BarBarToken].includes(e.operatorToken.kind)) return oneChar(e.left, d + 1) && oneChar(e.right, d + 1);
        if (ts.isIdentifier(e)) {
            const s = symOf(e), decl = declOf(e);
            if (!decl || !ts.isVariableDeclaration(decl)) return decl && ts.isParameter(decl) && paramSources(decl).length > 0 && paramSources(decl).every(x => oneChar(x, d + 1));
            if (ts.isVariableDeclarationList(decl.parent) && ts.isForOfStatement(decl.parent.parent)) { const t = checker.getTypeAtLocation(decl.parent.parent.expression); return !!(t.flags & ts.TypeFlags.StringLike); }
            const src = decl.initializer ? [decl.initializer] : [];
            const scan = n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(n.left) && symOf(n.left) === s) src.push(n.right); ts.forEachChild(n, scan); };
            scan(decl.getSourceFile());
            return src.length > 0 && src.every(x => oneChar(x, d + 1));
        }
        return false;
    };
    // the arguments a local function receives for a parameter
    function paramSources(p) {
        const f = p.parent, i = f.parameters.indexOf(p), out = [];
        const name = ts.isVariableDeclaration(f.parent) ? f.parent.name : f.name;
        if (!name) return out;
        const s = checker.getSymbolAtLocation(name);
        const scan = n => { if (ts.isIdentifier(n) && n !== name && symOf(n) === s) { if (ts.isCallExpression(n.parent) && n.parent.expression === n && n.parent.arguments[i]) out.push(n.parent.arguments[i]); else out.push(null); } ts.forEachChild(n, scan); };
        scan(f.getSourceFile());
        return out.includes(null) ? [] : out;
    }
    // documented names only
    const literalType = e => { const t = checker.getTypeAtLocation(strip(e)); const ts2 = t.isUnion() ? t.types : [t]; return ts2.every(x => x.flags & (ts.TypeFlags.StringLiteral | ts.TypeFlags.NumberLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.ESSymbolLike | ts.TypeFlags.BooleanLike)); };
    // text.replace(/pattern/, m => table[m]) with a pattern that matches no inherited name
    const matched = e => {
        e = strip(e);
        const d = declOf(e);
        if (!d || !ts.isParameter(d)) return false;
        const f = d.parent, c = f.parent;
        if (!ts.isCallExpression(c) || c.arguments[1] !== f || !/^replace(All)?$/.test(c.expression.name ? c.expression.name.text : '')) return false;
        const r = cond(c.arguments[0]);
        // a pattern made from the library's own tables
        if (ts.isNewExpression(r) && r.expression.getText() === 'RegExp') { let own = true; const v = x => { if (ts.isIdentifier(x) && !ts.isPropertyAccessExpression(x.parent)) { const y = declOf(x); let s = y; while (s && !ts.isFunctionLike(s) && !ts.isSourceFile(s)) s = s.parent; if (y && s && !(s.pos >= r.pos && s.end <= r.end) && ts.isFunctionLike(s)) own = false; } ts.forEachChild(x, v); }; (r.arguments || []).forEach(v); return own; }
        if (f.parameters[0] !== d || !ts.isRegularExpressionLiteral(r)) return false;
        const m = /^\/(.*)\/(\w*)$/s.exec(r.text);
        const re = new RegExp(`^(?:${m[1]})$`, m[2].replace(/[gy]/g, ''));
        return !INHERITED.some(n => re.test(n));
    };
    // ---- own(t, k): the table itself holds the key --------------------------------------------------------------------
    const own = (c, t, k) => {
        if (!ts.isCallExpression(c)) return false;
        const f = strip(c.expression), a = c.arguments;
        const name = ts.isIdentifier(f) ? f.text : ts.isPropertyAccessExpression(f) ? f.name.text : '';
        if (/^(hasOwnProperty|hasOwn|isOwnProperty)$/.test(name)) {
            if (a.length === 2) return same(a[0], t) && same(a[1], k);
            if (a.length === 1 && ts.isPropertyAccessExpression(f)) return same(f.expression, t) && same(a[0], k);
        }
        if (name === 'call' && ts.isPropertyAccessExpression(f) && /hasOwnProperty$/.test(f.expression.getText()) && a.length === 2) return same(a[0], t) && same(a[1], k);
        if (name === 'includes' && a.length === 1 && ts.isPropertyAccessExpression(f)) { const o = cond(f.expression); return ts.isCallExpression(o) && /^(Object|Reflect)\.(keys|ownKeys|getOwnPropertyNames)$/.test(o.expression.getText()) && same(o.arguments[0], t) && same(a[0], k); }
        return false;
    };
    // does the condition, being true (or false), imply it?
    const implies = (e, yes, t, k) => {
        e = cond(e);
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return implies(e.operand, !yes, t, k);
        if (ts.isBinaryExpression(e)) {
            const op = e.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken) return yes ? implies(e.left, true, t, k) || implies(e.right, true, t, k) : implies(e.left, false, t, k) && implies(e.right, false, t, k);
            if (op === K.BarBarToken) return yes ? implies(e.left, true, t, k) && implies(e.right, true, t, k) : implies(e.left, false, t, k) || implies(e.right, false, t, k);
        }
        if (ts.isCallExpression(e) && /^is(True|Truthy)$/.test(e.expression.getText()) && e.arguments.length === 1) return yes && implies(e.arguments[0], true, t, k);
        if (ts.isCallExpression(e) && /^is(False|Falsy)$/.test(e.expression.getText()) && e.arguments.length === 1) return implies(e.arguments[0], !yes, t, k);
        if (yes && own(e, t, k)) return true;
        // a small function that only tests
        if (ts.isCallExpression(e) && ts.isIdentifier(e.expression) && depth < 3) {
            let f = declOf(e.expression);
            if (f && ts.isVariableDeclaration(f)) f = f.initializer && strip(f.initializer);
            if (!f || !ts.isFunctionLike(f) || !f.body) return false;
            const body = !ts.isBlock(f.body) ? f.body : f.body.statements.length === 1 && ts.isReturnStatement(f.body.statements[0]) ? f.body.statements[0].expression : null;
            if (!body) return false;
            const inner = x => { const i = e.arguments.findIndex(a => same(a, x)); return i >= 0 && f.parameters[i] ? f.parameters[i].name : x; };
            depth++;
            const r = implies(body, yes, inner(t), inner(k));
            depth--;
            return r;
        }
        return false;
    };
    let depth = 0;
    const leaves = s => ts.isReturnStatement(s) || ts.isThrowStatement(s) || ts.isContinueStatement(s) || ts.isBreakStatement(s) || ts.isBlock(s) && s.statements.some(leaves);
    const writes = (s, t, k) => {
        if (ts.isBlock(s)) return s.statements.some(x => writes(x, t, k));
        if (ts.isExpressionStatement(s)) { let e = strip(s.expression); return ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken && ts.isElementAccessExpression(strip(e.left)) && same(strip(e.left).expression, t) && same(strip(e.left).argumentExpression, k); }
        if (ts.isIfStatement(s)) return ensures(s, t, k);
        return false;
    };
    // after the statement the table holds the key
    function ensures(s, t, k) {
        if (ts.isExpressionStatement(s)) {
            const e = strip(s.expression);
            if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.BarBarToken && implies(e.left, true, t, k) && assign(e.right, t, k)) return true;
            if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.AmpersandAmpersandToken && implies(e.left, false, t, k) && assign(e.right, t, k)) return true;
            return writes(s, t, k);
        }
        if (!ts.isIfStatement(s)) return false;
        const th = leaves(s.thenStatement) || writes(s.thenStatement, t, k) || implies(s.expression, true, t, k);
        const el = s.elseStatement ? leaves(s.elseStatement) || writes(s.elseStatement, t, k) || implies(s.expression, false, t, k) : implies(s.expression, false, t, k);
        return th && el;
    }
    const assign = (e, t, k) => { e = strip(e); return ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken && ts.isElementAccessExpression(strip(e.left)) && same(strip(e.left).expression, t) && same(strip(e.left).argumentExpression, k); };
    const guarded = (n, t, k) => {
        for (let c = n, p = n.parent; p; c = p, p = p.parent) {
            if (ts.isIfStatement(p) && p.thenStatement === c && implies(p.expression, true, t, k)) return true;
            if (ts.isIfStatement(p) && p.elseStatement === c && implies(p.expression, false, t, k)) return true;
            if (ts.isConditionalExpression(p) && p.whenTrue === c && implies(p.condition, true, t, k)) return true;
            if (ts.isConditionalExpression(p) && p.whenFalse === c && implies(p.condition, false, t, k)) return true;
            if (ts.isBinaryExpression(p) && p.right === c && p.operatorToken.kind === K.AmpersandAmpersandToken && implies(p.left, true, t, k)) return true;
            if (ts.isBinaryExpression(p) && p.right === c && p.operatorToken.kind === K.BarBarToken && implies(p.left, false, t, k)) return true;
            if (ts.isBlock(p) || ts.isSourceFile(p) || ts.isCaseClause(p)) for (const q of p.statements) { if (q === c) break; if (ensures(q, t, k)) return true; }
            if (ts.isWhileStatement(p) && p.statement === c && implies(p.expression, true, t, k)) return true;
            if (ts.isFunctionLike(p) && !ts.isArrowFunction(p)) return false;
        }
        return false;
    };
    // does the condition, being true (or false), mean that the key has no descriptor?
    const described = (e, yes, k) => {
        e = cond(e);
        if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return described(e.operand, !yes, k);
        if (ts.isCallExpression(e) && /^is(Undefined|NullOrUndefined|False|Falsy)$/.test(e.expression.getText()) && e.arguments.length === 1) return described(e.arguments[0], !yes, k);
        if (ts.isBinaryExpression(e) && /^(undefined|null)$/.test(e.right.getText()) && [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(e.operatorToken.kind)) return described(e.left, [K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(e.operatorToken.kind) === yes, k);
        return !yes && ts.isCallExpression(e) && /^(Object|Reflect)\.getOwnPropertyDescriptor$/.test(e.expression.getText()) && same(e.arguments[1], k);
    };
    // the key has been compared with the one name that cannot be assigned
    const excluded = (n, k, names) => {
        for (let c = n, p = n.parent; p && !ts.isFunctionLike(p); c = p, p = p.parent) {
            // a key the source owns has a descriptor
            if (ts.isIfStatement(p) && p.expression !== c && described(p.expression, p.thenStatement === c, k)) names.clear();
            if (ts.isBlock(p)) for (const q of p.statements) { if (q === c) break; if (ts.isIfStatement(q) && leaves(q.thenStatement) && described(q.expression, false, k)) names.clear(); }
            if (ts.isDefaultClause(p) && same(p.parent.parent.expression, k)) { for (const x of p.parent.clauses) if (ts.isCaseClause(x) && ts.isStringLiteralLike(x.expression)) names.delete(x.expression.text); }
            if (ts.isCaseClause(p) && same(p.parent.parent.expression, k)) for (const x of [...names]) if (!(ts.isStringLiteralLike(p.expression) && p.expression.text === x)) names.delete(x);
            const neq = (e, yes) => {
                e = cond(e);
                if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return neq(e.operand, !yes);
                if (!ts.isBinaryExpression(e)) return;
                const op = e.operatorToken.kind;
                if (op === (yes ? K.AmpersandAmpersandToken : K.BarBarToken)) { neq(e.left, yes); neq(e.right, yes); }
                const is = [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken].includes(op), not = [K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(op);
                if (is !== !yes && not !== yes) return;
                for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) if (same(a, k) && ts.isStringLiteralLike(strip(b))) names.delete(strip(b).text);
            };
            if (ts.isIfStatement(p) && p.thenStatement === c) neq(p.expression, true);
            if (ts.isIfStatement(p) && p.elseStatement === c) neq(p.expression, false);
            if (ts.isConditionalExpression(p)) neq(p.condition, p.whenTrue === c);
            if (ts.isBlock(p)) for (const q of p.statements) { if (q === c) break; if (ts.isIfStatement(q) && !q.elseStatement && leaves(q.thenStatement)) neq(q.expression, false); }
        }
        return names;
    };
    const data = l => [...l].some(x => /^[PRCXK]/.test(x));
    const text = key => (key.p & V.STR) && !V.consts(key);
    const plain = o => o.kind === 'alloc' && o.cls === 'Object' && !o.nullProto;
    const where = n => prog.rel(n.getSourceFile().fileName).replace('packages/', '').replace('/src', '').replace(/\.ts$/, '');
    const short = e => e.getText().replace(/\s+/g, ' ').slice(0, 40);
    const sites = new Set(), reads = new Set();
    const write = (I, target, recv, key) => {
        if (!key || !text(key)) return;
        const call = ts.isCallExpression(target);
        const kx = call ? target.arguments[1] : target.argumentExpression, tx = call ? target.arguments[0] : target.expression;
        if (!data(key.l) || oneChar(kx)) return;
        for (const o of recv.o) {
            if (o.kind !== 'alloc' || o.cls !== 'Object') continue;
            sites.add(target);
            // fields of the library's own in the same object
            const mine = new Set([...o.fields.keys()].filter(k => typeof k === 'string' && o.initKeys && o.initKeys.has(k)));
            for (const k of excluded(target, kx, mine)) ctx.violation({ key: `override:${where(target)}:${short(kx)}`, msg: `a key taken from the data (${short(kx)}) can overwrite the result's own field "${k}"`, at: ctx.pos(target) });
            if (o.nullProto || call) { ctx.count('safe_writes'); continue; }
            if (excluded(target, kx, new Set(['__proto__'])).size === 0) { ctx.count('safe_writes'); continue; }
            ctx.violation({ key: `write:${where(target)}:${short(kx)}`, msg: `a key taken from the data (${short(kx)}) is assigned in an ordinary object: "__proto__" is lost and changes what the object inherits`, at: ctx.pos(target) });
        }
    };
    eachEntry(ctx, () => {}, {
        onDynWrite: (I, target, recv, key) => write(I, target, recv, key),
        onAccess: (I, e, recv, st) => {
            if (!e.argumentExpression) return;
            const key = I.ev(e.argumentExpression, st);
            if (!text(key) || !data(key.l)) return;
            // a key of one of the caller's objects, looked up in another
            const root = x => x.replace(/^(\w+:\w+).*$/s, '$1');
            const from = new Set([...key.l].filter(x => /~key/.test(x)).map(root));
            if (from.size && from.size === new Set([...key.l].map(root)).size) {
                const other = [...recv.o].filter(o => o.kind !== 'alloc').flatMap(o => [...I.labelsDeep(V.obj(o))].map(root));
                if (other.length && other.every(x => /^P:/.test(x) && !from.has(x))) {
                    ctx.count('cross_reads');
                    if (!guarded(e, e.expression, e.argumentExpression)) ctx.violation({ key: `cross:${where(e)}:${short(e)}`, msg: `${short(e)} looks up a key of another object: what this one only inherits counts as present`, at: ctx.pos(e) });
                    return;
                }
            }
            const objs = [...recv.o].filter(o => o.kind === 'alloc' && o.cls === 'Object');
            if (!objs.length) return;
            reads.add(e);
            if (!objs.some(plain)) { ctx.count('safe_reads'); return; }
            // the place written to
            if (ts.isBinaryExpression(e.parent) && e.parent.left === e && e.parent.operatorToken.kind === K.EqualsToken) return;
            const kx = e.argumentExpression;
            if (oneChar(kx) || literalType(kx) || matched(kx) || guarded(e, e.expression, kx)) { ctx.count('safe_reads'); return; }
            // the object was made from the same keys: reading back a key of a copy
            if ([...key.l].every(x => /~key$/.test(x))) { ctx.count('safe_reads'); return; }
            ctx.violation({ key: `read:${where(e)}:${short(e)}`, msg: `${short(e)} looks up a key taken from the data in an ordinary object: "constructor" or "toString" is found although nobody put it there`, at: ctx.pos(e) });
        }
    });
    // keys written into source code that is evaluated later: in a literal, "__proto__": v names the prototype
    const keyTexts = (e, d = 0) => { e = cond(e); if (d > 5) return []; if (ts.isConditionalExpression(e)) return [...keyTexts(e.whenTrue, d + 1), ...keyTexts(e.whenFalse, d + 1)]; return ts.isCallExpression(e) && e.expression.getText() === 'JSON.stringify' && e.arguments.length === 1 ? [e] : []; };
    for (const sf of prog.sources) {
        const walk = n => {
            // for-in also visits what the object inherits
            if (ts.isForInStatement(n) && ts.isVariableDeclarationList(n.initializer) && ts.isIdentifier(n.initializer.declarations[0].name)) {
                const t = checker.getTypeAtLocation(n.expression), v = checker.getSymbolAtLocation(n.initializer.declarations[0].name);
                if (!checker.isArrayType(t)) {
                    ctx.count('for_in');
                    const use = x => {
                        if (ts.isElementAccessExpression(x) && ts.isIdentifier(strip(x.argumentExpression)) && symOf(strip(x.argumentExpression)) === v && same(x.expression, n.expression) && !guarded(x, n.expression, x.argumentExpression)) ctx.violation({ key: `forin:${where(x)}:${short(x)}`, msg: `${short(x)} also visits the properties the object only inherits`, at: ctx.pos(x) });
                        ts.forEachChild(x, use);
                    };
                    use(n.statement);
                }
            }
            if (ts.isTemplateSpan(n) && /^\s*:/.test(n.literal.text)) for (const x of keyTexts(n.expression)) {
                ctx.count('code_keys');
                if (excluded(x, x.arguments[0], new Set(['__proto__'])).size) ctx.violation({ key: `code:${where(x)}:${short(x)}`, msg: `a key taken from the data (${short(x.arguments[0])}) is written as a property of an object literal: "__proto__" there sets the prototype instead`, at: ctx.pos(x) });
            }
            if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusToken && ts.isStringLiteralLike(n.right) && /^\s*:/.test(n.right.text)) for (const x of keyTexts(n.left)) {
                ctx.count('code_keys');
                if (excluded(x, x.arguments[0], new Set(['__proto__'])).size) ctx.violation({ key: `code:${where(x)}:${short(x)}`, msg: `a key taken from the data (${short(x.arguments[0])}) is written as a property of an object literal: "__proto__" there sets the prototype instead`, at: ctx.pos(x) });
            }
            ts.forEachChild(n, walk);
        };
        walk(sf);
    }
    ctx.count('writes_under_data_keys', sites.size);
    ctx.count('reads_under_data_keys', reads.size);
    ctx.need('entries', 500);
    ctx.need('writes_under_data_keys', 5);
    ctx.need('reads_under_data_keys', 10);
}, 'RULE: every assignment o[k] = v with k a text that comes from the data (labels of the abstract interpretation) and o an object the library made must not go through an inherited setter: o has no prototype, the property is defined (defineProperty, fromEntries, spread), k is one character, or "__proto__" has been told apart before; k must not coincide with a field the library itself put into o. Every read o[k] of such an object is guarded by an own-property test of the same o and k (directly, or because the statement before put k in), or k can be no inherited name. A key written into generated source code as a property of an object literal must have been told apart from "__proto__" as well.');
