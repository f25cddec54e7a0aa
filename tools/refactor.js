'use strict';
// Behaviour-preserving rewrites of a whole source tree (for testing that the checks stay quiet).
// node tools/refactor.js MODE TREE   rewrites TREE/packages/*/src in place
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const K = ts.SyntaxKind;
const [mode, tree] = process.argv.slice(2);
const f = ts.factory;
const files = [];
const walk = d => { for (const x of fs.readdirSync(d, { withFileTypes: true })) { if (x.name === 'node_modules' || x.name === '__test__' || x.name === '__tests__' || x.name === 'dist') continue; const p = path.join(d, x.name); if (x.isDirectory()) walk(p); else if (/\.ts$/.test(x.name) && !/\.d\.ts$|\.test\.ts$/.test(x.name)) files.push(p); } };
for (const p of fs.readdirSync(tree + '/packages')) { const s = path.join(tree, 'packages', p, 'src'); if (fs.existsSync(s)) walk(s); }
const has = (n, pred) => { let r = false; const v = x => { if (r) return; if (pred(x)) { r = true; return; } ts.forEachChild(x, v); }; v(n); return r; };
const own = (n, pred) => { let r = false; const v = (x, top) => { if (r) return; if (!top && (ts.isFunctionLike(x) || ts.isIterationStatement(x, false))) return; if (pred(x)) { r = true; return; } ts.forEachChild(x, c => v(c, false)); }; v(n, true); return r; };
let changed = 0, uid = 0;
// text edits: [start, end, text]
function edits(sf, src) {
    const out = [];
    const T = n => src.slice(n.getStart(sf), n.end);
    const visit = n => {
        const before = out.length;
        switch (mode) {
            case 'return-var':
                if (ts.isReturnStatement(n) && n.expression && !ts.isIdentifier(n.expression) && n.parent.kind === K.Block) { const v = `__r${++uid}`; out.push([n.getStart(sf), n.end, `const ${v} = ${T(n.expression)}; return ${v};`]); }
                break;
            case 'for-while':
                if (ts.isForStatement(n) && n.condition && !own(n.statement, x => ts.isContinueStatement(x)) && !ts.isLabeledStatement(n.parent)) {
                    const decl = n.initializer && ts.isVariableDeclarationList(n.initializer);
                    // a closure over the loop variable gets one per turn
                    if (decl && has(n.statement, x => ts.isFunctionLike(x))) break;
                    const body = ts.isBlock(n.statement) ? src.slice(n.statement.getStart(sf) + 1, n.statement.end - 1) : T(n.statement);
                    out.push([n.getStart(sf), n.end, `{ ${n.initializer ? T(n.initializer) + ';' : ''} while (${T(n.condition)}) { ${body} ${n.incrementor ? '\n' + T(n.incrementor) + ';' : ''} } }`]);
                }
                break;
            case 'if-negate':
                if (ts.isIfStatement(n) && n.elseStatement && !ts.isIfStatement(n.elseStatement) && !(ts.isIfStatement(n.parent) && n.parent.elseStatement === n)) out.push([n.getStart(sf), n.end, `if (!(${T(n.expression)})) ${T(n.elseStatement)} else ${T(n.thenStatement)}`]);
                break;
            case 'cond-var':
                if (ts.isIfStatement(n) && ts.isBlock(n.parent) && !has(n.expression, x => x.kind === K.AwaitExpression && false) && !ts.isIdentifier(n.expression)) { const v = `__c${++uid}`; const close = n.getChildren(sf).find(x => x.kind === K.CloseParenToken).end; out.push([n.getStart(sf), close, `const ${v} = ${T(n.expression)};\n if (${v})`]); }
                break;
            case 'arrow-block':
                if (ts.isArrowFunction(n) && !ts.isBlock(n.body)) { out.push([n.body.getStart(sf), n.body.end, `{ return ${T(n.body)}; }`]); }
                break;
            case 'arrow-const':
                // const f = (a) => ...; at top level becomes a function declaration's expression
                if (ts.isArrowFunction(n) && !has(n, x => x.kind === K.ThisKeyword || (ts.isIdentifier(x) && x.text === 'arguments')) && !n.typeParameters && ts.isBlock(n.body)) {
                    const ps = src.slice(n.parameters.pos, n.parameters.end);
                    const as = (n.modifiers || []).some(m => m.kind === K.AsyncKeyword) ? 'async ' : '';
                    out.push([n.getStart(sf), n.end, `${as}function (${ps})${n.type ? ': ' + T(n.type) : ''} ${T(n.body)}`]);
                }
                break;
            case 'ternary-if':
                if (ts.isReturnStatement(n) && n.expression && ts.isConditionalExpression(n.expression) && ts.isBlock(n.parent)) { const c = n.expression; out.push([n.getStart(sf), n.end, `if (${T(c.condition)}) { return ${T(c.whenTrue)}; } return ${T(c.whenFalse)};`]); }
                break;
            case 'if-ternary':
                break;
            case 'template-concat':
                if (ts.isTemplateExpression(n) && !ts.isTaggedTemplateExpression(n.parent)) {
                    const q = s => JSON.stringify(s);
                    let s = q(n.head.text);
                    for (const sp of n.templateSpans) { s += ` + String(${T(sp.expression)})`; if (sp.literal.text) s += ` + ${q(sp.literal.text)}`; }
                    // `${x}` on a symbol throws where String(x) does not: same for all text the library builds
                    out.push([n.getStart(sf), n.end, `(${s})`]);
                }
                break;
            case 'helper':
                // the body moves into a local function
                if ((ts.isFunctionDeclaration(n)) && n.body && n.name && !n.asteriskToken && n.parent === sf && !n.typeParameters && n.parameters.every(p => ts.isIdentifier(p.name) && p.name.text !== 'this') && !has(n.body, x => x.kind === K.ThisKeyword || (ts.isIdentifier(x) && (x.text === 'arguments')) || ts.isTypePredicateNode(x)) && !(n.type && (ts.isTypePredicateNode(n.type)))) {
                    const as = (n.modifiers || []).some(m => m.kind === K.AsyncKeyword);
                    const body = src.slice(n.body.getStart(sf) + 1, n.body.end - 1);
                    const call = n.parameters.map(p => p.name.text);
                    out.push([n.body.getStart(sf), n.body.end, `{ const __impl = ${as ? 'async ' : ''}(${n.parameters.map(p => `${p.dotDotDotToken ? '...' : ''}${p.name.text}: ${p.type ? T(p.type) + (p.questionToken ? ' | undefined' : '') : p.dotDotDotToken ? 'any[]' : 'any'}`).join(', ')})${n.type ? ': ' + T(n.type) : ''} => {${body}};\n return __impl(${n.parameters.map(p => (p.dotDotDotToken ? '...' : '') + p.name.text).join(', ')}); }`]);
                }
                break;
            case 'destructure':
                // const { a, b = 1 } = opts; becomes one access per name
                if (ts.isVariableStatement(n) && n.declarationList.declarations.length === 1) {
                    const d = n.declarationList.declarations[0];
                    if (ts.isObjectBindingPattern(d.name) && d.initializer && d.name.elements.every(x => !x.dotDotDotToken && ts.isIdentifier(x.name) && (!x.propertyName || ts.isIdentifier(x.propertyName)))) {
                        const kw = n.declarationList.flags & ts.NodeFlags.Const ? 'const' : 'let';
                        const o = `__o${++uid}`;
                        out.push([n.getStart(sf), n.end, `const ${o}: any = ${T(d.initializer)};\n` + d.name.elements.map(x => { const k = (x.propertyName || x.name).text, v = `__v${++uid}`; return x.initializer ? `const ${v} = ${o}.${k}; ${kw} ${x.name.text} = ${v} === undefined ? ${T(x.initializer)} : ${v};` : `${kw} ${x.name.text} = ${o}.${k};`; }).join('\n')]);
                    }
                }
                break;
            case 'and-nest':
                if (ts.isIfStatement(n) && !n.elseStatement && ts.isBinaryExpression(n.expression) && n.expression.operatorToken.kind === K.AmpersandAmpersandToken && !(ts.isIfStatement(n.parent))) out.push([n.getStart(sf), n.end, `if (${T(n.expression.left)}) { if (${T(n.expression.right)}) ${T(n.thenStatement)} }`]);
                break;
            case 'for-of':
                // for (const x of a) over an array literal variable is left alone; index loops over arrays become forEach-free for-of entries
                if (ts.isForOfStatement(n) && !n.awaitModifier && ts.isVariableDeclarationList(n.initializer) && !ts.isLabeledStatement(n.parent)) {
                    const it = `__it${++uid}`, st = `__s${uid}`;
                    const d = n.initializer.declarations[0];
                    const body = ts.isBlock(n.statement) ? T(n.statement) : `{ ${T(n.statement)} }`;
                    out.push([n.getStart(sf), n.end, `for (let ${it} = (${T(n.expression)} as any)[Symbol.iterator](), ${st} = ${it}.next(); !${st}.done; ${st} = ${it}.next()) { const ${T(d.name)} = ${st}.value; ${body} }`]);
                }
                break;
            case 'spread-assign':
                if (ts.isObjectLiteralExpression(n) && n.properties.length && ts.isSpreadAssignment(n.properties[0]) && n.properties.every(p => ts.isSpreadAssignment(p) || ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p))) {
                    const parts = n.properties.map(p => (ts.isSpreadAssignment(p) ? T(p.expression) : `{ ${T(p)} }`));
                    out.push([n.getStart(sf), n.end, `(Object.assign({}, ${parts.join(', ')}) as any)`]);
                }
                break;
            case 'opt-chain':
                if (ts.isPropertyAccessExpression(n) && n.questionDotToken && ts.isIdentifier(n.expression) && !ts.isCallExpression(n.parent) && !ts.isPropertyAccessExpression(n.parent) && !ts.isElementAccessExpression(n.parent)) out.push([n.getStart(sf), n.end, `(${T(n.expression)} === null || ${T(n.expression)} === undefined ? undefined : ${T(n)})`.replace(`undefined : ${T(n)}`, `undefined : ${T(n.expression)}.${n.name.text}`)]);
                break;
            case 'nullish':
                if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken && ts.isIdentifier(n.left)) out.push([n.getStart(sf), n.end, `(${T(n.left)} !== null && ${T(n.left)} !== undefined ? ${T(n.left)} : ${T(n.right)})`]);
                break;
            case 'param-default':
                // default parameters become assignments
                if (ts.isFunctionDeclaration(n) && n.body && !n.asteriskToken && n.parameters.some(p => p.initializer && ts.isIdentifier(p.name)) && n.parameters.every(p => ts.isIdentifier(p.name) && (!p.initializer || p.type))) {
                    let add = '';
                    for (const p of n.parameters) if (p.initializer) { add += ` if (${p.name.text} === undefined) { ${p.name.text} = ${T(p.initializer)}; }`; out.push([p.getStart(sf), p.end, `${p.name.text}?: ${T(p.type)}`]); }
                    out.push([n.body.getStart(sf), n.body.getStart(sf) + 1, `{${add}`]);
                }
                break;
            case 'arg-var':
                if ((ts.isExpressionStatement(n) || ts.isReturnStatement(n)) && n.expression && ts.isBlock(n.parent)) {
                    let c = n.expression; const aw = ts.isAwaitExpression(c); if (aw) c = c.expression;
                    if (!ts.isCallExpression(c) || !c.arguments.length || c.questionDotToken) break;
                    let pre = ''; const names = [];
                    if (c.arguments.some(a => ts.isSpreadElement(a))) break;
                    for (const a of c.arguments) { if (ts.isIdentifier(a) || ts.isLiteralExpression(a) || ts.isFunctionLike(a) || ts.isObjectLiteralExpression(a) || ts.isArrayLiteralExpression(a) || a.kind === K.TrueKeyword || a.kind === K.FalseKeyword || a.kind === K.NullKeyword) { names.push(T(a)); continue; } const v = `__a${++uid}`; pre += `const ${v} = ${T(a)}; `; names.push(v); }
                    if (!pre) break;
                    out.push([n.getStart(sf), n.getStart(sf), pre]);
                    c.arguments.forEach((a, i) => { if (names[i] !== T(a)) out.push([a.getStart(sf), a.end, names[i]]); });
                }
                break;
            case 'else-return':
                if (ts.isIfStatement(n) && !n.elseStatement && ts.isBlock(n.thenStatement) && n.thenStatement.statements.length && ts.isReturnStatement(n.thenStatement.statements[n.thenStatement.statements.length - 1]) && ts.isBlock(n.parent) && ts.isFunctionLike(n.parent.parent)) {
                    const list = n.parent.statements, i = list.indexOf(n), rest = list.slice(i + 1);
                    if (!rest.length || rest.some(x => ts.isFunctionDeclaration(x))) break;
                    out.push([rest[0].getStart(sf), rest[0].getStart(sf), 'else { '], [rest[rest.length - 1].end, rest[rest.length - 1].end, ' }']);
                }
                break;
            case 'while-true':
                if (ts.isWhileStatement(n) && n.expression.kind !== K.TrueKeyword) { const b = ts.isBlock(n.statement) ? src.slice(n.statement.getStart(sf) + 1, n.statement.end - 1) : T(n.statement); out.push([n.getStart(sf), n.end, `while (true) { if (!(${T(n.expression)})) break; ${b} }`]); }
                break;
            case 'not-equal':
                if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.ExclamationEqualsEqualsToken) out.push([n.getStart(sf), n.end, `!(${T(n.left)} === ${T(n.right)})`]);
                break;
            case 'plus-one':
                if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && n.operator === K.PlusPlusToken && (ts.isExpressionStatement(n.parent) || (ts.isForStatement(n.parent) && n.parent.incrementor === n))) out.push([n.getStart(sf), n.end, `${T(n.operand)} = ${T(n.operand)} + 1`]);
                break;
            case 'loop-body':
                if ((ts.isForStatement(n) || ts.isForOfStatement(n)) && !n.awaitModifier && ts.isBlock(n.statement) && n.initializer && ts.isVariableDeclarationList(n.initializer) && ts.isBlock(n.parent) && !has(n.statement, x => ts.isBreakStatement(x) || ts.isContinueStatement(x) || ts.isReturnStatement(x) || ts.isAwaitExpression(x) || x.kind === K.YieldExpression || x.kind === K.ThisKeyword || (ts.isIdentifier(x) && x.text === 'arguments'))) {
                    const names = n.initializer.declarations.filter(d => ts.isIdentifier(d.name)).map(d => d.name.text);
                    if (names.length !== n.initializer.declarations.length) break;
                    // the body does not assign the loop variables
                    if (has(n.statement, x => (ts.isBinaryExpression(x) && x.operatorToken.kind >= K.FirstAssignment && x.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(x.left) && names.includes(x.left.text)) || ((ts.isPrefixUnaryExpression(x) || ts.isPostfixUnaryExpression(x)) && ts.isIdentifier(x.operand) && names.includes(x.operand.text)))) break;
                    const v = `__step${++uid}`;
                    out.push([n.getStart(sf), n.getStart(sf), `const ${v} = (${names.map(x => x + ': any').join(', ')}) => ${T(n.statement)};\n`], [n.statement.getStart(sf), n.statement.end, `{ ${v}(${names.join(', ')}); }`]);
                }
                break;
            case 'switch-if':
                break;
            case 'method-alias':
                // x.push(a) -> x[x.length] = a ; x.forEach untouched
                if (ts.isExpressionStatement(n) && ts.isCallExpression(n.expression) && ts.isPropertyAccessExpression(n.expression.expression) && n.expression.expression.name.text === 'push' && n.expression.arguments.length === 1 && !ts.isSpreadElement(n.expression.arguments[0]) && ts.isIdentifier(n.expression.expression.expression)) { const x = T(n.expression.expression.expression); out.push([n.getStart(sf), n.end, `(${x} as any)[${x}.length] = ${T(n.expression.arguments[0])};`]); }
                break;
            case 'await-var':
                if (ts.isExpressionStatement(n) && ts.isAwaitExpression(n.expression) && ts.isBlock(n.parent)) { const v = `__p${++uid}`; out.push([n.getStart(sf), n.end, `const ${v} = ${T(n.expression.expression)};\n await ${v};`]); }
                break;
            case 'return-await': {
                let q = n.parent; while (q && !ts.isFunctionLike(q)) q = q.parent;
                if (ts.isReturnStatement(n) && n.expression && q && !q.asteriskToken && (q.modifiers || []).some(m => m.kind === K.AsyncKeyword) && !ts.isAwaitExpression(n.expression) && !has(q, x => ts.isTryStatement(x))) out.push([n.getStart(sf), n.end, `return await (${T(n.expression)});`]);
                break;
            }
            case 'try-helper':
                // try { body } -> const t = () => { body }; try { t() }
                if (ts.isTryStatement(n) && ts.isBlock(n.parent) && !has(n.tryBlock, x => ts.isReturnStatement(x) || ts.isBreakStatement(x) || ts.isContinueStatement(x) || x.kind === K.YieldExpression || x.kind === K.ThisKeyword || (ts.isIdentifier(x) && x.text === 'arguments'))) {
                    const v = `__t${++uid}`, as = has(n.tryBlock, x => ts.isAwaitExpression(x));
                    out.push([n.getStart(sf), n.getStart(sf), `const ${v} = ${as ? 'async ' : ''}() => ${T(n.tryBlock)};\n`], [n.tryBlock.getStart(sf), n.tryBlock.end, `{ ${as ? 'await ' : ''}${v}(); }`]);
                }
                break;
            case 'listener-named':
                // f(a, () => ...) as a statement -> const l = () => ...; f(a, l)
                if (ts.isExpressionStatement(n) && ts.isCallExpression(n.expression) && ts.isBlock(n.parent) && ts.isPropertyAccessExpression(n.expression.expression)) {
                    const c = n.expression, i = c.arguments.findIndex(a => ts.isArrowFunction(a) && a.parameters.every(q => q.type || false));
                    const a = c.arguments.find(q => ts.isArrowFunction(q) && !q.typeParameters);
                    if (!a) break;
                    const v = `__l${++uid}`;
                    const ps = a.parameters.map(q => (q.dotDotDotToken ? '...' : '') + T(q.name) + (q.questionToken ? '?' : '') + ': ' + (q.type ? T(q.type) : q.dotDotDotToken ? 'any[]' : 'any') + (q.initializer ? ' = ' + T(q.initializer) : '')).join(', ');
                    const as = (a.modifiers || []).some(m => m.kind === K.AsyncKeyword) ? 'async ' : '';
                    out.push([n.getStart(sf), n.getStart(sf), `const ${v} = ${as}(${ps}) => ${T(a.body)};\n`], [a.getStart(sf), a.end, v]);
                }
                break;
            case 'executor-named':
                if (ts.isReturnStatement(n) && n.expression && ts.isNewExpression(n.expression) && T(n.expression.expression) === 'Promise' && ts.isArrowFunction(n.expression.arguments[0]) && ts.isBlock(n.parent)) {
                    const a = n.expression.arguments[0], v = `__x${++uid}`;
                    const ps = a.parameters.map(q => T(q.name) + ': any').join(', ');
                    out.push([n.getStart(sf), n.getStart(sf), `const ${v} = (${ps}) => ${T(a.body)};\n`], [a.getStart(sf), a.end, v]);
                }
                break;
            case 'foreach':
                // for (const x of a) body -> a.forEach(x => body) when the body has no control transfer
                if (ts.isForStatement(n) && false) break;
                break;
        }
        if (out.length > before) { changed += out.length - before; return; } // edits do not nest
        ts.forEachChild(n, visit);
    };
    visit(sf);
    return out;
}
for (const p of files) {
    const src = fs.readFileSync(p, 'utf8');
    const sf = ts.createSourceFile(p, src, ts.ScriptTarget.Latest, true);
    const e = edits(sf, src).sort((a, b) => b[0] - a[0]);
    if (!e.length) continue;
    let s = src;
    for (const [a, b, t] of e) s = s.slice(0, a) + t + s.slice(b);
    fs.writeFileSync(p, s);
}
console.log(mode, changed, 'places');
