'use strict';
// Behaviour-preserving renames of a whole source tree (for testing that the checks stay quiet).
// node tools/rename.js params|locals TREE   renames in TREE/packages/*/src in place
const [mode, tree] = process.argv.slice(2);
process.env.CURONG_REPO = tree;
const { load, ts } = require('../engine/program');
const fs = require('fs');
const prog = load(), checker = prog.checker;
let changed = 0;
for (const sf of prog.sources) {
    const out = [], wanted = new Set(), exported = new Set();
    const exp = n => { if (ts.isExportSpecifier(n)) { const s = checker.getExportSpecifierLocalTargetSymbol(n); if (s) exported.add(s); } if (ts.isExportAssignment(n)) { const s = checker.getSymbolAtLocation(n.expression); if (s) exported.add(s); } ts.forEachChild(n, exp); };
    exp(sf);
    const pick = n => {
        if (mode === 'params' && ts.isParameter(n) && ts.isIdentifier(n.name) && n.name.text !== 'this' && n.parent.body && !ts.getCombinedModifierFlags(n)) wanted.add(checker.getSymbolAtLocation(n.name));
        if (mode === 'locals' && (ts.isVariableDeclaration(n) || ts.isFunctionDeclaration(n) && n.body) && n.name && ts.isIdentifier(n.name) && !(ts.getCombinedModifierFlags(n) & ts.ModifierFlags.Export)) { const s = checker.getSymbolAtLocation(n.name); if (!exported.has(s)) wanted.add(s); }
        ts.forEachChild(n, pick);
    };
    pick(sf);
    const visit = n => {
        if (ts.isIdentifier(n)) {
            const sh = ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n;
            const s = sh ? checker.getShorthandAssignmentValueSymbol(n.parent) : checker.getSymbolAtLocation(n);
            if (s && wanted.has(s) && !(ts.isBindingElement(n.parent) && n.parent.propertyName === n)) {
                const b = ts.isBindingElement(n.parent) && n.parent.name === n && !n.parent.propertyName && ts.isObjectBindingPattern(n.parent.parent) && !n.parent.dotDotDotToken;
                // a shorthand in a destructuring assignment is left as it is elsewhere: {a} = o
                out.push([n.getStart(), n.end, (sh || b ? `${n.text}: ` : '') + n.text + '0']);
            }
        }
        ts.forEachChild(n, visit);
    };
    visit(sf);
    if (!out.length) continue;
    let src = sf.text;
    for (const [a, b, t] of out.sort((x, y) => y[0] - x[0])) src = src.slice(0, a) + t + src.slice(b);
    fs.writeFileSync(sf.fileName, src);
    changed += out.length;
}
console.log(`${mode}: ${changed} places`);
