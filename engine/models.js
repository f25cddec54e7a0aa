'use strict';
// Summaries of repository functions that are verified on their own and then assumed by their callers.
const V = require('./values');
function publicDecl(prog, pkg, name) {
    const a = prog.publicApi().find(x => x.pkg === pkg && x.name === name && x.isValue);
    if (!a) return null;
    if (a.decl.body) return a.decl;
    return (a.symbol.declarations || []).find(d => d.body) || null;
}
// util's deep copy: the result shares nothing mutable with its argument (decided separately by the check of that property)
function withCopyModel(prog, hooks = {}) {
    const copy = publicDecl(prog, 'util', 'copy');
    const inner = hooks.onCall;
    return {
        ...hooks,
        onCall(I, fo, thisV, args, node) {
            if (inner) { const r = inner(I, fo, thisV, args, node); if (r) return r; }
            if (copy && fo.node === copy && node && I.rootFn !== copy) {
                const a = I.argAt(args, 0);
                const l = I.labelsDeep(a);
                const p = V.primsOnly(a);
                if (!a.o.size) return p;
                return V.join(p, new V.Val(0, V.NOC, new Set([I.unknown(node, 'deepCopy', l)]), l));
            }
            return null;
        }
    };
}
module.exports = { publicDecl, withCopyModel };
