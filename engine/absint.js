'use strict';
// A flow-sensitive, interprocedural abstract interpreter over the type-checked program.
// It never runs the code: every expression is mapped to an abstract value (values.js) that says which primitive kinds it can
// have and which objects (caller's arguments, module-level objects, fresh allocations, external results) it can be.
// Heap: allocation sites x call site, weak updates. Calls are analysed in the context of their abstract arguments, memoised,
// and iterated to a fixpoint.
const { ts } = require('./program');
const V = require('./values');
const { U, N, T, F, NUM, STR, BIG, SYM, ALLP, CONSTK, BOT, mk, UNDEF, NULLV, TRUE, FALSE, BOOL, NUMV, STRV, EMPTY, NOC, join, joinW, joinAll, konst, withL, widen, primsOnly, objsOnly, restrict, consts, truthy, filterTruthy } = V;
const K = ts.SyntaxKind;
const builtins = require('./builtins');

let OBJ_ID = 0, SYM_ID = 0;
class Obj {
    constructor(key, kind, cls, org, node) {
        this.id = ++OBJ_ID;
        this.key = key;
        this.kind = kind; // alloc | param | x | func | builtin | class | instance | atom
        this.cls = cls; // Array | Map | Set | RegExp | Promise | Function | Object | ... | Unknown
        this.org = org; // {t: 'P'|'R'|'C'|'X'|'F'|'M'|'G', name}
        this.node = node;
        this.fields = new Map();
        this.rest = BOT;
        this.spread = []; // objects whose properties were copied in
        this.own = null; // keys certainly present (object literals)
        this.shadow = null; // keys no longer taken from spread
        this.l = EMPTY;
    }
    get lazy() {
        return this.kind === 'param' || this.kind === 'x';
    }
    get callable() {
        return this.kind === 'func' || this.kind === 'class' || this.kind === 'bound' || this.kind === 'native' || (this.kind === 'builtin');
    }
}

class Env {
    constructor(key, fnNode, parent) {
        this.key = key;
        this.fnNode = fnNode;
        this.parent = parent;
        this.cells = new Map();
        this.thisV = BOT;
    }
}

// Trace effects: which words of calls into the caller's functions a piece of code can make, as finite sets of words. Long
// words end in the mark of an arbitrary continuation, so that loops reach a fixpoint.
const EPS = new Set(['']), NOTR = new Set(), LONG = 6, MANY = 600, UNROLL = 12;
function orTr(a, b) { if (!a || !b) return a || b; if (a === b) return a; const r = new Set(a); for (const x of b) r.add(x); return r.size > MANY ? new Set(['…']) : r; }
function catWord(x, y) {
    if (!y || x.endsWith('…') || y === '!' && x.endsWith('!')) return x;
    if (x.endsWith('!')) x = x.replace(/( ; )?!$/, '');
    const w = x ? `${x} ; ${y}` : y, l = w.split(' ; ');
    if (l.length <= LONG) return w;
    const n = l.indexOf('~');
    return l.length > LONG + (n >= 0 ? 1 : 0) ? l.slice(0, LONG + (n >= 0 && n < LONG ? 1 : 0)).join(' ; ') + ' ; …' : w;
}
// "~" marks the place in the word of an async function where it first waits: what comes before it is made while the function is
// called, what comes after it is made later, at the latest when somebody has waited for its promise
const LATER = new Set(['~']);
function splitTr(words, before) {
    const pre = new Set(), post = new Set(), all = new Set();
    for (const w of before) pre.add(w);
    for (const w of words) {
        const l = w ? w.split(' ; ') : [];
        let k = l.indexOf('~');
        if (k < 0 && l[l.length - 1] === '!') k = l.length - 1;
        pre.add((k < 0 ? l : l.slice(0, k)).join(' ; '));
        post.add(k < 0 ? '' : l.slice(l[k] === '~' ? k + 1 : k).join(' ; '));
        all.add(l.filter(x => x !== '~').join(' ; '));
    }
    if (pre.size <= 1 || post.size <= 1) return { pre, post };
    return { pre: all, post: EPS };
}
function seqTr(a, b) { if (b === EPS) return a; const r = new Set(); for (const x of a) for (const y of b) r.add(catWord(x, y)); return r.size > MANY ? new Set(['…']) : r; }

class State {
    constructor(vars) {
        this.vars = vars || new Map();
        this.fw = new Map(); // access path -> write counter when the fact about it was recorded
        this.dead = false;
        this.arr = null; // arrays made on this path whose elements are known, place by place
        this.tr = null; // the words of calls that can have been made so far (trace effects)
    }
    clone() {
        const s = new State(new Map(this.vars));
        s.fw = new Map(this.fw);
        s.dead = this.dead;
        s.tr = this.tr;
        s.arr = this.arr && new Map(this.arr);
        return s;
    }
    take(j) {
        this.tr = j.tr;
        this.arr = j.arr && new Map(j.arr);
        this.vars = new Map(j.vars);
        this.fw = new Map(j.fw);
    }
    dropFacts(pred) {
        for (const k of [...this.fw.keys()]) if (pred(k, this.fw.get(k))) { this.fw.delete(k); this.vars.delete(k); }
    }
}
function joinStates(list) {
    list = list.filter(s => s && !s.dead);
    if (!list.length) { const s = new State(); s.dead = true; return s; }
    if (list.length === 1) return list[0];
    const out = list[0].clone();
    for (const s of list.slice(1)) {
        if (out.tr) out.tr = orTr(out.tr, s.tr);
        if (out.arr) for (const [o, vs] of [...out.arr]) { const j = joinSeq(vs, s.arr && s.arr.get(o)); if (j) out.arr.set(o, j); else out.arr.delete(o); }
        for (const [k, w] of [...out.fw]) { if (!s.fw.has(k)) { out.fw.delete(k); out.vars.delete(k); } else if (s.fw.get(k) < w) out.fw.set(k, s.fw.get(k)); }
        for (const [k, v] of s.vars) { if (typeof k === 'string' && !out.fw.has(k)) continue; out.vars.set(k, out.vars.has(k) ? join(out.vars.get(k), v) : v); }
    }
    return out;
}
const joinSeq = (a, b) => (b && a.length === b.length ? (a === b ? a : a.map((x, i) => join(x, b[i]))) : null);
const seqSig = a => a.map(x => x.sig).join(';');
function sameState(a, b) {
    if (a.dead !== b.dead) return false;
    if (a.arr && a.arr.size || b.arr && b.arr.size) {
        if (!a.arr || !b.arr || a.arr.size !== b.arr.size) return false;
        for (const [o, v] of a.arr) { const w = b.arr.get(o); if (!w || seqSig(w) !== seqSig(v)) return false; }
    }
    if (a.tr && (a.tr.size !== b.tr.size || [...a.tr].some(x => !b.tr.has(x)))) return false;
    if (a.vars.size !== b.vars.size) return false;
    for (const [k, v] of a.vars) { const w = b.vars.get(k); if (!w || w.sig !== v.sig) return false; }
    return true;
}

// changes of an array whose effect on the elements exact.js tells
const ARRAY_SEEN = new Set(['push', 'unshift', 'pop', 'shift', 'reverse']);
const ARRAY_OPS = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin', 'set', 'add', 'clear']);
const isFn = n => ts.isFunctionLike(n) && !!n.body;
const skip = n => {
    while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression?.(n) || ts.isSatisfiesExpression?.(n))) n = n.expression;
    return n;
};

const NOREASONS = new Map();
class Interp {
    constructor(prog, hooks = {}) {
        this.prog = prog;
        this.checker = prog.checker;
        this.hooks = hooks;
        this.nodeIds = new Map();
        this.symCache = new Map();
        this.capturedCache = new Map();
        this.settledCache = new Map();
        this.capturesCache = new Map();
        this.nestedCache = new Map();
        this.moduleCells = new Map(); // symbol -> Val
        this.moduleBusy = new Set();
        this.moduleObjs = new Map();
        this.builtinObjs = new Map();
        this.moduleEnv = new Env('module', null, null);
        this.moduleEvents = [];
        this.typeCache = new Map();
        this.resetEntry();
    }
    // objects that outlive one entry (module level, built-ins) are restored before the next entry
    saveObj(o) {
        if (this.inModule || !(o.org.t === 'M' || o.kind === 'builtin') || this.dirty.has(o)) return;
        this.dirty.set(o, { fields: new Map(o.fields), rest: o.rest, spread: o.spread.slice(), l: o.l, shadow: o.shadow && new Set(o.shadow), shadowBy: o.shadowBy && new Map(o.shadowBy) });
    }
    resetEntry() {
        if (this.dirty) for (const [o, s] of this.dirty) Object.assign(o, s);
        this.dirty = new Map();
        if (this.dirtyCells) for (const [s, v] of this.dirtyCells) this.moduleCells.set(s, v);
        this.dirtyCells = new Map();
        if (this.dirtyEnv) for (const [e, c] of this.dirtyEnv) e.cells = c;
        this.dirtyEnv = new Map();
        this.delivered = null;
        this.handed = null;
        this.objs = new Map();
        this.envs = new Map();
        this.memo = new Map();
        this.events = new Map();
        this.ver = 0;
        this.writes = 0;
        this.wlog = new Map();
        this.stack = [];
        this.inModule = 0;
        this.steps = 0;
        this.incomplete = false;
        this.unresolved = new Set();
        this.visitedFns = new Set();
    }
    nid(node) {
        let i = this.nodeIds.get(node);
        if (!i) this.nodeIds.set(node, (i = this.nodeIds.size + 1));
        return i;
    }

    // ---------- objects ----------
    newObj(key, kind, cls, org, node) {
        const map = this.inModule ? this.moduleObjs : this.objs;
        let o = map.get(key) || (map === this.objs ? undefined : undefined);
        if (!o) { o = new Obj(key, kind, cls, org, node); map.set(key, o); }
        return o;
    }
    alloc(node, cls, tag = '') {
        const ctx = this.frame ? this.frame.ctx : '';
        const key = `${this.nid(node)}${tag}@${ctx}`;
        const org = this.inModule ? { t: 'M', name: this.moduleName || '?' } : { t: 'F', name: '' };
        const o = this.newObj(key, 'alloc', cls, org, node);
        if (this.unroll && cls === 'Array') o.site = `${this.nid(node)}@${ctx}`;
        return o;
    }
    // arrays made on this path: their elements place by place, as long as every change is seen in the function that made them
    tracked(o) { return this.curSt && this.curSt.arr && this.curSt.arr.get(o); }
    track(o, vals) {
        if (!this.unroll || !this.curSt || this.inModule || !o.site || this.lost.has(o.site)) return;
        if (!this.curSt.arr) this.curSt.arr = new Map();
        if (this.curSt.arr.has(o)) { this.lose(o); return; } // one name for several arrays
        if (vals.length <= 64) this.curSt.arr.set(o, vals);
    }
    untrack(o) {
        if (!this.unroll || !o.site) return;
        if (this.tracked(o)) this.curSt.arr.delete(o); else this.lose(o);
    }
    lose(o) {
        if (this.curSt && this.curSt.arr) this.curSt.arr.delete(o);
        if (!this.lost.has(o.site)) { this.lost.add(o.site); this.restart = true; }
    }
    // what is known about arrays when a function returns: those it was given and those its result holds
    arrOut(v, frame, st) {
        if (!this.unroll) return;
        const now = new Map(), seen = new Set(), cur = st.arr || new Map();
        const walk = x => {
            for (const o of x.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                const t = cur.get(o);
                if (t) { now.set(o, t); t.forEach(walk); } else if (o.kind === 'alloc' && (o.cls === 'Promise' || o.cls === 'Array' || o.cls === 'Object')) { walk(o.rest); for (const f of o.fields.values()) walk(f); }
            }
        };
        if (frame.arrIn) for (const o of frame.arrIn.keys()) if (cur.has(o)) { now.set(o, cur.get(o)); seen.add(o); cur.get(o).forEach(walk); }
        walk(v);
        if (!frame.arrOut) { frame.arrOut = now; return; }
        for (const [o, t] of [...frame.arrOut]) {
            const u = now.get(o);
            if (u) { const j = joinSeq(t, u); if (j) frame.arrOut.set(o, j); else frame.arrOut.delete(o); } else if (frame.arrIn && frame.arrIn.has(o)) frame.arrOut.delete(o);
        }
        for (const [o, t] of now) if (!frame.arrOut.has(o) && !(frame.arrIn && frame.arrIn.has(o)) && !frame.arrSeen.has(o)) frame.arrOut.set(o, t);
        for (const o of now.keys()) frame.arrSeen.add(o);
    }
    arrIn(m) {
        const st = this.curSt;
        if (!this.unroll || !st) return;
        if (m.busy) { st.arr = null; return; }
        const out = m.arrOut || new Map();
        if (m.shares) { st.arr = new Map(out); return; }
        for (const [o, v] of out) this.track(o, v);
    }
    builtin(name) {
        let o = this.builtinObjs.get(name);
        if (!o) { o = new Obj('b:' + name, 'builtin', 'Builtin', { t: 'G', name }, null); o.name = name; this.builtinObjs.set(name, o); }
        return o;
    }
    param(t, name, cls = 'Unknown') {
        const key = `${t}:${name}`;
        let o = this.objs.get(key);
        if (!o) { o = new Obj(key, 'param', cls, { t, name }, null); o.l = new Set([`${t}:${name}`]); o.depth = 0; o.root = name; this.objs.set(key, o); }
        else if (cls !== 'Unknown' && o.cls === 'Unknown') o.cls = cls;
        return o;
    }
    unknown(node, tag, labels = EMPTY, cls = 'Unknown') {
        const key = `x:${node ? this.nid(node) : 0}:${tag}`;
        const map = this.inModule ? this.moduleObjs : this.objs;
        let o = map.get(key);
        if (!o) { o = new Obj(key, 'x', cls, this.inModule ? { t: 'M', name: this.moduleName || '?' } : { t: 'X', name: tag }, node); o.depth = 0; o.tag = tag; map.set(key, o); }
        if (labels.size) { const u = V.union(o.l, labels); if (u.size !== o.l.size) { o.l = u; this.ver++; } }
        return o;
    }
    unknownV(node, tag, labels = EMPTY, cls) {
        return new V.Val(ALLP, null, new Set([this.unknown(node, tag, labels, cls)]), labels);
    }
    childV(o, key) {
        // lazily created property of an unknown object
        let k = key === null || /^\d+$/.test(key) ? '[]' : key;
        let c;
        if (o.depth >= (o.kind === 'param' ? 3 : 2) || (k === '[]' && o.pkey === '[]' && o.parentObj && o.parentObj.pkey === '[]') || (o.pkey === k && k !== '[]')) c = o;
        else {
            const map = o.org.t === 'M' ? this.moduleObjs : this.objs;
            const ck = o.key + (k === '[]' ? '[]' : '.' + k);
            c = map.get(ck);
            if (!c) {
                c = new Obj(ck, o.kind, 'Unknown', { t: o.org.t, name: o.org.name + (k === '[]' ? '[]' : '.' + k) }, o.node);
                c.depth = o.depth + 1;
                c.root = o.root;
                c.tag = o.tag ? o.tag + '.' + k : undefined;
                c.parentObj = o;
                c.pkey = k;
                c.l = o.kind === 'param' ? new Set([`${c.org.t}:${c.org.name}`]) : o.l;
                map.set(ck, c);
            }
        }
        if (c.kind === 'x' && c.l !== o.l) c.l = V.union(c.l, o.l);
        return new V.Val(ALLP, null, new Set([c]), c.l);
    }
    labelsDeep(v, depth = 3, seen = new Set()) {
        let l = v.l;
        for (const o of v.o) {
            if (seen.has(o)) continue;
            seen.add(o);
            if (o.l.size) l = V.union(l, o.l);
            if (depth > 0 && (o.kind === 'alloc' || o.kind === 'bound')) {
                for (const f of o.fields.values()) l = V.union(l, this.labelsDeep(f, depth - 1, seen));
                l = V.union(l, this.labelsDeep(o.rest, depth - 1, seen));
                for (const s of o.spread) l = V.union(l, s.l);
            }
        }
        return l;
    }

    // ---------- events ----------
    event(type, node, data) {
        if (type === 'callback' || type === 'callmethod' || type === 'extcall' || type === 'extmethod') this.wrote('*');
        const st = this.stack.map(f => f.callNode).filter(Boolean);
        const key = type + '|' + (node ? this.nid(node) : 0) + '|' + (data.key || '');
        if (!this.events.has(key)) this.events.set(key, { type, node, ...data, stack: st, fn: this.frame && this.frame.fnNode, guards: this.frame ? this.frame.guards.slice() : [] });
        else if (data.merge) data.merge(this.events.get(key));
    }
    wrote(name) {
        this.wlog.set(name, ++this.writes);
    }
    factKilled(k, since) {
        if ((this.wlog.get('*') || 0) > since) return true;
        const parts = k.slice(2).split('.');
        if ((this.wlog.get('v' + parts[0]) || 0) > since) return true;
        for (let i = 1; i < parts.length; i++) if ((this.wlog.get(parts[i]) || 0) > since) return true;
        return false;
    }
    // (built-ins of arrays tell the elements afterwards themselves, see exact.js)
    mutate(v, prop, node, how) {
        this.wrote(prop !== '[]' ? prop : ARRAY_OPS.has(how) ? 'length' : '*');
        for (const o of v.o) {
            if (o.site && !(how && ARRAY_SEEN.has(how) && this.tracked(o))) this.untrack(o);
            if (o.kind === 'func' || o.kind === 'builtin' || o.org.t !== 'F')
                this.event('mutate', node, { key: o.key + '|' + prop, obj: o, prop, how });
            else this.event('fmutate', node, { key: o.key + '|' + prop, obj: o, prop, how });
        }
    }

    // ---------- property access ----------
    getProp(v, key, node) {
        // key: string or null when unknown
        if (this.kinds && key !== null && v.p) { const k = this.kinds.prim(v, key); if (k) return k; }
        let r = BOT;
        for (const o of v.o) r = join(r, this.getObjProp(o, key, node));
        if (v.p & STR) {
            if (key === 'length') r = join(r, mk(NUM, v.c && v.o.size === 0 && v.p === STR ? new Map([...v.c.values()].map(s => [V.ck(s.length), s.length])) : null, EMPTY, v.l));
            else if (key === null || /^\d+$/.test(key)) r = join(r, mk(STR | U, null, EMPTY, v.l));
            else if (builtins.STRING_METHODS.has(key)) r = join(r, V.obj(this.builtin('String.prototype.' + key)));
            else r = join(r, UNDEF);
        }
        if (v.p & NUM) { if (key && builtins.NUMBER_METHODS.has(key)) r = join(r, V.obj(this.builtin('Number.prototype.' + key))); else r = join(r, UNDEF); }
        if (v.p & (T | F | BIG)) r = join(r, UNDEF);
        if (v.p & SYM) r = join(r, key === 'description' ? mk(STR | U) : UNDEF);
        return r;
    }
    getObjProp(o, key, node) {
        if (o.getProp) { const g = o.getProp(this, key, node); if (g) return g; }
        if (o.kind === 'builtin') {
            if (this.kinds && key === 'length' && !o.fields.has(key)) { const b = this.kinds.resolve(o.name); if (b && typeof b.v === 'function') return konst(b.v.length); }
            let r = BOT;
            if (key === null) { for (const f of o.fields.values()) r = join(r, f); return join(r, this.unknownV(node, 'builtin:' + o.name)); }
            if (o.fields.has(key)) r = o.fields.get(key);
            const c = builtins.constant(o.name, key);
            if (c) return join(r, c(this, node));
            return join(r, V.obj(this.builtin(o.name + '.' + key)));
        }
        if (o.lazy) {
            let r = key === null ? [...o.fields.values()].reduce(join, BOT) : o.fields.get(key) || BOT;
            r = join(r, o.rest);
            if (o.cls !== 'Unknown' && key === 'length') return mk(NUM, null, EMPTY, o.l);
            return join(r, this.childV(o, key));
        }
        let r = BOT;
        if (key === null) {
            for (const [, f] of o.fields) r = join(r, f);
            r = join(r, o.rest);
            for (const s of o.spread) r = join(r, this.getObjProp(s, null, node));
            return join(r, UNDEF);
        }
        if (o.site && /^\d+$/.test(key)) { const t = this.tracked(o); if (t) return t[key] || UNDEF; }
        if (o.fields.has(key)) {
            r = o.fields.get(key);
            if (o.shadow && o.shadow.has(key)) return r;
        } else if (o.kind === 'instance' || o.kind === 'class') {
            const m = this.classMember(o, key, node);
            if (m) return join(m, o.rest);
        }
        if (!(o.shadow && o.shadow.has(key)))
            for (const s of o.spread) r = join(r, this.getObjProp(s, key, node));
        r = join(r, o.rest);
        if (this.kinds && o.cls === 'Array' && key === 'length') { const k = this.positional(V.obj(o)); if (k) return V.konst(k.length); }
        if ((o.cls === 'Array' || o.kind === 'func') && key === 'length') return mk(NUM);
        if (!o.fields.has(key)) {
            if (o.cls === 'Map' || o.cls === 'Set') { if (key === 'size') return NUMV; }
            const bm = builtins.methodOf(o, key);
            if (bm) return V.obj(this.builtin(bm));
            if ((o.kind === 'func' || o.kind === 'class') && key === 'name') return o.node.name && ts.isIdentifier(o.node.name) ? V.konst(o.node.name.text) : V.STRV;
            r = join(r, UNDEF);
        }
        return r;
    }
    classMember(o, key, node) {
        const cls = o.kind === 'class' ? o.node : o.classNode;
        const wantStatic = o.kind === 'class';
        for (let c = cls; c; ) {
            for (const m of c.members) {
                const st = !!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static);
                if (st !== wantStatic || !m.name || this.propName(m.name) !== key) continue;
                if (ts.isMethodDeclaration(m)) return V.obj(this.closure(m, o.env || this.moduleEnv));
                if (ts.isGetAccessor(m)) return this.callFn(this.closure(m, o.env || this.moduleEnv), V.obj(o), { list: [], rest: null }, node);
                return null;
            }
            break;
        }
        return null;
    }
    setProp(v, key, val, node, how = 'assign') {
        const only = this.unroll && how === 'assign' && key !== null && v.o.size === 1 && !v.p && [...v.o][0], seq = only && only.site && this.tracked(only);
        if (how !== 'init') this.mutate(v, key === null ? '[]' : String(key), node, how);
        if (seq && this.curSt.arr) {
            const c = key === 'length' && V.consts(val);
            if (/^\d+$/.test(key) && Number(key) <= seq.length) { const n = seq.slice(); n[Number(key)] = val; this.curSt.arr.set(only, n); }
            else if (c && c.length === 1 && c[0] <= seq.length) this.curSt.arr.set(only, seq.slice(0, c[0]));
        }
        for (const o of v.o) {
            if (o.kind === 'atom') continue;
            this.saveObj(o);
            const isIdx = key !== null && /^\d+$/.test(key) && o.cls === 'Array' && how !== 'init';
            if (key === null || isIdx) {
                const j = joinW(o.rest, val);
                if (j.sig !== o.rest.sig) { o.rest = j; this.ver++; }
            } else {
                const old = o.fields.get(key);
                const j = old ? joinW(old, val) : val;
                if (!old || j.sig !== old.sig) { o.fields.set(key, j); this.ver++; }
            }
        }
    }
    addRest(o, val) {
        this.saveObj(o);
        const j = joinW(o.rest, val);
        if (j.sig !== o.rest.sig) { o.rest = j; this.ver++; }
    }
    elements(v, node) {
        let r = BOT;
        for (const o of v.o) {
            if (o.lazy) { r = join(r, join(this.childV(o, null), o.rest)); continue; }
            if (o.kind === 'atom') { r = join(r, this.unknownV(node, 'elem')); continue; }
            if (o.cls === 'Map') { const pair = this.alloc(node || o.node, 'Array', 'pair' + o.id); this.setProp(V.obj(pair), '0', o.fields.get('@k') || BOT, node, 'init'); this.setProp(V.obj(pair), '1', o.rest, node, 'init'); r = join(r, V.obj(pair)); continue; }
            for (const [, f] of o.fields) r = join(r, f);
            r = join(r, o.rest);
            for (const s of o.spread) r = join(r, this.elements(V.obj(s), node));
        }
        if (v.p & STR) r = join(r, mk(STR, null, EMPTY, v.l));
        return r;
    }
    awaited(v, node) {
        let r = primsOnly(v);
        for (const o of v.o) {
            if (o.cls === 'Promise' && o.kind === 'alloc') r = join(r, o.rest);
            else if (o.lazy && !o.opaque) { r = join(r, V.obj(o)); r = join(r, this.childV(o, '@await')); }
            else r = join(r, V.obj(o));
        }
        return r;
    }
    promise(node, val, tag = 'promise') {
        const o = this.alloc(node, 'Promise', tag);
        this.addRest(o, this.awaited(val, node));
        return V.obj(o);
    }

    // ---------- types ----------
    kindsOfType(type) {
        // returns {mask, objs} or null when anything is possible
        if (!type) return null;
        let c = this.typeCache.get(type);
        if (c !== undefined) return c;
        c = this.kindsOfType0(type, 0);
        this.typeCache.set(type, c);
        return c;
    }
    kindsOfType0(t, d) {
        const f = t.flags, TF = ts.TypeFlags;
        if (d > 4) return null;
        if (f & (TF.Any | TF.Unknown)) return null;
        if (f & TF.Never) return null;
        if (t.isUnion?.()) {
            let m = 0, o = false;
            for (const x of t.types) { const k = this.kindsOfType0(x, d + 1); if (!k) return null; m |= k.mask; o = o || k.objs; }
            return { mask: m, objs: o };
        }
        if (t.isIntersection?.()) {
            for (const x of t.types) { const k = this.kindsOfType0(x, d + 1); if (k && !k.objs && k.mask) return k; }
            return { mask: 0, objs: true };
        }
        if (f & TF.TypeParameter || f & TF.IndexedAccess || f & TF.Conditional || f & TF.Substitution || f & TF.Index) {
            if (f & TF.Index) return { mask: STR | NUM | SYM, objs: false };
            const c = this.checker.getBaseConstraintOfType(t);
            if (!c || c === t) return null;
            const k = this.kindsOfType0(c, d + 1);
            return k;
        }
        if (f & TF.StringLike) return { mask: STR, objs: false };
        if (f & TF.NumberLike) return { mask: NUM, objs: false };
        if (f & TF.BooleanLike) return { mask: T | F, objs: false };
        if (f & TF.BigIntLike) return { mask: BIG, objs: false };
        if (f & TF.ESSymbolLike) return { mask: SYM, objs: false };
        if (f & TF.Undefined || f & TF.Void) return { mask: U, objs: false };
        if (f & TF.Null) return { mask: N, objs: false };
        if (f & TF.Object) {
            // `{}`, `Object` admit primitives
            if (!t.symbol || t.getProperties().length === 0 && t.getCallSignatures().length === 0 && t.getConstructSignatures().length === 0 && !t.getStringIndexType?.()) return null;
            return { mask: 0, objs: true };
        }
        if (f & TF.NonPrimitive) return { mask: 0, objs: true };
        return null;
    }
    clsOfType(t) {
        if (!t) return 'Unknown';
        t = this.checker.getNonNullableType(t);
        if (t.flags & ts.TypeFlags.TypeParameter) t = this.checker.getBaseConstraintOfType(t) || t;
        if (t.isUnion?.()) return 'Unknown';
        if (this.checker.isArrayType(t) || this.checker.isTupleType(t)) return 'Array';
        if (t.getCallSignatures?.().length && !t.getProperties().length) return 'Function';
        const n = t.symbol && t.symbol.name;
        if (n && builtins.KNOWN_CLASSES.has(n)) { const d = t.symbol.declarations?.[0]; if (d && d.getSourceFile().isDeclarationFile) return n === 'ReadonlyArray' ? 'Array' : n === 'PromiseLike' ? 'Promise' : n; }
        return 'Unknown';
    }
    narrow(v, node) {
        // use the static type of an expression to sharpen values about which the interpreter knows nothing
        let hasLazy = false;
        for (const o of v.o) if (o.lazy) { hasLazy = true; break; }
        if (!hasLazy) return v;
        let t;
        try { t = this.checker.getTypeAtLocation(node); } catch { return v; }
        const r = this.narrowT(v, t);
        return this.traces && r.isBot() ? v : r; // a caller's result of another type than the declared one
    }
    narrowT(v, t) {
        const k = this.kindsOfType(t);
        if (!k) return v;
        const cls = this.clsOfType(t);
        const keep = new Set();
        for (const o of v.o) {
            if (o.lazy) {
                if (k.objs) { keep.add(o); if (cls !== 'Unknown' && o.cls === 'Unknown') o.cls = cls; }
            } else keep.add(o);
        }
        // only the primitive part that came with the unknown object is narrowed
        const r = restrict(v, k.mask);
        return new V.Val(r.p, r.c, keep, v.l);
    }

    // ---------- symbols ----------
    symbolOf(id) {
        let s = this.symCache.get(id);
        if (s !== undefined) return s;
        s = id.parent && ts.isShorthandPropertyAssignment(id.parent) ? this.checker.getShorthandAssignmentValueSymbol(id.parent) : this.checker.getSymbolAtLocation(id);
        this.symCache.set(id, s || null);
        return s || null;
    }
    importedFrom(sym) {
        // `import` of a module outside the repository -> its canonical name
        const d = sym.declarations && sym.declarations[0];
        if (!d) return null;
        let imp = d;
        while (imp && !ts.isImportDeclaration(imp) && !ts.isSourceFile(imp)) imp = imp.parent;
        if (!imp || !ts.isImportDeclaration(imp)) return null;
        const spec = imp.moduleSpecifier.text;
        if (spec.startsWith('.') || spec.startsWith('@curong/')) return null;
        const m = spec.replace(/^node:/, '').replace(/\//g, '.');
        if (ts.isImportSpecifier(d)) { const nm = (d.propertyName || d.name).text; return nm === 'default' ? m : `${m}.${nm}`; }
        return m;
    }
    enclosingFn(node) {
        for (let n = node.parent; n; n = n.parent) if (ts.isFunctionLike(n) || ts.isPropertyDeclaration(n) && false) return n;
        return null;
    }
    isCaptured(sym, declFn) {
        // referenced from a function nested in the one that declares it
        let set = this.capturedCache.get(declFn);
        if (!set) {
            set = new Set();
            const visit = (n, inner) => {
                if (ts.isIdentifier(n) && inner) {
                    const s = this.symbolOf(n);
                    if (s) set.add(s);
                }
                ts.forEachChild(n, c => visit(c, inner || (ts.isFunctionLike(c) && c !== declFn) || ts.isClassLike(c)));
            };
            visit(declFn, false);
            this.capturedCache.set(declFn, set);
        }
        return set.has(sym);
    }
    // assigned by a function nested in the one that declares it (then its value is not a matter of the declaring function's flow)
    nestedAssigned(sym, declFn) {
        let set = this.nestedCache.get(declFn);
        if (!set) {
            set = new Set();
            const add = t => {
                t = skip(t);
                if (ts.isIdentifier(t)) { const s = this.symbolOf(t); if (s) set.add(s); }
                else if (ts.isArrayLiteralExpression(t)) t.elements.forEach(x => add(ts.isSpreadElement(x) ? x.expression : ts.isBinaryExpression(x) ? x.left : x));
                else if (ts.isObjectLiteralExpression(t)) t.properties.forEach(p => add(ts.isShorthandPropertyAssignment(p) ? p.name : p.initializer || p.name));
            };
            const visit = (n, inner) => {
                if (inner) {
                    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) add(n.left);
                    else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) add(n.operand);
                    else if ((ts.isForOfStatement(n) || ts.isForInStatement(n)) && !ts.isVariableDeclarationList(n.initializer)) add(n.initializer);
                }
                ts.forEachChild(n, c => visit(c, inner || (ts.isFunctionLike(c) && c !== declFn) || ts.isClassLike(c)));
            };
            visit(declFn, false);
            this.nestedCache.set(declFn, set);
        }
        return set.has(sym);
    }
    // a captured variable that is no longer assigned once a function that captures it exists: such functions see the value it
    // has when they are created
    settled(sym, declFn) {
        let info = this.settledCache.get(declFn);
        if (!info) {
            const uses = new Map(), writes = new Map(), add = (m, k, v) => { if (!m.has(k)) m.set(k, []); m.get(k).push(v); };
            const target = (t, at) => {
                t = skip(t);
                if (ts.isIdentifier(t)) { const s = this.symbolOf(t); if (s) add(writes, s, at); }
                else if (ts.isArrayLiteralExpression(t)) t.elements.forEach(x => target(ts.isSpreadElement(x) ? x.expression : ts.isBinaryExpression(x) ? x.left : x, at));
                else if (ts.isObjectLiteralExpression(t)) t.properties.forEach(p => target(ts.isShorthandPropertyAssignment(p) ? p.name : p.initializer || p.name, at));
            };
            const visit = (n, outer) => {
                if (outer) { if (ts.isIdentifier(n)) { const s = this.symbolOf(n); if (s) add(uses, s, outer); } } else if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) target(n.left, n);
                else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) target(n.operand, n);
                else if ((ts.isForOfStatement(n) || ts.isForInStatement(n)) && !ts.isVariableDeclarationList(n.initializer)) target(n.initializer, n);
                else if (ts.isVariableDeclaration(n) || ts.isBindingElement(n)) { if (ts.isIdentifier(n.name)) { const s = this.symbolOf(n.name); let at = n; while (ts.isBindingElement(at) || ts.isObjectBindingPattern(at) || ts.isArrayBindingPattern(at)) at = at.parent; if (s) add(writes, s, ts.isVariableDeclaration(at) && (ts.isForOfStatement(at.parent.parent) || ts.isForInStatement(at.parent.parent)) ? at.parent.parent.initializer : at); } }
                ts.forEachChild(n, c => visit(c, outer || ((ts.isFunctionLike(c) && c !== declFn) || ts.isClassLike(c) ? c : null)));
            };
            visit(declFn, null);
            info = { uses, writes, memo: new Map() };
            this.settledCache.set(declFn, info);
        }
        if (info.memo.has(sym)) return info.memo.get(sym);
        const us = info.uses.get(sym) || [], ws = info.writes.get(sym) || [];
        const loops = n => { const out = []; for (let p = n.parent; p && p !== declFn; p = p.parent) if (ts.isIterationStatement(p, false)) out.push(p); return out; };
        const r = us.every(f => (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) && !ts.isParameter(f.parent) && f.pos >= declFn.body.pos
            && ws.every(w => w.end <= f.getStart() && !loops(f).some(l => w.pos >= l.pos && w.end <= l.end && !(l.initializer && w === l.initializer) && !this.declaredIn(sym, l))));
        info.memo.set(sym, r);
        return r;
    }
    // a block-scoped variable of one turn of the loop
    declaredIn(sym, l) {
        const d = sym.valueDeclaration;
        return !!d && ts.isVariableDeclaration(d) && d.parent.flags & ts.NodeFlags.BlockScoped && l.statement && d.pos >= l.statement.pos && d.end <= l.statement.end;
    }
    settle(node, st) {
        if (!this.frame || !st) return;
        const fn = this.frame.fnNode;
        if (!fn || this.enclosingFn(node) !== fn) return;
        let syms = this.capturesCache.get(node);
        if (!syms) {
            const set = new Set();
            const visit = n => { if (ts.isIdentifier(n)) { const s = this.symbolOf(n); if (s && this.declFnOf(s) === fn) set.add(s); } ts.forEachChild(n, visit); };
            visit(node);
            syms = [...set];
            this.capturesCache.set(node, syms);
        }
        const env = syms.length && this.findEnv(this.frame.env, fn);
        if (!env) return;
        for (const sym of syms) {
            if (!st.vars.has(sym) || !this.flowLocal(sym, fn) || !this.settled(sym, fn)) continue;
            const val = st.vars.get(sym), old = env.cells.get(sym);
            const j = old ? joinW(old, val) : val;
            if (!old || j.sig !== old.sig) { env.cells.set(sym, j); this.ver++; }
        }
    }
    flowLocal(sym, fn) {
        return this.frame && fn === this.frame.fnNode && !(this.isCaptured(sym, fn) && this.nestedAssigned(sym, fn));
    }
    declFnOf(sym) {
        const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
        if (!d) return null;
        if (ts.isParameter(d)) return d.parent;
        return this.enclosingFn(d);
    }
    findEnv(env, fnNode) {
        for (let e = env; e; e = e.parent) if (e.fnNode === fnNode) return e;
        return null;
    }
    readVar(id, st) {
        const sym = this.symbolOf(id);
        if (!sym) { if (id.text === 'undefined') return UNDEF; return V.obj(this.builtin(id.text)); }
        if (id.text === 'undefined') return UNDEF;
        return this.readSym(sym, st, id);
    }
    readSym(sym0, st, node) {
        const ext = sym0.flags & ts.SymbolFlags.Alias ? this.importedFrom(sym0) : null;
        if (ext) {
            const i = ext.lastIndexOf('.');
            const c = i > 0 && builtins.constant(ext.slice(0, i), ext.slice(i + 1));
            return c ? c(this, node) : V.obj(this.builtin(ext));
        }
        const sym = this.prog.resolve(sym0);
        const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
        if (!d) return this.unknownV(node, 'nodecl');
        if (!this.prog.isRepo(d)) {
            const g = builtins.globalConst(sym.name);
            if (g) return g;
            return V.obj(this.builtin(sym.name));
        }
        if (ts.isSourceFile(d)) return this.moduleNs(sym, d);
        if (ts.isModuleDeclaration(d) || d.getSourceFile().isDeclarationFile) return V.obj(this.builtin(sym.name));
        if (ts.isVariableDeclaration(d) && ts.getCombinedModifierFlags(d) & ts.ModifierFlags.Ambient) return V.obj(this.builtin(sym.name));
        if (ts.isFunctionDeclaration(d) && !d.body) {
            const impl = (sym.declarations || []).find(x => x.body);
            if (!impl) return V.obj(this.builtin(sym.name));
            return V.obj(this.closure(impl, this.frame ? this.frame.env : this.moduleEnv));
        }
        if (ts.isFunctionDeclaration(d)) {
            const f = V.obj(this.closure(d, this.frame ? this.frame.env : this.moduleEnv));
            return f;
        }
        if (ts.isClassDeclaration(d)) return V.obj(this.classObj(d));
        if (ts.isFunctionExpression(d) || ts.isArrowFunction(d)) return V.obj(this.closure(d, this.frame ? this.frame.env : this.moduleEnv));
        if (ts.isClassExpression(d)) return V.obj(this.classObj(d));
        if (ts.isExportAssignment(d)) return this.moduleVal(sym, d, d.expression);
        if (ts.isEnumDeclaration(d)) return this.unknownV(d, 'enum');
        const fn = this.declFnOf(sym);
        if (!fn) return this.moduleVar(sym, d);
        if (this.flowLocal(sym, fn) && st) {
            if (st.vars.has(sym)) return st.vars.get(sym);
            return UNDEF;
        }
        const env = this.findEnv(this.frame ? this.frame.env : null, fn);
        if (env) return env.cells.get(sym) || UNDEF;
        return BOT;
    }
    moduleNs(sym, sf) {
        const key = 'ns:' + sf.fileName;
        let o = this.moduleObjs.get(key);
        if (!o) {
            o = new Obj(key, 'alloc', 'Object', { t: 'M', name: this.prog.rel(sf.fileName) }, sf);
            this.moduleObjs.set(key, o);
            for (const e of this.checker.getExportsOfModule(this.checker.getSymbolAtLocation(sf))) {
                const r = this.prog.resolve(e);
                if (r.flags & ts.SymbolFlags.Value) o.fields.set(e.name, this.readSym(r, null, sf));
            }
        }
        return V.obj(o);
    }
    moduleVar(sym, d) {
        // module-level variable; `let` ones accumulate every assigned value
        if (this.moduleCells.has(sym)) return this.moduleCells.get(sym);
        let root = d;
        while (ts.isBindingElement(root) || ts.isObjectBindingPattern(root) || ts.isArrayBindingPattern(root)) root = root.parent;
        if (!root.initializer) { const v = UNDEF; this.moduleCells.set(sym, v); return v; }
        if (this.moduleBusy.has(root)) return BOT;
        this.moduleBusy.add(root);
        this.evalModule(`${this.prog.rel(d.getSourceFile().fileName)}#${root.name.getText()}`, root, () => {
            const st = new State();
            const v = this.ev(root.initializer, st);
            this.bindPattern(root.name, v, st, true);
        });
        this.moduleBusy.delete(root);
        return this.moduleCells.get(sym) || BOT;
    }
    moduleVal(sym, d, expr) {
        if (this.moduleCells.has(sym)) return this.moduleCells.get(sym);
        if (this.moduleBusy.has(d)) return BOT;
        this.moduleBusy.add(d);
        let v = BOT;
        this.evalModule(`${this.prog.rel(d.getSourceFile().fileName)}#default`, d, () => { v = this.ev(expr, new State()); });
        this.moduleBusy.delete(d);
        this.moduleCells.set(sym, v);
        return v;
    }
    evalModule(name, node, f) {
        // module initialisers run once, independent of the entry being analysed
        const save = { stack: this.stack, events: this.events, memo: this.memo, envs: this.envs, frame: this.frame, mn: this.moduleName, im: this.inModule };
        this.stack = [];
        this.events = new Map();
        this.memo = new Map();
        this.envs = this.moduleEnvs || (this.moduleEnvs = new Map());
        this.moduleName = name;
        this.inModule = save.im + 1;
        this.frame = { fnNode: null, env: this.moduleEnv, ctx: 'm:' + name, ret: BOT, throwStates: [], guards: [], loops: [], thrown: BOT, mayThrow: false };
        try {
            let v0;
            let i = 0;
            do { v0 = this.ver; this.memo = new Map(); f(); } while (this.ver !== v0 && ++i < 4);
        } finally {
            for (const e of this.events.values()) this.moduleEvents.push({ ...e, moduleInit: name });
            Object.assign(this, { stack: save.stack, events: save.events, memo: save.memo, envs: save.envs, frame: save.frame, moduleName: save.mn, inModule: save.im });
        }
    }
    writeSym(sym, val, st, node, init) {
        const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
        const fn = this.declFnOf(sym);
        if (!fn) {
            const old = this.moduleCells.get(sym);
            if (!init && !this.inModule && !this.dirtyCells.has(sym)) this.dirtyCells.set(sym, old || UNDEF);
            const j = old ? joinW(old, val) : val;
            if (!old || j.sig !== old.sig) { this.moduleCells.set(sym, j); this.ver++; }
            if (!init) this.event('modvar', node, { key: sym.name, sym, decl: d });
            return;
        }
        if (st.fw.size && sym.curongId) st.dropFacts(k => k.startsWith(`p:${sym.curongId}.`));
        if (this.flowLocal(sym, fn)) { st.vars.set(sym, val); if (!this.isCaptured(sym, fn)) return; if (this.settled(sym, fn)) { if (sym.curongId) this.wrote('v' + sym.curongId); return; } }
        if (sym.curongId) this.wrote('v' + sym.curongId);
        const env = this.findEnv(this.frame.env, fn);
        if (!env) return;
        if (env.isModule && !this.inModule && !init) {
            // a variable of a function that ran at module initialisation: as long-lived as the module
            if (!this.dirtyEnv.has(env)) this.dirtyEnv.set(env, new Map(env.cells));
            this.event('modvar', node, { key: sym.name, sym, decl: d });
        }
        const old = env.cells.get(sym);
        const j = old ? joinW(old, val) : val;
        if (!old || j.sig !== old.sig) { env.cells.set(sym, j); this.ver++; }
    }

    // ---------- functions ----------
    closure(node, env) {
        // keep only the part of the environment chain the function can see
        let e = env;
        const encl = this.enclosingFn(node);
        while (e && e.fnNode !== encl && e.fnNode !== null) e = e.parent;
        if (!e) e = this.moduleEnv;
        const key = `fn:${this.nid(node)}@${e.key}`;
        const map = e.fnNode === null ? this.moduleObjs : this.objs;
        let o = map.get(key);
        if (!o) { o = new Obj(key, 'func', 'Function', e.fnNode === null ? { t: 'M', name: this.fnName(node) } : { t: 'F', name: '' }, node); o.env = e; map.set(key, o); }
        return o;
    }
    fnName(n) {
        if (!n) return '(module)';
        if (n.name) return n.name.getText();
        if (n.parent && ts.isVariableDeclaration(n.parent)) return n.parent.name.getText();
        return `(anonymous ${this.prog.pos(n)})`;
    }
    classObj(node) {
        const key = 'cls:' + this.nid(node);
        let o = this.moduleObjs.get(key);
        if (!o) {
            o = new Obj(key, 'class', 'Function', { t: 'M', name: node.name ? node.name.text : 'class' }, node);
            o.env = this.frame ? this.frame.env : this.moduleEnv;
            this.moduleObjs.set(key, o);
        }
        return o;
    }
    argAt(args, i) {
        if (i < args.list.length) return args.list[i];
        if (args.rest) return join(args.rest, UNDEF);
        return UNDEF;
    }
    callFn(fo, thisV, args, node) {
        const fn = fo.node;
        if (this.hooks.onCall) { const r = this.hooks.onCall(this, fo, thisV, args, node); if (r) return r; }
        if (this.stack.length > 80) { this.incomplete = true; return this.unknownV(node, 'deep'); }
        if (++this.steps > 60000) { this.incomplete = true; return this.unknownV(node, 'budget'); }
        let depth = 0;
        for (const f of this.stack) if (f.fnNode === fn) depth++;
        let a = args;
        // a function called from the one it is written in is analysed per caller of that one
        const ctx = (this.frame && fo.env && fo.env.fnNode === this.frame.fnNode && this.frame.ctx.length < 24 ? this.frame.ctx + '>' : '') + (node ? String(this.nid(node)) : '0');
        let memoKey, m, arrs = null;
        if (depth >= (this.traces ? 6 : 1)) {
            // deep recursion: one context per function, with the join of everything it is called with
            memoKey = `${fo.key}|REC${this.inModule ? '|' + this.moduleName : ''}`;
            m = this.memo.get(memoKey);
            if (!m) { m = { ret: BOT, returns: false, mayThrow: false, thrown: BOT, rec: null, recThis: BOT }; this.memo.set(memoKey, m); }
            const prev = m.rec;
            const n = Math.max(args.list.length, prev ? prev.list.length : 0);
            const list = [];
            for (let i = 0; i < n; i++) list.push(widen(prev ? joinW(this.argAt(prev, i), this.argAt(args, i)) : args.list[i]));
            const rest = prev && prev.rest ? (args.rest ? join(prev.rest, args.rest) : prev.rest) : args.rest;
            const changed = !prev || list.some((x, i) => !prev.list[i] || x.sig !== prev.list[i].sig) || (rest && (!prev.rest || rest.sig !== prev.rest.sig));
            m.rec = a = { list, rest: rest && widen(rest) };
            m.recThis = thisV = join(m.recThis, thisV);
            if (changed) { if (m.iter === this.iter) this.ver++; }
            if (m.busy || (!changed && m.iter === this.iter)) { this.wrote('*'); this.callTr(m); if (this.frame && m.mayThrow) this.noteThrow(m.thrown, node, m.reasons || NOREASONS); return m.ret; }
        } else {
            if (this.unroll && this.curSt && this.curSt.arr && this.curSt.arr.size && !fn.asteriskToken && !(ts.getCombinedModifierFlags(fn) & ts.ModifierFlags.Async)) arrs = this.curSt.arr;
            memoKey = `${fo.key}|${thisV.sig}|${a.list.map(x => x.sig).join(';')}|${a.rest ? a.rest.sig : ''}|${ctx}${this.inModule ? '|' + this.moduleName : ''}${this.hooks.reasons && this.catching && this.catching.length ? this.catchKey() : ''}${arrs ? '|A' + [...arrs].map(([o, v]) => `${o.id}:${seqSig(v)}`).join('/') : ''}`;
            m = this.memo.get(memoKey);
            if (m && m.iter === this.iter) { if (m.busy) this.wrote('*'); if (m.writes) for (const n of m.writes) this.wrote(n); this.callTr(m); if (this.frame && m.mayThrow) this.noteThrow(m.thrown, node, m.reasons || NOREASONS); if (!m.returns && !m.busy) this.callDead = true; return m.ret; }
        }
        if (!m) { m = { ret: BOT, returns: false, mayThrow: false, thrown: BOT }; this.memo.set(memoKey, m); }
        m.shares = !!arrs;
        m.iter = this.iter;
        m.busy = true;
        const writes0 = this.writes;
        this.visitedFns.add(fn);
        let env = this.envs.get(memoKey);
        if (!env) { env = new Env(memoKey, fn, fo.env); env.isModule = !!this.inModule; this.envs.set(memoKey, env); }
        env.thisV = ts.isArrowFunction(fn) ? (this.findThis(fo.env) || BOT) : thisV;
        const frame = { fnNode: fn, env, ctx: ctx, callNode: node, ret: BOT, throwStates: [], guards: [], loops: [], thrown: BOT, mayThrow: false, returns: false, args: a, yields: BOT };
        const saveFrame = this.frame;
        this.frame = frame;
        this.stack.push(frame);
        const st = new State(), cs0 = this.curSt;
        if (this.traces) { st.tr = EPS; frame.trOut = NOTR; frame.trThrow = NOTR; this.curSt = st; }
        if (this.unroll) { this.curSt = st; frame.arrIn = arrs; frame.arrSeen = new Set(); st.arr = arrs && new Map(arrs); }
        this.bindParams(fn, a, st, node);
        const isAsync = !!(ts.getCombinedModifierFlags(fn) & ts.ModifierFlags.Async);
        const isGen = !!fn.asteriskToken;
        let endState;
        if (ts.isBlock(fn.body)) {
            endState = this.execBlock(fn.body.statements, st);
            if (!endState.dead) { frame.ret = join(frame.ret, UNDEF); frame.returns = true; this.arrOut(UNDEF, frame, endState); if (st.tr) frame.trOut = orTr(frame.trOut, endState.tr); if (this.hooks.onReturn) this.hooks.onReturn(this, frame, UNDEF, null, endState); }
        } else {
            const v = this.ev(fn.body, st);
            if (isAsync && !st.dead) this.awaitTr(v, [...v.o].some(o => o.later));
            if (!st.dead) { frame.ret = join(frame.ret, v); frame.returns = true; if (st.tr) frame.trOut = orTr(frame.trOut, st.tr); this.arrOut(v, frame, st); if (this.hooks.onReturn) this.hooks.onReturn(this, frame, v, fn.body, st); }
        }
        this.stack.pop();
        this.frame = saveFrame;
        this.curSt = cs0;
        let ret = frame.ret;
        m.completes = m.completes || frame.returns;
        if (isGen) {
            const it = this.alloc(node || fn, 'Iterator', 'gen' + this.nid(fn));
            this.addRest(it, frame.yields);
            ret = V.obj(it);
        } else if (isAsync) {
            if (this.unroll && !m.id) m.id = this.memoIds = (this.memoIds || 0) + 1;
            ret = this.promise(node || fn, ret, 'async' + this.nid(fn) + (this.unroll ? '#' + m.id : ''));
            if (this.hooks.reasons) for (const o of ret.o) { if (frame.reasons) this.addRejects(o, frame.reasons); for (const x of frame.ret.o) this.addRejects(o, this.rejects(x)); }
            for (const o of ret.o) if (!o.mayReject && (frame.mayThrow || [...frame.ret.o].some(x => x.mayReject))) { o.mayReject = true; this.ver++; }
            frame.returns = true;
            frame.mayThrow = false;
            if (this.traces) {
                const { pre, post } = splitTr(orTr(frame.trOut, new Set([...frame.trThrow].map(w => catWord(w, '!')))), frame.trWaits || NOTR);
                frame.trOut = pre;
                frame.trThrow = NOTR;
                for (const o of ret.o) { const l = orTr(o.later, post); if (!o.later || l.size !== o.later.size) { o.later = l; this.ver++; } }
            }
        }
        if (this.traces) {
            const o = orTr(m.trOut || NOTR, frame.trOut), t = orTr(m.trThrow || NOTR, frame.trThrow);
            if (!m.trOut || o.size !== m.trOut.size || t.size !== m.trThrow.size) { if (m.trOut || o.size || t.size) this.ver++; m.trOut = o; m.trThrow = t; }
        }
        if (this.unroll && (m.arrOut || frame.arrOut)) {
            const sig = frame.arrOut ? [...frame.arrOut].map(([o, v]) => o.id + ':' + seqSig(v)).join() : '';
            if (sig !== m.arrSig) { m.arrSig = sig; this.ver++; }
            m.arrOut = frame.arrOut;
        }
        m.busy = false;
        if (this.writes !== writes0) { m.writes = m.writes || new Set(); for (const [n, w] of this.wlog) if (w > writes0) m.writes.add(n); }
        const j = joinW(m.ret, ret);
        if (j.sig !== m.ret.sig || m.returns !== (m.returns || frame.returns) || m.mayThrow !== (m.mayThrow || frame.mayThrow)) { m.ret = j; this.ver++; }
        m.returns = m.returns || frame.returns;
        m.mayThrow = m.mayThrow || frame.mayThrow;
        m.thrown = join(m.thrown, frame.thrown);
        if (frame.reasons && !isAsync) { if (!m.reasons) m.reasons = new Map(); for (const [k, n] of frame.reasons) if (!m.reasons.has(k)) { m.reasons.set(k, n); this.ver++; } }
        this.callTr(m);
        if (this.frame && m.mayThrow) this.noteThrow(m.thrown, node, m.reasons || NOREASONS);
        if (!m.returns) this.callDead = true;
        return m.ret;
    }
    // the calls a function makes follow those made before it was called
    callTr(m) {
        const st = this.curSt;
        this.arrIn(m);
        if (!this.traces || !st || !st.tr) return;
        if (m.mayThrow && this.frame) this.throwTr = seqTr(st.tr, m.trThrow || NOTR);
        st.tr = seqTr(st.tr, m.trOut || NOTR);
    }
    // waiting: what was still to be done by the promises waited for is done then
    seqTr(a, b) { return seqTr(a, b); }
    awaitTr(v, inAsync) {
        const st = this.curSt;
        if (!this.traces || !st || !st.tr) return;
        if (inAsync && this.frame) {
            const now = new Set([...st.tr].filter(w => !/(^| ; )~( ; |$)/.test(w)));
            if (now.size) {
                this.frame.trWaits = orTr(this.frame.trWaits, now);
                st.tr = new Set([...st.tr].map(w => (now.has(w) ? catWord(w, '~') : w)));
            }
        }
        const ls = [...v.o].filter(o => o.later);
        if (!ls.length) return;
        let later = ls.length < v.o.size || v.p ? EPS : NOTR;
        for (const o of ls) later = orTr(later, o.later);
        st.tr = seqTr(st.tr, later);
    }
    // what f does happens or not
    maybe(f) {
        const st = this.curSt;
        if (!this.traces || !st || !st.tr) return f();
        const t = st.tr, a = st.arr;
        st.arr = null;
        const r = f();
        st.tr = orTr(t, st.tr);
        st.arr = a;
        return r;
    }
    // what f does happens any number of times
    repeated(f) {
        const st = this.curSt;
        if (!this.traces || !st || !st.tr) return f();
        const t = st.tr, a = st.arr;
        st.tr = EPS;
        st.arr = null; // what it changes is not followed
        const r = f();
        st.arr = a;
        const one = st.tr;
        let all = EPS;
        for (let i = 0; i <= LONG; i++) all = orTr(all, seqTr(all, one));
        st.tr = seqTr(t, all);
        return r;
    }
    either(f, g) {
        const st = this.curSt;
        if (!this.traces || !st || !st.tr) { f(); g(); return; }
        const t = st.tr, arr = st.arr;
        st.arr = null;
        f();
        const a = st.tr;
        st.tr = t;
        st.arr = null;
        g();
        st.tr = orTr(a, st.tr);
        st.arr = arr;
    }
    findThis(env) {
        for (let e = env; e; e = e.parent) if (e.fnNode && !ts.isArrowFunction(e.fnNode)) return e.thisV;
        return null;
    }
    // why: 'kind:name' of what throws here, or the reasons of a call
    noteThrow(v, node, why) {
        const f = this.frame;
        if (!f) return;
        const t = f.throwStates[f.throwStates.length - 1];
        if (this.traces) {
            const w = this.throwTr || (this.curSt && this.curSt.tr) || NOTR;
            this.throwTr = null;
            if (t) t.tr = orTr(t.tr || NOTR, w);
            else f.trThrow = orTr(f.trThrow, w);
        }
        if (t) { t.val = join(t.val, v); t.hit = true; }
        else { f.mayThrow = true; f.thrown = join(f.thrown, v); }
        if (this.hooks.reasons) {
            const to = t || f;
            if (!to.reasons) to.reasons = new Map();
            if (why instanceof Map) for (const [k, n] of why) { if (!to.reasons.has(k)) to.reasons.set(k, n); }
            else { const k = why || 'other'; if (!to.reasons.has(k)) to.reasons.set(k, node); }
        }
    }
    // some call of the function ended normally
    // can a call end with something else than a promise that rejects?
    endsPlainly(fo) {
        for (const [k, m] of this.memo) if (k.startsWith(fo.key + '|') && m.completes && (m.ret.p || [...m.ret.o].some(o => !(o.cls === 'Promise' && this.rejects(o).size)))) return true;
        return false;
    }
    canReturn(fo) {
        for (const [k, m] of this.memo) if (k.startsWith(fo.key + '|') && m.completes) return true;
        return false;
    }
    // a failure reported while another one is being handled carries that one on
    // what is being handled while a function is called from a handler
    catchKey() {
        const ks = new Set();
        for (const m of this.catching) for (const k of m.keys()) ks.add(k);
        return '|c' + [...ks].sort().join(',');
    }
    passOn(to) {
        for (const m of this.catching || []) for (const [k, n] of m) if (!to.has(k)) to.set(k, n);
    }
    // what can reject a promise
    rejects(o) {
        const r = new Map(o.reasons || []);
        if (o.extName) r.set('ext:' + o.extName, o.node);
        else if (o.lazy && ['P', 'R', 'C'].includes(o.org.t)) r.set('callback:' + o.org.name, o.node);
        return r;
    }
    addRejects(o, m) {
        if (!m || !m.size) return;
        if (!o.reasons) o.reasons = new Map();
        for (const [k, n] of m) if (!o.reasons.has(k)) { o.reasons.set(k, n); this.ver++; }
    }
    bindParams(fn, args, st, node) {
        let i = 0;
        for (const p of fn.parameters) {
            if (p.name.text === 'this') continue;
            let v;
            if (p.dotDotDotToken) {
                const sharp = this.unroll && !args.rest && !/\|REC/.test(this.frame.env.key) && args.list.slice(i).map(x => x.sig).join(';');
                const arr = this.alloc(p, 'Array', sharp && sharp.length < 200 ? `rest#${sharp}` : 'rest');
                let k = 0;
                for (const x of args.list.slice(i)) this.setProp(V.obj(arr), String(k++), x, p, 'init');
                if (args.rest) this.addRest(arr, args.rest);
                if (!args.rest) this.track(arr, args.list.slice(i));
                v = V.obj(arr);
            } else {
                v = this.argAt(args, i);
                if (p.initializer && v.p & U) {
                    const rest = restrict(v, ALLP & ~U);
                    const dv = this.ev(p.initializer, st);
                    v = join(rest, dv);
                }
            }
            this.bindPattern(p.name, v, st, true);
            i++;
        }
    }
    bindPattern(name, v, st, init) {
        if (ts.isIdentifier(name)) {
            const sym = this.checker.getSymbolAtLocation(name);
            if (sym) this.writeSym(sym, v, st, name, init);
            return;
        }
        if (ts.isObjectBindingPattern(name)) {
            const used = [];
            for (const e of name.elements) {
                if (e.dotDotDotToken) {
                    const o = this.alloc(e, 'Object', 'restprops');
                    this.copyInto(o, v, e);
                    this.shadowFrom(o, e, new Set(used));
                    for (const u of used) if (!o.fields.has(u)) o.fields.set(u, UNDEF);
                    this.bindPattern(e.name, V.obj(o), st, init);
                    continue;
                }
                const key = e.propertyName ? this.propName(e.propertyName, st) : e.name.text;
                if (key !== null) used.push(key);
                let x = this.getProp(v, key, e);
                x = this.narrow(x, e.name);
                if (e.initializer && x.p & U) x = join(restrict(x, ALLP & ~U), this.ev(e.initializer, st));
                this.bindPattern(e.name, x, st, init);
            }
            return;
        }
        // array pattern
        name.elements.forEach((e, i) => {
            if (ts.isOmittedExpression(e)) return;
            let x;
            if (e.dotDotDotToken) {
                const o = this.alloc(e, 'Array', 'restelems');
                this.addRest(o, this.elements(v, e));
                x = V.obj(o);
            } else {
                x = this.iterNth(v, i, e);
                x = this.narrow(x, e.name);
                if (e.initializer && x.p & U) x = join(restrict(x, ALLP & ~U), this.ev(e.initializer, st));
            }
            this.bindPattern(e.name, x, st, init);
        });
    }
    iterNth(v, i, node) {
        let r = BOT;
        for (const o of v.o) {
            if (o.cls === 'Array' && o.kind === 'alloc') r = join(r, this.getObjProp(o, String(i), node));
            else r = join(r, join(this.elements(V.obj(o), node), UNDEF));
        }
        if (v.p & STR) r = join(r, mk(STR | U, null, EMPTY, v.l));
        return r;
    }
    assignTo(target, v, st, node) {
        target = skip(target);
        if (ts.isIdentifier(target)) {
            const s = this.symbolOf(target);
            if (s) this.writeSym(this.prog.resolve(s), v, st, node || target, false);
            return;
        }
        if (ts.isPropertyAccessExpression(target) || ts.isElementAccessExpression(target)) {
            const recv = this.ev(target.expression, st);
            const keys = ts.isPropertyAccessExpression(target) ? [target.name.text] : this.keysOf(this.ev(target.argumentExpression, st));
            if (keys) {
                const w1 = this.writes;
                for (const k of keys) this.setProp(recv, k, v, node || target);
                st.dropFacts(k => this.factKilled(k, w1));
                const pk = this.pathKey(target);
                if (pk) { st.vars.set(pk, v); st.fw.set(pk, this.writes); }
            } else {
                this.setProp(recv, null, v, node || target);
                if (this.hooks.onDynWrite) this.hooks.onDynWrite(this, target, recv, this.ev(target.argumentExpression, st), st);
            }
            return;
        }
        if (ts.isArrayLiteralExpression(target)) {
            target.elements.forEach((e, i) => {
                if (ts.isOmittedExpression(e)) return;
                if (ts.isSpreadElement(e)) return this.assignTo(e.expression, v, st, node);
                if (ts.isBinaryExpression(e)) return this.assignTo(e.left, join(this.iterNth(v, i, e), this.ev(e.right, st)), st, node);
                this.assignTo(e, this.iterNth(v, i, e), st, node);
            });
            return;
        }
        if (ts.isObjectLiteralExpression(target)) {
            for (const p of target.properties) {
                if (ts.isShorthandPropertyAssignment(p)) this.assignTo(p.name, this.getProp(v, p.name.text, p), st, node);
                else if (ts.isPropertyAssignment(p)) this.assignTo(ts.isBinaryExpression(p.initializer) ? p.initializer.left : p.initializer, this.getProp(v, this.propName(p.name, st), p), st, node);
            }
        }
    }
    keysOf(v) {
        // the finite set of property names a key expression can denote, or null
        const c = consts(v);
        if (!c || c.length > 24 || c.length === 0) return null;
        return c.map(String);
    }
    propName(n, st) {
        if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isPrivateIdentifier(n)) return n.text;
        if (ts.isComputedPropertyName(n)) {
            const ks = st ? this.keysOf(this.ev(n.expression, st)) : null;
            return ks && ks.length === 1 ? ks[0] : null;
        }
        return n.getText();
    }
    // keys a value certainly provides when it is spread; and: does it provide only the keys it lists?
    sureKeys(x, target) { const [s] = x.o; if (x.o.size === 1 && !x.p && this.kinds && s.host !== undefined && typeof s.host === 'object') return new Set(Object.keys(s.host)); return x.o.size === 1 && !x.p && s !== target && !s.lazy && s.own && s.kind === 'alloc' ? s.own : null; }
    closedObj(x) { return !x.p && [...x.o].every(s => this.kinds && s.host !== undefined || !s.lazy && s.kind === 'alloc' && !s.spread.length && s.rest.isBot()); }
    assignAll(o, sources, node) {
        let open = false;
        const shadow = new Set();
        sources.forEach((s, i) => {
            const skip = new Set();
            for (const x of sources.slice(i + 1)) { const k = this.sureKeys(x, o); if (k) for (const y of k) skip.add(y); }
            this.copyInto(o, s, node, skip);
            if (!this.closedObj(s)) { open = true; shadow.clear(); }
            const k = this.sureKeys(s, o);
            if (k) for (const y of k) shadow.add(y);
        });
        this.shadowFrom(o, node, open ? shadow : null);
    }
    // keys no longer taken from what was spread into an object: those every spreading place agrees on (null: it spreads nothing)
    shadowFrom(o, site, keys) {
        if (!o.shadowBy) o.shadowBy = new Map();
        o.shadowBy.set(site, keys);
        let r = null;
        for (const s of o.shadowBy.values()) if (s) r = r === null ? new Set(s) : new Set([...r].filter(k => s.has(k)));
        o.shadow = r || new Set();
    }
    copyInto(o, v, node, skip) {
        // `{...v}` / Object.assign(o, v)
        this.saveObj(o);
        for (const s of v.o) {
            if (s === o) continue;
            if (s.kind === 'builtin' || s.kind === 'func') continue;
            if (this.kinds && s.host !== undefined && typeof s.host === 'object') {
                for (const k of Object.keys(s.host)) { if (skip && skip.has(k)) continue; const f = this.kinds.lift(s.host[k]); const old = o.fields.get(k); const j = old ? join(old, f) : f; if (!old || j.sig !== old.sig) { o.fields.set(k, j); this.ver++; } }
            } else if (s.lazy || s.kind === 'atom') { if (!o.spread.includes(s)) { o.spread.push(s); this.ver++; } }
            else {
                for (const [k, f] of s.fields) {
                    if (skip && skip.has(k)) continue;
                    const old = o.fields.get(k);
                    const j = old ? join(old, f) : f;
                    if (!old || j.sig !== old.sig) { o.fields.set(k, j); this.ver++; }
                }
                this.addRest(o, s.rest);
                for (const x of s.spread) if (!o.spread.includes(x)) { o.spread.push(x); this.ver++; }
            }
        }
    }

    // ---------- statements ----------
    execBlock(stmts, st) {
        // function declarations are hoisted: closures are created on reference
        for (const s of stmts) {
            if (st.dead) break;
            st = this.exec(s, st);
        }
        return st;
    }
    afterStmt(st) {
        const f = this.frame;
        const t = f && f.throwStates[f.throwStates.length - 1];
        if (t && !st.dead) t.states.push(st.clone());
    }
    exec(s, st) {
        const cs = this.curSt;
        this.curSt = st;
        const r = this.exec0(s, st);
        this.curSt = cs;
        if (this.frame && this.frame.throwStates.length) this.afterStmt(r);
        return r;
    }
    exec0(s, st) {
        switch (s.kind) {
            case K.Block:
                return this.execBlock(s.statements, st);
            case K.VariableStatement:
            case K.VariableDeclarationList: {
                const list = s.kind === K.VariableStatement ? s.declarationList : s;
                for (const d of list.declarations) {
                    if (d.initializer) {
                        let v = this.ev(d.initializer, st);
                        if (st.dead) return st;
                        if (d.type) v = this.narrowT(v, this.checker.getTypeFromTypeNode(d.type));
                        this.bindPattern(d.name, v, st, true);
                    } else if (ts.isIdentifier(d.name)) this.bindPattern(d.name, UNDEF, st, true);
                }
                return st;
            }
            case K.ExpressionStatement:
                this.ev(s.expression, st);
                return st;
            case K.ReturnStatement: {
                const v = s.expression ? this.ev(s.expression, st) : UNDEF;
                if (!st.dead) {
                    const f = this.frame;
                    if (this.traces && f.fnNode.modifiers && ts.getCombinedModifierFlags(f.fnNode) & ts.ModifierFlags.Async) this.awaitTr(v, [...v.o].some(o => o.later));
                    f.ret = join(f.ret, v);
                    f.returns = true;
                    if (st.tr) f.trOut = orTr(f.trOut, st.tr);
                    this.arrOut(v, f, st);
                    f.nret = (f.nret || 0) + 1;
                    if (this.hooks.onReturn) this.hooks.onReturn(this, f, v, s, st);
                    for (const t of f.throwStates) if (t.finallyStates) t.finallyStates.push(st.clone());
                }
                st.dead = true;
                return st;
            }
            case K.ThrowStatement: {
                const v = this.ev(s.expression, st);
                if (!st.dead) {
                    if (this.hooks.onThrow) this.hooks.onThrow(this, v, s, st);
                    const f = this.frame;
                    const t = f.throwStates[f.throwStates.length - 1];
                    if (this.hooks.reasons) { const to = t || f; if (!to.reasons) to.reasons = new Map(); const k = 'throw:' + this.prog.pos(s).replace(/:\d+:\d+$/, ''); if (!to.reasons.has(k)) to.reasons.set(k, s); this.passOn(to.reasons); }
                    if (t) { t.val = join(t.val, v); t.hit = true; t.states.push(st.clone()); }
                    else { f.mayThrow = true; f.thrown = join(f.thrown, v); this.event('throw', s, { key: '', val: v, merge: e => (e.val = join(e.val, v)) }); }
                }
                st.dead = true;
                return st;
            }
            case K.IfStatement: {
                const [a, b] = this.branch(s.expression, st);
                const ra = a ? this.guarded(s.expression, true, () => this.exec(s.thenStatement, a)) : null;
                const rb = b ? (s.elseStatement ? this.guarded(s.expression, false, () => this.exec(s.elseStatement, b)) : b) : null;
                return joinStates([ra, rb]);
            }
            case K.ForStatement: {
                if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) st = this.exec0(s.initializer, st); else this.ev(s.initializer, st); }
                return this.loop(s, st, s.condition, s.statement, x => { if (s.incrementor) this.ev(s.incrementor, x); return x; }, false);
            }
            case K.WhileStatement:
                return this.loop(s, st, s.expression, s.statement, x => x, false);
            case K.DoStatement:
                return this.loop(s, st, s.expression, s.statement, x => x, true);
            case K.ForOfStatement:
            case K.ForInStatement: {
                const v = this.ev(s.expression, st);
                if (st.dead) return st;
                const el = s.kind === K.ForInStatement ? this.forInKeys(v) : this.elements(s.awaitModifier ? this.awaited(v, s) : v, s);
                const bindTo = (x, el) => {
                    if (ts.isVariableDeclarationList(s.initializer)) {
                        let e2 = el;
                        if (s.kind === K.ForOfStatement) e2 = this.narrow(el, s.initializer.declarations[0].name);
                        this.bindPattern(s.initializer.declarations[0].name, e2, x, true);
                    } else this.assignTo(s.initializer, el, x, s);
                };
                // every element is known: one turn for each
                const each = this.unroll && s.kind === K.ForOfStatement && !s.awaitModifier && this.positional(v);
                if (each && each.length <= UNROLL) return this.unrolled(s, st, each.map(x => y => bindTo(y, x)));
                return this.loop(s, st, null, s.statement, x => x, false, x => bindTo(x, el));
            }
            case K.SwitchStatement: {
                const v = this.ev(s.expression, st);
                if (st.dead) return st;
                const L = { node: s, breaks: [], continues: null };
                this.frame.loops.push(L);
                let fall = null;
                let rest = st;
                const cases = s.caseBlock.clauses;
                const di = cases.findIndex(c => c.kind === K.DefaultClause);
                const entries = [];
                for (const c of cases) {
                    if (c.kind === K.DefaultClause) { entries.push(null); continue; }
                    if (!rest) { entries.push(undefined); continue; }
                    const tmp = rest.clone();
                    const cv = this.ev(c.expression, tmp);
                    const eq = this.strictEq(v, cv);
                    const tr = truthy(eq);
                    if (tr.t) { const b = rest.clone(); this.refineEq(s.expression, cv, b, true); entries.push(b.dead ? undefined : b); } else entries.push(undefined);
                    if (tr.f) { rest = rest.clone(); this.refineEq(s.expression, cv, rest, false); if (rest.dead) rest = null; } else rest = null;
                }
                if (di >= 0) entries[di] = rest || undefined;
                cases.forEach((c, i) => {
                    const ins = [fall, entries[i]].filter(Boolean);
                    if (!ins.length) { fall = null; return; }
                    let x = joinStates(ins).clone();
                    if (x.dead) { fall = null; return; }
                    x = this.execBlock(c.statements, x);
                    fall = x.dead ? null : x;
                });
                this.frame.loops.pop();
                const outs = [...L.breaks];
                if (fall) outs.push(fall);
                if (di < 0 && rest) outs.push(rest);
                return joinStates(outs);
            }
            case K.TryStatement:
                return this.execTry(s, st);
            case K.BreakStatement:
            case K.ContinueStatement: {
                const loops = this.frame.loops;
                for (let i = loops.length - 1; i >= 0; i--) {
                    const L = loops[i];
                    if (s.label ? L.label === s.label.text : s.kind === K.BreakStatement || L.continues) {
                        (s.kind === K.BreakStatement ? L.breaks : L.continues).push(st.clone());
                        break;
                    }
                }
                st.dead = true;
                return st;
            }
            case K.LabeledStatement: {
                this.pendingLabel = s.label.text;
                const isLoop = ts.isIterationStatement(s.statement, false);
                if (isLoop) return this.exec(s.statement, st);
                const L = { node: s, label: s.label.text, breaks: [], continues: null };
                this.pendingLabel = null;
                this.frame.loops.push(L);
                const r = this.exec(s.statement, st);
                this.frame.loops.pop();
                return joinStates([r, ...L.breaks]);
            }
            case K.EmptyStatement:
            case K.FunctionDeclaration:
            case K.InterfaceDeclaration:
            case K.TypeAliasDeclaration:
            case K.ModuleDeclaration:
                return st;
            case K.ClassDeclaration:
                return st;
            default:
                this.unresolved.add('stmt:' + K[s.kind]);
                return st;
        }
    }
    guarded(cond, val, f) {
        this.frame.guards.push({ cond, val });
        try { return f(); } finally { this.frame.guards.pop(); }
    }
    loop(s, st, cond, body, upd, doFirst, bindEach) {
        if (this.hooks.onLoop) this.hooks.onLoop(this, s);
        const L = { node: s, label: this.pendingLabel, breaks: [], continues: [] };
        this.pendingLabel = null;
        this.frame.loops.push(L);
        let head = st;
        let exit = null;
        let firstBreaks = [];
        const known = []; // breaks of the turns that are run one by one
        if (this.unroll && cond) {
            for (let n = 0; n < UNROLL && !head.dead; n++) {
                L.breaks = [];
                L.continues = [];
                let inS = head.clone();
                if (!(doFirst && n === 0)) {
                    const [a, b] = this.branch(cond, inS);
                    if (!a) { this.frame.loops.pop(); return joinStates([b, ...known]); }
                    if (b) break;
                    inS = a;
                }
                let after = joinStates([this.exec(body, inS), ...L.continues]);
                if (!after.dead) after = upd(after);
                known.push(...L.breaks);
                head = after;
                if (doFirst) doFirst = n < 0;
            }
            L.breaks = [];
            L.continues = [];
            if (head.dead) { this.frame.loops.pop(); return joinStates([head, ...known]); }
            head = head.clone();
        }
        for (let n = 0; n < 40; n++) {
            L.breaks = [];
            L.continues = [];
            let inS, outS;
            if (doFirst && n === 0) { inS = head.clone(); outS = null; }
            else if (cond) { const [a, b] = this.branch(cond, head.clone()); inS = a; outS = b; }
            else if (s.kind === K.ForOfStatement || s.kind === K.ForInStatement) { inS = head.clone(); outS = head.clone(); }
            else { inS = head.clone(); outS = null; }
            if (inS && bindEach) bindEach(inS);
            let after = inS && !inS.dead ? this.exec(body, inS) : null;
            after = joinStates([after, ...L.continues]);
            if (!after.dead) after = upd(after);
            exit = [outS, ...L.breaks];
            // the first turn always runs: what follows it starts from its end, not from the state before the loop
            if (n === 0 && !doFirst && cond && (!outS || outS.dead)) doFirst = true;
            let nh;
            if (doFirst && n === 0) nh = after.dead ? after : after;
            else nh = joinStates([head, after]);
            if (n >= 3 && !nh.dead) {
                const w = nh === head ? nh : nh.clone();
                for (const [k, v] of w.vars) { const h = head.vars.get(k); if (h && h.sig !== v.sig) w.vars.set(k, widen(v)); }
                nh = w;
            }
            if (nh.dead) { if (!exit.some(x => x && !x.dead)) exit = [nh]; break; }
            if (!(doFirst && n === 0) && sameState(nh, head)) break;
            head = nh.clone();
            if (doFirst && n === 0) firstBreaks = L.breaks;
        }
        this.frame.loops.pop();
        return joinStates([...exit, ...firstBreaks, ...known]);
    }
    unrolled(s, st, turns) {
        const L = { node: s, label: this.pendingLabel, breaks: [], continues: [] };
        this.pendingLabel = null;
        this.frame.loops.push(L);
        const breaks = [];
        for (const bind of turns) {
            if (st.dead) break;
            L.breaks = [];
            L.continues = [];
            bind(st);
            st = joinStates([this.exec(s.statement, st), ...L.continues]);
            breaks.push(...L.breaks);
        }
        this.frame.loops.pop();
        return joinStates([st, ...breaks]);
    }
    execTry(s, st) {
        const f = this.frame;
        const entry = st.clone(), out0 = f.trOut;
        if (st.tr && s.finallyBlock) f.trOut = NOTR;
        const T0 = { states: this.kinds ? [] : [st.clone()], val: BOT, hit: false, finallyStates: s.finallyBlock ? [] : null };
        f.throwStates.push(T0);
        const tryEnd = this.exec(s.tryBlock, st);
        f.throwStates.pop();
        let out = [tryEnd];
        let escaped = null;
        if (s.catchClause && !T0.hit && (entry.tr || !T0.states.length)) {
            // nothing in the block can throw
        } else if (s.catchClause) {
            const cs = joinStates(T0.states.length ? T0.states : [entry]).clone();
            cs.arr = null;
            if (st.tr && T0.hit) { cs.tr = T0.tr; cs.dead = false; }
            const T1 = s.finallyBlock ? { states: [], val: BOT, hit: false, finallyStates: T0.finallyStates } : null;
            if (T1) f.throwStates.push(T1);
            if (!cs.dead) {
                if (s.catchClause.variableDeclaration) this.bindPattern(s.catchClause.variableDeclaration.name, join(T0.val, this.unknownV(s.catchClause, 'caught')), cs, true);
                const r0 = f.nret || 0;
                (this.catching || (this.catching = [])).push(T0.reasons || NOREASONS);
                const ce = this.exec(s.catchClause.block, cs);
                this.catching.pop();
                if (this.hooks.onCaught && (!ce.dead || (f.nret || 0) > r0) && !(this.handed && this.handed.has(T0.reasons))) {
                    // returning a promise that rejects with the failure passes it on
                    let rs = T0.reasons || NOREASONS;
                    if (ce.dead && rs.size) { rs = new Map(rs); for (const o of f.ret.o) for (const k of this.rejects(o).keys()) rs.delete(k); }
                    if (!(ce.dead && T0.reasons && T0.reasons.size && !rs.size)) this.hooks.onCaught(this, s.catchClause, rs, f);
                }
                out.push(ce);
            }
            if (T1) { f.throwStates.pop(); escaped = T1; }
        } else escaped = T0;
        if (s.finallyBlock) {
            const normal = joinStates(out);
            const all = joinStates([normal, ...(T0.finallyStates || []), ...(escaped ? escaped.states : [])]);
            const fst = all.clone();
            fst.arr = null;
            if (fst.tr) fst.tr = EPS;
            const fin = this.exec(s.finallyBlock, fst);
            if (entry.tr) {
                const ft = fin.dead ? NOTR : fin.tr;
                f.trOut = orTr(out0, seqTr(f.trOut, ft));
                if (escaped && escaped.hit) this.throwTr = seqTr(escaped.tr || NOTR, ft);
                if (!normal.dead) fin.tr = seqTr(normal.tr, ft);
            }
            if (escaped && escaped.hit) this.noteThrow(escaped.val, s, escaped.reasons || NOREASONS);
            if (normal.dead) { fin.dead = true; return fin; }
            return fin;
        }
        return joinStates(out);
    }

    // ---------- branching ----------
    branch(e, st) {
        // returns [state if true | null, state if false | null]
        const x = skip(e);
        if (ts.isPrefixUnaryExpression(x) && x.operator === K.ExclamationToken) { const [a, b] = this.branch(x.operand, st); return [b, a]; }
        if (ts.isBinaryExpression(x)) {
            const op = x.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken) {
                const [a, b] = this.branch(x.left, st);
                if (!a) return [null, b];
                const [c, d] = this.guarded(x.left, true, () => this.branch(x.right, a));
                return [c, this.jn(b, d)];
            }
            if (op === K.BarBarToken) {
                const [a, b] = this.branch(x.left, st);
                if (!b) return [a, null];
                const [c, d] = this.guarded(x.left, false, () => this.branch(x.right, b));
                return [this.jn(a, c), d];
            }
        }
        const v = this.ev(e, st);
        if (st.dead) return [null, null];
        const { t, f } = truthy(v);
        let a = null, b = null;
        if (t) { a = st.clone(); this.refine(x, a, true); if (a.dead) a = null; }
        if (f) { b = st.clone(); this.refine(x, b, false); if (b.dead) b = null; }
        return [a, b];
    }
    jn(a, b) {
        if (!a) return b;
        if (!b) return a;
        return joinStates([a, b]);
    }
    // `a.b` / `a.b.c` on a variable: facts about it hold until the next write
    pathKey(e) {
        e = skip(e);
        if (!ts.isPropertyAccessExpression(e) || !ts.isIdentifier(e.name)) return null;
        const b = skip(e.expression);
        if (ts.isIdentifier(b)) {
            let s = this.symbolOf(b);
            if (!s || b.text === 'undefined') return null;
            s = this.prog.resolve(s);
            const d = s.valueDeclaration;
            if (!d || !(ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) || !this.prog.isRepo(d)) return null;
            if (!s.curongId) s.curongId = ++SYM_ID;
            return `p:${s.curongId}.${e.name.text}`;
        }
        const k = this.pathKey(b);
        return k && k.split('.').length < 3 ? `${k}.${e.name.text}` : null;
    }
    refKey(e, st) {
        const s = this.localSym(e);
        if (s) return s;
        const x = skip(e);
        const k = this.pathKey(x);
        if (!k) return null;
        if (!st.vars.has(k)) {
            const v = this.quiet(() => this.ev(x, st.clone()));
            if (v.isBot()) return null;
            st.vars.set(k, v);
            st.fw.set(k, this.writes);
        }
        return k;
    }
    quiet(f) {
        const save = this.events, sd = this.callDead, th = this.frame && this.frame.throwStates, mt = this.frame && this.frame.mayThrow, tv = this.frame && this.frame.thrown, hk = this.hooks;
        this.events = new Map();
        if (this.frame) this.frame.throwStates = [];
        try { return f(); } finally { this.events = save; this.callDead = sd; if (this.frame) { this.frame.throwStates = th; this.frame.mayThrow = mt; this.frame.thrown = tv; } }
    }
    localSym(e) {
        e = skip(e);
        if (!ts.isIdentifier(e)) return null;
        const s = this.symbolOf(e);
        if (!s) return null;
        const fn = this.declFnOf(s);
        if (!fn || !this.flowLocal(s, fn)) return null;
        return s;
    }
    refineTo(e, st, f) {
        const s = this.refKey(e, st);
        if (!s || !st.vars.has(s)) return;
        const nv = f(st.vars.get(s));
        if (nv.p === 0 && nv.o.size === 0) { st.dead = true; return; }
        st.vars.set(s, nv);
    }
    refine(x, st, want) {
        if (ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) return this.refineTo(x, st, v => filterTruthy(v, want));
        if (ts.isBinaryExpression(x)) {
            let op = x.operatorToken.kind;
            let eq = null, strict = true;
            if (op === K.EqualsEqualsEqualsToken) eq = want;
            else if (op === K.ExclamationEqualsEqualsToken) eq = !want;
            else if (op === K.EqualsEqualsToken) { eq = want; strict = false; }
            else if (op === K.ExclamationEqualsToken) { eq = !want; strict = false; }
            if (op === K.EqualsToken) return this.refine(skip(x.left), st, want);
            if (eq !== null) {
                for (const [l, r] of [[x.left, x.right], [x.right, x.left]]) {
                    const L = skip(l);
                    const rv = this.peek(r, st);
                    if (!rv) continue;
                    if (ts.isTypeOfExpression(L)) {
                        const c = consts(rv);
                        if (c && c.length === 1) this.refineTo(L.expression, st, v => this.filterTypeof(v, c[0], eq));
                    } else if (strict) this.refineEq(l, rv, st, eq);
                    else {
                        const c = consts(rv);
                        if (c && c.length === 1 && c[0] == null) this.refineTo(l, st, v => (eq ? new V.Val(v.p & (U | N), NOC, EMPTY, v.l) : restrict(v, ALLP & ~(U | N))));
                    }
                }
            }
            return;
        }
        if (ts.isCallExpression(x)) {
            // a call that decides a property of one local: keep only the parts for which it can have the wanted answer
            const callee = skip(x.expression);
            if (x.arguments.length >= 1 && !x.questionDotToken) {
                const arg = x.arguments[0];
                const s = this.refKey(arg, st);
                if (s && st.vars.has(s)) {
                    const v = st.vars.get(s);
                    const sig = this.checker.getResolvedSignature(x);
                    const d = sig && sig.declaration;
                    const pred = sig && this.checker.getTypePredicateOfSignature(sig);
                    const isRepoFn = d && this.prog.isRepo(d) && ts.isFunctionLike(d);
                    if ((pred || isRepoFn) && !(v.o.size === 1 && v.p === 0)) {
                        const parts = this.parts(v);
                        if (parts.length > 1 && parts.length < 16) {
                            let keep = BOT;
                            for (const p of parts) {
                                const tmp = st.clone();
                                tmp.vars.set(s, p);
                                const save = this.events; const sd = this.callDead;
                                this.events = new Map();
                                let r;
                                try { r = this.ev(x, tmp); } finally { this.events = save; this.callDead = sd; }
                                const q = truthy(r);
                                if (tmp.dead) continue;
                                if (want ? q.t : q.f) keep = join(keep, p);
                            }
                            if (keep.p === 0 && keep.o.size === 0) st.dead = true;
                            else st.vars.set(s, keep);
                        }
                    }
                }
            }
        }
    }
    parts(v) {
        const out = [];
        for (let b = 1; b <= 128; b <<= 1) if (v.p & b) { const r = restrict(v, b); out.push(new V.Val(r.p, r.c, EMPTY, v.l)); }
        for (const o of v.o) out.push(new V.Val(0, NOC, new Set([o]), v.l));
        return out;
    }
    peek(e, st) {
        // value of an expression without side effects of interest
        const x = skip(e);
        if (ts.isStringLiteralLike(x)) return konst(x.text);
        if (ts.isNumericLiteral(x)) return konst(Number(x.text));
        if (x.kind === K.NullKeyword) return NULLV;
        if (x.kind === K.TrueKeyword) return TRUE;
        if (x.kind === K.FalseKeyword) return FALSE;
        if (ts.isIdentifier(x)) return this.readVar(x, st);
        if (ts.isVoidExpression(x)) return UNDEF;
        if (ts.isPrefixUnaryExpression(x) && x.operator === K.MinusToken && ts.isNumericLiteral(x.operand)) return konst(-Number(x.operand.text));
        return null;
    }
    refineEq(e, cv, st, eq) {
        const c = consts(cv);
        if (!c) return;
        if (eq)
            this.refineTo(e, st, v => {
                let r = BOT;
                for (const k of c) {
                    const kv = konst(k);
                    if (Number.isNaN(k)) continue;
                    if (v.p & kv.p) {
                        if (kv.p & CONSTK && v.c !== null && ![...v.c.values()].some(z => z === k)) continue;
                        r = join(r, kv);
                    }
                }
                return withL(r, v.l);
            });
        else if (c.length === 1)
            this.refineTo(e, st, v => {
                const k = c[0];
                if (k === undefined) return restrict(v, ALLP & ~U);
                if (k === null) return restrict(v, ALLP & ~N);
                if (k === true) return restrict(v, ALLP & ~T);
                if (k === false) return restrict(v, ALLP & ~F);
                if (v.c) { const c2 = new Map([...v.c].filter(([, z]) => z !== k)); return new V.Val(V.keepKinds(v.p, c2) , c2, v.o, v.l); }
                return v;
            });
    }
    typeofSet(v) {
        const r = new Set();
        if (v.p & U) r.add('undefined');
        if (v.p & N) r.add('object');
        if (v.p & (T | F)) r.add('boolean');
        if (v.p & NUM) r.add('number');
        if (v.p & STR) r.add('string');
        if (v.p & BIG) r.add('bigint');
        if (v.p & SYM) r.add('symbol');
        for (const o of v.o) for (const t of this.typeofObj(o)) r.add(t);
        return r;
    }
    typeofObj(o) {
        if (o.typeofs) return o.typeofs;
        if (o.kind === 'func' || o.kind === 'class' || o.kind === 'bound' || o.kind === 'native') return ['function'];
        if (o.kind === 'builtin') return builtins.typeofBuiltin(o.name);
        if (o.lazy) { if (o.cls === 'Function') return ['function']; if (o.cls !== 'Unknown') return ['object']; return ['object', 'function']; }
        return ['object'];
    }
    filterTypeof(v, t, want) {
        let p = v.p;
        const mask = { undefined: U, object: N, boolean: T | F, number: NUM, string: STR, bigint: BIG, symbol: SYM, function: 0 }[t];
        if (mask === undefined) return v;
        const r = restrict(v, want ? mask : ALLP & ~mask);
        const os = new Set();
        for (const o of v.o) { const ty = this.typeofObj(o); if (want ? ty.includes(t) : ty.some(y => y !== t)) os.add(o); }
        return new V.Val(r.p, r.c, os, v.l);
    }

    // ---------- expressions ----------
    ev(e, st) {
        if (st.dead) return BOT;
        const w0 = this.writes, cs = this.curSt;
        this.curSt = st;
        const v = this.ev0(e, st);
        this.curSt = cs;
        if (this.writes !== w0 && st.fw.size) st.dropFacts((k, w) => w <= w0 && this.factKilled(k, w0));
        if (this.callDead) { this.callDead = false; st.dead = true; return BOT; }
        return v;
    }
    ev0(e, st) {
        switch (e.kind) {
            case K.ParenthesizedExpression:
            case K.NonNullExpression:
            case K.SatisfiesExpression:
                return this.ev(e.expression, st);
            case K.AsExpression:
            case K.TypeAssertionExpression:
                return this.ev(e.expression, st);
            case K.Identifier: {
                const v = this.readVar(e, st);
                if (this.hooks.onRead) this.hooks.onRead(this, e, v);
                return v;
            }
            case K.ThisKeyword: {
                const t = this.frame ? (this.frame.env.fnNode && ts.isArrowFunction(this.frame.env.fnNode) ? this.findThis(this.frame.env) : this.frame.env.thisV) : BOT;
                return t && !t.isBot() ? t : UNDEF;
            }
            case K.StringLiteral:
            case K.NoSubstitutionTemplateLiteral:
                return konst(e.text);
            case K.NumericLiteral:
                return konst(Number(e.text));
            case K.BigIntLiteral:
                return konst(BigInt(e.text.replace(/n$/, '')));
            case K.TrueKeyword:
                return TRUE;
            case K.FalseKeyword:
                return FALSE;
            case K.NullKeyword:
                return NULLV;
            case K.RegularExpressionLiteral: {
                const o = this.alloc(e, 'RegExp');
                o.regex = e.text;
                return V.obj(o);
            }
            case K.TemplateExpression: {
                let parts = [konst(e.head.text)];
                for (const s of e.templateSpans) { parts.push(this.ev(s.expression, st)); parts.push(konst(s.literal.text)); }
                return this.concat(parts, e);
            }
            case K.ArrayLiteralExpression: {
                const items = [];
                for (const x of e.elements) {
                    if (ts.isOmittedExpression(x)) { items.push({ x, hole: true }); continue; }
                    if (!ts.isSpreadElement(x)) { items.push({ x, v: this.ev(x, st) }); continue; }
                    const sv = this.ev(x.expression, st);
                    if (this.hooks.onSpread) this.hooks.onSpread(this, x, sv, st);
                    items.push({ x, sv, kn: this.positional(sv) });
                }
                if (this.unroll && !this.inModule && items.every(y => y.v || y.kn)) {
                    // arrays with different elements are different arrays
                    const vals = items.flatMap(y => y.kn || [y.v]), sig = seqSig(vals);
                    if (sig.length < 300) {
                        const o = this.alloc(e, 'Array', 'lit#' + sig);
                        vals.forEach((v, i) => this.setProp(V.obj(o), String(i), v, e, 'init'));
                        this.track(o, vals);
                        return V.obj(o);
                    }
                }
                const o = this.alloc(e, 'Array');
                let i = 0, fixed = true;
                for (const { x, hole, v, sv, kn } of items) {
                    if (hole) { i++; continue; }
                    if (sv) {
                        if (fixed && kn) { for (const y of kn) this.setProp(V.obj(o), String(i++), y, x, 'init'); continue; }
                        this.addRest(o, this.narrow(this.elements(sv, x), x));
                        (o.sizeOf || (o.sizeOf = [])).push([sv, x.expression, true]);
                        fixed = false;
                        continue;
                    }
                    if (fixed) this.setProp(V.obj(o), String(i++), v, x, 'init');
                    else this.addRest(o, v);
                }
                return V.obj(o);
            }
            case K.ObjectLiteralExpression: {
                const o = this.alloc(e, 'Object');
                // evaluate in order, then write: a key a later spread certainly provides is overridden, one it may provide is joined
                const ops = [];
                for (const p of e.properties) {
                    if (ts.isSpreadAssignment(p)) { ops.push({ spread: this.ev(p.expression, st), p }); continue; }
                    if (ts.isMethodDeclaration(p)) { ops.push({ key: this.propName(p.name, st), v: V.obj(this.closure(p, this.frame.env)), p }); continue; }
                    if (ts.isGetAccessor(p)) { ops.push({ key: this.propName(p.name, st), v: this.callFn(this.closure(p, this.frame.env), V.obj(o), { list: [], rest: null }, p), p }); continue; }
                    if (ts.isSetAccessor(p)) continue;
                    const key = ts.isShorthandPropertyAssignment(p) ? p.name.text : this.propName(p.name, st);
                    ops.push({ key, v: ts.isShorthandPropertyAssignment(p) ? this.readVar(p.name, st) : this.ev(p.initializer, st), p, plain: true });
                }
                const sure = x => this.sureKeys(x, o), closed = x => this.closedObj(x);
                const shadow = new Set();
                let open = false;
                ops.forEach((op, i) => {
                    if (op.spread) {
                        this.copyInto(o, op.spread, op.p, new Set(ops.slice(i + 1).filter(x => x.plain && x.key !== null).map(x => x.key)));
                        const sh = sure(op.spread);
                        if (!closed(op.spread)) { open = true; shadow.clear(); }
                        if (sh) for (const k of sh) shadow.add(k);
                        return;
                    }
                    if (op.key !== null && ops.slice(i + 1).some(x => x.spread && sure(x.spread) && sure(x.spread).has(op.key))) return;
                    this.setProp(V.obj(o), op.key, op.v, op.p, 'init');
                    if (op.plain && op.key !== null) { shadow.add(op.key); (o.initKeys || (o.initKeys = new Set())).add(op.key); }
                });
                this.shadowFrom(o, e, open ? shadow : null);
                o.own = new Set(shadow);
                return V.obj(o);
            }
            case K.ArrowFunction:
            case K.FunctionExpression:
                this.settle(e, st);
                return V.obj(this.closure(e, this.frame ? this.frame.env : this.moduleEnv));
            case K.ClassExpression:
                return V.obj(this.classObj(e));
            case K.PropertyAccessExpression:
            case K.ElementAccessExpression: {
                const recv = this.ev(e.expression, st);
                return this.accessOn(e, recv, st);
            }
            case K.CallExpression:
                return this.evCall(e, st);
            case K.NewExpression:
                return this.evNew(e, st);
            case K.PrefixUnaryExpression:
                return this.evPrefix(e, st);
            case K.PostfixUnaryExpression: {
                const old = this.ev(e.operand, st);
                const num = this.toNum(old);
                const c = consts(num);
                const d = e.operator === K.PlusPlusToken ? 1 : -1;
                const nv = c && c.every(x => typeof x === 'number') ? withL(joinAll(c.map(x => konst(x + d))), old.l) : mk(NUM | (old.p & BIG), null, EMPTY, old.l);
                this.assignTo(e.operand, nv, st, e);
                return num;
            }
            case K.TypeOfExpression: {
                const v = this.ev(e.expression, st);
                return joinAll([...this.typeofSet(v)].map(konst));
            }
            case K.VoidExpression:
                this.ev(e.expression, st);
                return UNDEF;
            case K.DeleteExpression: {
                const t = skip(e.expression);
                const recv = this.ev(t.expression, st);
                const ks = ts.isPropertyAccessExpression(t) ? [t.name.text] : this.keysOf(this.ev(t.argumentExpression, st));
                for (const k of ks || ['[]']) this.mutate(recv, k, e, 'delete');
                for (const o of recv.o) if (o.own) { if (ks) for (const k of ks) o.own.delete(k); else o.own.clear(); }
                for (const o of recv.o) if (ks) for (const k of ks) if (o.kind === 'alloc') { const old = o.fields.get(k); const j = old ? join(old, UNDEF) : UNDEF; if (o.shadow && o.shadow.has(k) || o.spread.length) { if (!old || old.sig !== j.sig) { o.fields.set(k, j); this.ver++; } } }
                return BOOL;
            }
            case K.AwaitExpression: {
                const v = this.ev(e.expression, st);
                this.wrote('*');
                this.awaitTr(v, true);
                if (this.hooks.onAwait) this.hooks.onAwait(this, e, v, st);
                if (st.tr) {
                    // the words that end in a failure belong to the failing case alone
                    const ok = new Set([...st.tr].filter(w => !w.endsWith('!')));
                    if (ok.size && ok.size < st.tr.size) { this.throwTr = new Set([...st.tr].filter(w => w.endsWith('!'))); st.tr = ok; if (![...v.o].some(o => o.mayReject)) this.throwTr = null; }
                }
                for (const o of v.o) if (o.cls === 'Promise' && (o.mayReject || this.hooks.reasons && o.reasons && o.reasons.size)) this.noteThrow(BOT, e, this.rejects(o));
                if (this.hooks.reasons) for (const o of v.o) if (o.lazy || o.extName) this.noteThrow(BOT, e, this.rejects(o));
                return this.narrow(this.awaited(v, e), e);
            }
            case K.YieldExpression: {
                const v = e.expression ? this.ev(e.expression, st) : UNDEF;
                this.frame.yields = join(this.frame.yields || BOT, v);
                return this.unknownV(e, 'yield');
            }
            case K.ConditionalExpression: {
                const [a, b] = this.branch(e.condition, st);
                let r = BOT;
                const outs = [];
                if (a) { const v = this.guarded(e.condition, true, () => this.ev(e.whenTrue, a)); if (!a.dead) { r = join(r, v); outs.push(a); } }
                if (b) { const v = this.guarded(e.condition, false, () => this.ev(e.whenFalse, b)); if (!b.dead) { r = join(r, v); outs.push(b); } }
                const j = joinStates(outs);
                st.take(j);
                st.dead = j.dead;
                return r;
            }
            case K.BinaryExpression:
                return this.evBinary(e, st);
            case K.SpreadElement:
                return this.elements(this.ev(e.expression, st), e);
            case K.MetaProperty:
                return this.unknownV(e, 'meta');
            case K.TaggedTemplateExpression: {
                const f = this.ev(e.tag, st);
                const args = [this.unknownV(e, 'tpl')];
                if (ts.isTemplateExpression(e.template)) for (const s of e.template.templateSpans) args.push(this.ev(s.expression, st));
                return this.callValue(f, UNDEF, { list: args, rest: null }, e, st);
            }
            case K.SuperKeyword:
                return this.unknownV(e, 'super');
            case K.OmittedExpression:
                return UNDEF;
            default:
                this.unresolved.add('expr:' + K[e.kind]);
                return this.unknownV(e, 'expr');
        }
    }
    accessOn(e, recv, st) {
        const v = this.accessOn0(e, recv, st);
        if (st.fw.size && ts.isPropertyAccessExpression(e)) {
            const k = this.pathKey(e);
            if (k && st.fw.has(k)) return st.vars.get(k);
        }
        return v;
    }
    accessOn0(e, recv, st) {
        if (this.hooks.onAccess) this.hooks.onAccess(this, e, recv, st);
        if (e.questionDotToken || this.inChain(e)) {
            const nul = recv.p & (U | N);
            if (nul) {
                const r0 = restrict(recv, ALLP & ~(U | N));
                let key0 = null;
                if (ts.isElementAccessExpression(e)) { const ks = this.keysOf(this.ev(e.argumentExpression, st)); key0 = ks && ks.length === 1 ? ks[0] : null; } else key0 = e.name.text;
                const v = r0.isBot() ? BOT : this.getProp(r0, key0, e);
                return join(this.narrow(v, e), UNDEF);
            }
        }
        if (recv.p & (U | N) && this.hooks.onNullish) this.hooks.onNullish(this, e, recv, st);
        if (recv.o.size === 0 && recv.p && !(recv.p & ~(U | N))) {
            // definitely a TypeError
            this.noteThrow(BOT, e, 'type:');
            this.event('typeerror', e, { key: '' });
            this.callDead = true;
            return BOT;
        }
        let v;
        if (ts.isPropertyAccessExpression(e)) v = this.getProp(recv, e.name.text, e);
        else {
            const kv = this.ev(e.argumentExpression, st);
            let ks = this.keysOf(kv);
            if (!ks && this.kinds) { const k = this.kinds.lower(kv); if (k.ok) ks = [this.kinds.keyName(k.v)]; }
            if (ks) v = joinAll(ks.map(k => this.getProp(recv, k, e)));
            else v = withL(this.getProp(recv, null, e), EMPTY);
        }
        return this.narrow(v, e);
    }
    inChain(e) {
        // a?.b.c : the tail of an optional chain
        return !!(e.flags & ts.NodeFlags.OptionalChain);
    }
    toNum(v) {
        const c = consts(v);
        if (c && c.length && c.every(x => typeof x !== 'bigint')) return withL(joinAll(c.map(x => konst(Number(x)))), v.l);
        return mk(NUM | (v.p & BIG), null, EMPTY, this.labelsDeep(v));
    }
    concat(parts, node) {
        // string concatenation: constants fold, provenance of the first non-constant piece is the root, later pieces are segments
        if (this.exact) parts = parts.map(p => { const k = p.o.size === 1 && this.positional(p); const cs = k && k.map(consts); return cs && cs.every(c => c && c.length === 1) ? withL(konst(cs.map(c => (c[0] == null ? '' : String(c[0]))).join(',')), p.l) : p; });
        const cs = parts.map(consts);
        let l = EMPTY;
        let first = true;
        for (const p of parts) {
            const pl = this.labelsDeep(p);
            const c = consts(p);
            const isEmptyConst = c && c.length === 1 && c[0] === '';
            if (isEmptyConst) continue;
            if (pl.size) l = V.union(l, first ? pl : V.markAll(pl, '~seg'));
            first = false;
        }
        if (cs.every(c => c && c.length)) {
            let n = 1;
            for (const c of cs) n *= c.length;
            if (n <= 16) {
                let acc = [''];
                for (const c of cs) acc = acc.flatMap(a => c.map(x => a + String(x)));
                return withL(joinAll(acc.map(konst)), l);
            }
        }
        if (this.hooks.markDerived && parts.filter(p => { const c = consts(p); return !(c && c.length === 1 && c[0] === ''); }).length > 1) l = V.markAll(l, '~x');
        const r = mk(STR, null, EMPTY, l);
        return (this.hooks.onConcat && this.hooks.onConcat(this, node, parts, r)) || r;
    }
    evPrefix(e, st) {
        if (e.operator === K.ExclamationToken) {
            const [a, b] = this.branch(e.operand, st);
            const j = joinStates([a, b]);
            st.take(j);
            st.dead = j.dead;
            return join(a ? FALSE : BOT, b ? TRUE : BOT);
        }
        if (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) {
            const old = this.toNum(this.ev(e.operand, st));
            const c = consts(old);
            const d = e.operator === K.PlusPlusToken ? 1 : -1;
            const nv = c && c.every(x => typeof x === 'number') ? withL(joinAll(c.map(x => konst(x + d))), old.l) : mk(NUM | (old.p & BIG), null, EMPTY, old.l);
            this.assignTo(e.operand, nv, st, e);
            return nv;
        }
        const v = this.ev(e.operand, st);
        if (this.kinds) { const k = this.kinds.unary(e.operator, v, e); if (k) return k; }
        if (e.operator === K.PlusToken) return this.toNum(v);
        const n = this.toNum(v);
        const c = consts(n);
        if (c && c.every(x => typeof x === 'number')) return withL(joinAll(c.map(x => konst(e.operator === K.MinusToken ? -x : ~x))), v.l);
        return n;
    }
    strictEq(a, b) {
        let t = false, f = false;
        const ca = consts(a), cb = consts(b);
        if (ca && cb && ca.length && cb.length) {
            for (const x of ca) for (const y of cb) if (x === y) t = true; else f = true;
            return mk((t ? T : 0) | (f ? F : 0));
        }
        const common = a.p & b.p;
        if (common) {
            // some shared kind: equal possible unless constants are disjoint
            if (common & ~CONSTK) t = true;
            if (common & CONSTK) {
                if (a.c === null || b.c === null) t = true;
                else for (const x of a.c.values()) for (const y of b.c.values()) if (x === y) t = true;
            }
        }
        for (const x of a.o) for (const y of b.o) {
            if (x === y) t = true;
            else if (this.mayAlias(x, y)) t = true;
        }
        f = true;
        if (!common && a.o.size && b.o.size && a.p === 0 && b.p === 0 && a.o.size === 1 && b.o.size === 1) {
            const [x] = a.o, [y] = b.o;
            if (x === y && (x.kind === 'builtin' || x.kind === 'atom' || (x.kind === 'param' && x.depth === 0))) f = false;
        }
        if (a === b && a.p && !(a.p & (a.p - 1)) && a.o.size === 0 && !(a.p & CONSTK)) f = false;
        return mk((t ? T : 0) | (f ? F : 0));
    }
    mayAlias(x, y) {
        if (x.kind === 'atom' || y.kind === 'atom') {
            const [a, b] = x.kind === 'atom' ? [x, y] : [y, x];
            if (b.kind === 'atom') return false;
            if (a.sameAs) return b.kind === 'builtin' && a.sameAs === b.name || b.lazy && b.kind === 'x';
            return b.kind === 'x';
        }
        if (x.kind === 'builtin' && y.kind === 'builtin') return x.name === y.name;
        return x.lazy || y.lazy;
    }
    evBinary(e, st) {
        const op = e.operatorToken.kind;
        if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
            const lv0 = this.localSym(e.left) ? null : null;
            // value form
            const s0 = st.clone();
            const lv = this.ev(e.left, st);
            if (st.dead) return BOT;
            const tr = truthy(lv);
            const and = op === K.AmpersandAmpersandToken;
            const go = and ? tr.t : tr.f;
            const stay = and ? tr.f : tr.t;
            let r = BOT;
            const outs = [];
            if (stay) { r = join(r, filterTruthy(lv, !and)); const x = st.clone(); outs.push(x); }
            if (go) {
                const b = this.branch(e.left, s0);
                let x = and ? b[0] : b[1];
                if (x) {
                    const rv = this.guarded(e.left, and, () => this.ev(e.right, x));
                    if (!x.dead) { r = join(r, rv); outs.push(x); }
                }
            }
            const j = joinStates(outs);
            st.take(j);
            st.dead = j.dead;
            return r;
        }
        if (op === K.QuestionQuestionToken) {
            const lv = this.ev(e.left, st);
            if (st.dead) return BOT;
            let r = restrict(lv, ALLP & ~(U | N));
            if (lv.p & (U | N)) {
                const x = st.clone();
                const rv = this.ev(e.right, x);
                if (r.isBot()) { st.take(x); st.dead = x.dead; return rv; }
                if (!x.dead) { r = join(r, rv); const j = joinStates([st, x]); st.take(j); }
            }
            return r;
        }
        if (op === K.CommaToken) { this.ev(e.left, st); return this.ev(e.right, st); }
        if (op === K.EqualsToken) {
            // evaluate the target's parts through assignTo
            const v = this.ev(e.right, st);
            if (st.dead) return BOT;
            this.assignTo(e.left, v, st, e);
            return v;
        }
        if (op === K.BarBarEqualsToken || op === K.AmpersandAmpersandEqualsToken || op === K.QuestionQuestionEqualsToken) {
            const lv = this.ev(e.left, st);
            const x = st.clone();
            const rv = this.ev(e.right, x);
            if (!x.dead) { const j = joinStates([st, x]); st.take(j); }
            const v = op === K.BarBarEqualsToken ? join(filterTruthy(lv, true), rv) : op === K.QuestionQuestionEqualsToken ? join(restrict(lv, ALLP & ~(U | N)), rv) : join(filterTruthy(lv, false), rv);
            this.assignTo(e.left, v, st, e);
            return v;
        }
        if (op >= K.FirstCompoundAssignment && op <= K.LastCompoundAssignment) {
            const lv = this.ev(e.left, st);
            const rv = this.ev(e.right, st);
            const v = this.arith(this.compoundOp(op), lv, rv, e);
            this.assignTo(e.left, v, st, e);
            return v;
        }
        if (op === K.InstanceOfKeyword) return this.instanceOf(this.ev(e.left, st), this.ev(e.right, st));
        if (op === K.InKeyword) {
            this.ev(e.left, st);
            let kv = this.keysOf(this.ev(e.left, st));
            if (!kv && this.kinds) { const k = this.kinds.lower(this.ev(e.left, st)); if (k.ok) kv = [this.kinds.keyName(k.v)]; }
            const r = this.ev(e.right, st);
            if (r.p) { this.noteThrow(BOT, e, 'type:'); this.event('typeerror', e, { key: '' }); if (!r.o.size) { this.callDead = true; return BOT; } }
            if (r.o.size === 1 && kv && kv.length === 1) { const [o] = r.o; if (o.hasKey) { const h = o.hasKey(kv[0]); if (h !== undefined) return h ? TRUE : FALSE; } }
            return BOOL;
        }
        const a = this.ev(e.left, st);
        const b = this.ev(e.right, st);
        if (st.dead) return BOT;
        return this.arith(op, a, b, e);
    }
    compoundOp(op) {
        const m = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken, [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken, [K.AsteriskAsteriskEqualsToken]: K.AsteriskAsteriskToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken, [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken, [K.AmpersandEqualsToken]: K.AmpersandToken, [K.BarEqualsToken]: K.BarToken, [K.CaretEqualsToken]: K.CaretToken };
        return m[op];
    }
    arith(op, a, b, e) {
        if (this.kinds) { const k = this.kinds.arith(op, a, b, e); if (k) return k; }
        const l = V.union(this.labelsDeep(a), this.labelsDeep(b));
        switch (op) {
            case K.EqualsEqualsEqualsToken:
                return withL(this.strictEq(a, b), EMPTY);
            case K.ExclamationEqualsEqualsToken: {
                const r = this.strictEq(a, b);
                return mk((r.p & T ? F : 0) | (r.p & F ? T : 0));
            }
            case K.EqualsEqualsToken:
            case K.ExclamationEqualsToken: {
                const ca = consts(a), cb = consts(b);
                let t = false, f = false;
                if (ca && cb && ca.length && cb.length) { for (const x of ca) for (const y of cb) if (x == y) t = true; else f = true; } // eslint-disable-line eqeqeq
                else if (cb && cb.length === 1 && cb[0] == null) { t = !!(a.p & (U | N)) || [...a.o].some(o => o.htmldda); f = !!(a.p & ~(U | N)) || a.o.size > 0; }
                else t = f = true;
                if (op === K.ExclamationEqualsToken) [t, f] = [f, t];
                return mk((t ? T : 0) | (f ? F : 0));
            }
            case K.LessThanToken: case K.GreaterThanToken: case K.LessThanEqualsToken: case K.GreaterThanEqualsToken: {
                const ca = consts(a), cb = consts(b);
                const fold = (x, y) => (op === K.LessThanToken ? x < y : op === K.GreaterThanToken ? x > y : op === K.LessThanEqualsToken ? x <= y : x >= y);
                if (ca && cb && ca.length && cb.length) {
                    let t = false, f = false;
                    for (const x of ca) for (const y of cb) if (fold(x, y)) t = true; else f = true;
                    return mk((t ? T : 0) | (f ? F : 0));
                }
                return BOOL;
            }
            case K.PlusToken: {
                const ca = consts(a), cb = consts(b);
                if (ca && cb && ca.length && cb.length && ca.length * cb.length <= 16) {
                    try { return withL(joinAll(ca.flatMap(x => cb.map(y => konst(x + y)))), l); } catch { /* mixed bigint */ }
                }
                let p = 0;
                if (a.p & STR || b.p & STR || a.o.size || b.o.size) p |= STR;
                if (a.p & ~(STR | BIG) && b.p & ~(STR | BIG)) p |= NUM;
                if (a.p & BIG && b.p & BIG) p |= BIG;
                if ((a.p === 0 && a.o.size === 0) || (b.p === 0 && b.o.size === 0)) return BOT;
                if (p & STR) { const c = this.concat([a, b], e); return new V.Val(p, null, EMPTY, c.l); }
                return mk(p || NUM, null, EMPTY, l);
            }
            default: {
                const ca = consts(a), cb = consts(b);
                if (ca && cb && ca.length && cb.length && ca.length * cb.length <= 16) {
                    try { return withL(joinAll(ca.flatMap(x => cb.map(y => konst(foldArith(op, x, y))))), l); } catch { /* mixed bigint */ }
                }
                let p = NUM;
                if (a.p & BIG && b.p & BIG) p = (a.p & ~BIG) || (b.p & ~BIG) || a.o.size ? NUM | BIG : BIG;
                return mk(p, null, EMPTY, l);
            }
        }
    }
    instanceOf(v, cv) {
        let t = false, f = false;
        if (v.p) f = true;
        for (const o of v.o) {
            for (const c of cv.o.size ? cv.o : [null]) {
                const name = c && c.kind === 'builtin' ? c.name : null;
                if (!name) { t = f = true; if (c && c.kind === 'class' && o.kind === 'instance') { t = o.classNode === c.node; f = !t; } continue; }
                if (o.instanceOf) { const r = o.instanceOf(name); if (r === true) t = true; else if (r === false) f = true; else t = f = true; continue; }
                if (o.kind === 'func') { if (name === 'Function' || name === 'Object') t = true; else f = true; continue; }
                if (o.lazy) { if (o.cls === 'Unknown') t = f = true; else if (builtins.isSub(o.cls, name)) { t = true; f = true; } else { t = true; f = true; } continue; }
                if (builtins.isSub(o.cls, name)) t = true;
                else f = true;
            }
        }
        return mk((t ? T : 0) | (f ? F : 0));
    }
    forInKeys(v) {
        return mk(STR, null, EMPTY, V.markAll(this.labelsDeep(v), '~key'));
    }

    // ---------- calls ----------
    // the elements of an array whose every element is known
    positional(sv) {
        if (sv.p !== 0 || sv.o.size !== 1) return null;
        const [o] = sv.o;
        const t = o.site && this.tracked(o);
        if (t) return t.slice();
        if (o.kind !== 'alloc' || o.cls !== 'Array' || !o.rest.isBot() || o.spread.length || ![...o.fields.keys()].every(k => /^\d+$/.test(k))) return null;
        const r = [];
        for (let i = 0; i < o.fields.size; i++) r.push(o.fields.get(String(i)) || UNDEF);
        return r;
    }
    evArgs(nodes, st) {
        const list = [];
        let rest = null;
        const origin = [], spreadV = [];
        for (const a of nodes || []) {
            if (ts.isSpreadElement(a)) {
                const sv = this.ev(a.expression, st);
                spreadV.push([sv, a.expression]);
                if (this.hooks.onSpread) this.hooks.onSpread(this, a, sv, st);
                // spread of an array with known elements only
                const known = !rest && this.positional(sv);
                if (known) list.push(...known);
                else rest = rest ? join(rest, this.elements(sv, a)) : this.elements(sv, a);
                for (const o of sv.o) origin.push(o);
            } else {
                const v = this.ev(a, st);
                if (rest) rest = join(rest, v);
                else list.push(v);
            }
            if (st.dead) break;
        }
        return spreadV.length ? { list, rest, spreadOf: origin, spreadV } : { list, rest, spreadOf: origin };
    }
    evCall(e, st) {
        const callee = skip(e.expression);
        if (callee.kind === K.SuperKeyword) { const a = this.evArgs(e.arguments, st); this.event('ext', e, { key: 'super', name: 'super', args: a }); return UNDEF; }
        if (callee.kind === K.ImportKeyword) { const a = this.evArgs(e.arguments, st); this.event('ext', e, { key: 'import', name: 'import', args: a }); return this.unknownV(e, 'import'); }
        let recv = UNDEF, fv, key = null, isMember = false;
        if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
            isMember = true;
            recv = this.ev(callee.expression, st);
            if (st.dead) return BOT;
            if (callee.questionDotToken || this.inChain(callee)) {
                if (recv.p & (U | N)) {
                    const r0 = restrict(recv, ALLP & ~(U | N));
                    if (r0.isBot()) return UNDEF;
                    const s2 = st.clone();
                    const v = this.finishMember(e, callee, r0, s2);
                    const j = joinStates([st, s2]);
                    st.take(j);
                    return join(v, UNDEF);
                }
            }
            return this.finishMember(e, callee, recv, st);
        }
        fv = this.ev(callee, st);
        if (st.dead) return BOT;
        if (e.questionDotToken && fv.p & (U | N)) {
            const f0 = restrict(fv, ALLP & ~(U | N));
            if (f0.isBot()) return UNDEF;
            const s2 = st.clone();
            const args = this.evArgs(e.arguments, s2);
            const v = this.callValue(f0, UNDEF, args, e, s2);
            const j = joinStates([st, s2]);
            st.take(j);
            return join(this.narrow(v, e), UNDEF);
        }
        const args = this.evArgs(e.arguments, st);
        if (st.dead) return BOT;
        return this.narrow(this.callValue(fv, UNDEF, args, e, st), e);
    }
    finishMember(e, callee, recv, st) {
        let keys;
        if (this.hooks.onAccess) this.hooks.onAccess(this, callee, recv, st);
        if (ts.isPropertyAccessExpression(callee)) keys = [callee.name.text];
        else keys = this.keysOf(this.ev(callee.argumentExpression, st));
        if (recv.p & (U | N) && this.hooks.onNullish) this.hooks.onNullish(this, callee, recv, st);
        if (recv.o.size === 0 && recv.p && !(recv.p & ~(U | N))) { this.noteThrow(BOT, e, 'type:'); this.event('typeerror', e, { key: '' }); this.callDead = true; return BOT; }
        const args = this.evArgs(e.arguments, st);
        if (st.dead) return BOT;
        // walking a known collection by hand
        if (!keys && /^Symbol\.iterator$/.test(callee.argumentExpression.getText()) && recv.o.size && !recv.p && [...recv.o].every(o => o.lazy || o.kind === 'alloc' && ['Array', 'Map', 'Set'].includes(o.cls))) {
            const it = this.alloc(e, 'Array', 'iterator');
            this.addRest(it, this.elements(recv, e));
            return V.obj(it);
        }
        if (!keys) {
            const fv = this.getProp(recv, null, callee);
            return this.narrow(this.callValue(fv, recv, args, e, st, '[computed]'), e);
        }
        let r = BOT;
        let deadAll = true;
        for (const k of keys) {
            const v = this.callMember(recv, k, args, e, st, callee);
            if (this.callDead) this.callDead = false;
            else deadAll = false;
            r = join(r, v);
        }
        if (deadAll) this.callDead = true;
        return this.narrow(r, e);
    }
    callMember(recv, key, args, e, st, callee) {
        let r = BOT;
        let live = false;
        const call = f => { const v = f(); if (this.callDead) this.callDead = false; else { live = true; r = join(r, v); } };
        if (key === 'next' && !recv.p && recv.o.size && [...recv.o].every(o => o.kind === 'alloc' && o.cls === 'Array' && !o.fields.has('next'))) {
            const s = this.alloc(e, 'Object', 'step');
            this.setProp(V.obj(s), 'value', join(this.elements(recv, e), UNDEF), e, 'init');
            this.setProp(V.obj(s), 'done', BOOL, e, 'init');
            return V.obj(s);
        }
        if (recv.p & STR) call(() => builtins.callString(this, key, restrict(primsOnly(recv), STR), args, e, st));
        if (recv.p & ~(STR | U | N)) call(() => builtins.callPrim(this, key, primsOnly(restrict(recv, ALLP & ~(STR | U | N))), args, e, st));
        for (const o of recv.o) {
            if (o.lazy) {
                // a stored function overrides; otherwise a method of an unknown or caller-owned object
                if (args.spreadV && this.hooks.onSpreadCall) this.hooks.onSpreadCall(this, o, key, args.spreadV, e);
                const own = o.fields.get(key);
                if (own && own.o.size) call(() => this.callValue(own, V.obj(o), args, e, st));
                call(() => builtins.callMethod(this, key, o, args, e, st, callee));
                continue;
            }
            if (o.host !== undefined && o.kind === 'atom' && !(o.callableAtom && ['call', 'apply', 'bind'].includes(key))) { call(() => builtins.callMethod(this, key, o, args, e, st, callee)); continue; }
            if (o.kind === 'builtin') { call(() => this.callValue(this.getObjProp(o, key, callee), V.obj(o), args, e, st)); continue; }
            if (['call', 'apply', 'bind'].includes(key) && (o.callable || o.kind === 'func' || o.callableAtom)) { call(() => this.callCAB(key, V.obj(o), args, e, st)); continue; }
            let fv = this.getObjProp(o, key, callee);
            if (args.spreadV && this.hooks.onSpreadCall && !(objsOnly(fv).o.size && [...fv.o].every(x => x.kind === 'func' || x.lazy))) this.hooks.onSpreadCall(this, o, key, args.spreadV, e);
            const fns = objsOnly(fv);
            let bm = [...fns.o].filter(x => x.kind === 'builtin' && x.name.includes('.prototype.'));
            const others = new V.Val(0, NOC, new Set([...fns.o].filter(x => !bm.includes(x))), fv.l);
            if (others.o.size) call(() => this.callValue(others, V.obj(o), args, e, st));
            if (bm.length || !others.o.size) call(() => builtins.callMethod(this, key, o, args, e, st, callee));
        }
        if (recv.isBot()) { this.unresolved.add('callee-bot:' + this.prog.pos(e)); return BOT; }
        if (!live) this.callDead = true;
        return r;
    }
    callCAB(key, fv, args, e, st) {
        const thisV = this.argAt(args, 0);
        if (key === 'bind') {
            const b = this.alloc(e, 'Function', 'bind');
            b.kind = 'bound';
            b.target = b.target ? join(b.target, fv) : fv;
            b.boundThis = b.boundThis ? join(b.boundThis, thisV) : thisV;
            b.boundArgs = args.list.slice(1);
            return V.obj(b);
        }
        if (key === 'call') return this.callValue(fv, thisV, { list: args.list.slice(1), rest: args.rest }, e, st);
        const av = this.argAt(args, 1);
        if (this.hooks.onSpread) this.hooks.onSpread(this, e, av, st);
        const el = this.elements(objsOnly(av), e);
        const list = [];
        if (av.o.size === 1) { const [o] = av.o; if (o.kind === 'alloc' && o.cls === 'Array' && o.rest.isBot() && !o.spread.length) { for (let i = 0; o.fields.has(String(i)); i++) list.push(o.fields.get(String(i))); return this.callValue(fv, thisV, { list, rest: null }, e, st); } }
        const an = e.arguments && e.arguments.length && !ts.isSpreadElement(e.arguments[e.arguments.length - 1]) ? e.arguments[e.arguments.length - 1] : null;
        return this.callValue(fv, thisV, { list: [], rest: el.isBot() ? null : el, spreadOf: [...av.o], spreadV: [[av, an]] }, e, st);
    }
    callValue(fv, thisV, args, e, st, tag) {
        let r = BOT;
        let live = false;
        const call = f => { const v = f(); if (this.callDead) this.callDead = false; else { live = true; r = join(r, v); } };
        if (args.spreadV && this.hooks.onSpreadCall) for (const o of fv.o) this.hooks.onSpreadCall(this, o, null, args.spreadV, e);
        for (const o of fv.o) {
            if (o.kind === 'func') call(() => this.callFn(o, thisV, args, e));
            else if (o.kind === 'bound') { for (const t of o.target.o) call(() => this.callValue(V.obj(t), o.boundThis, { list: [...o.boundArgs, ...args.list], rest: args.rest, spreadOf: args.spreadOf }, e, st)); }
            else if (o.kind === 'native') call(() => o.impl(this, thisV, args, e, st));
            else if (o.kind === 'builtin') call(() => builtins.callBuiltin(this, o.name, thisV, args, e, st));
            else if (o.kind === 'class') { this.noteThrow(BOT, e); live = true; }
            else if (o.lazy) call(() => this.callUnknown(o, thisV, args, e, st));
            else if (o.kind === 'atom') { const nm = this.kinds && o.host !== undefined && this.kinds.names.get(o.host); if (nm) call(() => builtins.callBuiltin(this, nm, thisV, args, e, st)); else if (o.callableAtom) call(() => this.unknownV(e, 'atomcall')); }
        }
        if (fv.o.size === 0) {
            if (fv.p) { this.noteThrow(BOT, e, 'type:'); this.event('typeerror', e, { key: 'call' }); this.callDead = true; return BOT; }
            this.unresolved.add('callee-bot:' + this.prog.pos(e));
            return BOT;
        }
        if (!live) this.callDead = true;
        return r;
    }
    callUnknown(o, thisV, args, e, st) {
        // a callback the caller supplied, or a function obtained from outside
        const caller = o.org.t === 'P' || o.org.t === 'R';
        this.event(caller ? 'callback' : 'extcall', e, { key: o.key, obj: o, args, thisV });
        if (this.hooks.reasons && caller && this.catching && this.catching.length) this.passOn(this.delivered || (this.delivered = new Map()));
        if (this.hooks.onCallback) this.hooks.onCallback(this, o, args, e, st);
        if (this.traces && this.curSt && this.curSt.tr) { const w = this.traces(o, args, thisV, e); if (w) this.curSt.tr = seqTr(this.curSt.tr, new Set([w])); }
        this.noteThrow(this.unknownV(e, 'cbthrow'), e, (caller ? 'callback:' : 'ext:') + o.org.name);
        this.invokeArgs(args, e, st);
        let l = o.l;
        for (const a of args.list) l = V.union(l, this.labelsDeep(a));
        if (args.rest) l = V.union(l, this.labelsDeep(args.rest));
        if (this.hooks.cbRet) { const r = this.hooks.cbRet(this, o, args, e); if (r) return r; }
        const ret = this.unknown(e, 'ret', EMPTY);
        if (caller) { ret.org = { t: 'C', name: `ret(${o.org.name})` }; }
        return new V.Val(ALLP, null, new Set([ret]), l);
    }
    // functions handed to code outside the repository may be called with anything
    invokeArgs(args, e, st, only) {
        const all = [...args.list];
        if (args.rest) all.push(args.rest);
        const seen = new Set();
        const visit = (v, d) => {
            for (const o of v.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                if (o.kind === 'func' || o.kind === 'bound') this.repeated(() => this.invokeUnknown(o, e, st));
                else if (o.kind === 'alloc' && d > 0 && o.cls !== 'Promise') { for (const f of o.fields.values()) visit(f, d - 1); visit(o.rest, d - 1); }
            }
        };
        for (const v of all) visit(v, 1);
    }
    invokeUnknown(o, e, st) {
        const n = o.kind === 'func' ? o.node.parameters.length : 4;
        const list = [];
        const isRest = o.kind === 'func' && o.node.parameters.some(p => p.dotDotDotToken);
        for (let i = 0; i < n; i++) {
            let v = this.unknownV(e, 'cbarg' + i);
            if (o.kind === 'func') { const p = o.node.parameters[i]; try { v = this.narrowT(v, this.checker.getTypeAtLocation(p)); } catch { /* keep */ } }
            list.push(v);
        }
        const fr = this.frame;
        const save = fr && fr.throwStates;
        if (fr) fr.throwStates = [{ states: [], val: BOT, hit: false }]; // its exceptions belong to whoever calls it
        const r = this.callValue(V.obj(o), this.unknownV(e, 'cbthis'), { list, rest: isRest ? this.unknownV(e, 'cbrest') : null }, e, st);
        if (fr && this.hooks.onEscape && fr.throwStates[0].hit) this.hooks.onEscape(this, o, e, fr.throwStates[0].reasons || NOREASONS);
        if (fr) fr.throwStates = save;
        this.callDead = false;
        return r;
    }
    evNew(e, st) {
        const cv = this.ev(e.expression, st);
        const args = this.evArgs(e.arguments, st);
        if (st.dead) return BOT;
        let r = BOT;
        for (const o of cv.o) {
            if (args.spreadV && this.hooks.onSpreadCall) this.hooks.onSpreadCall(this, o, null, args.spreadV, e);
            if (o.kind === 'builtin') r = join(r, builtins.construct(this, o.name, args, e, st));
            else if (o.kind === 'class') {
                const inst = this.alloc(e, o.node.name ? o.node.name.text : 'Instance', 'inst' + o.id);
                inst.kind = 'instance';
                inst.classNode = o.node;
                inst.env = o.env;
                const iv = V.obj(inst);
                for (const m of o.node.members) {
                    if (ts.isPropertyDeclaration(m) && m.initializer && !(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static)) this.setProp(iv, this.propName(m.name), this.ev(m.initializer, new State()), m, 'init');
                    if (ts.isConstructorDeclaration(m) && m.body) this.callFn(this.closure(m, o.env), iv, args, e);
                }
                if (o.node.heritageClauses) inst.rest = join(inst.rest, this.unknownV(e, 'super'));
                r = join(r, iv);
            } else if (o.kind === 'func') {
                const inst = this.alloc(e, 'Object', 'newfn');
                this.callFn(o, V.obj(inst), args, e);
                r = join(r, V.obj(inst));
            } else {
                if (o.lazy) { this.event(o.org.t === 'P' || o.org.t === 'R' ? 'callback' : 'extcall', e, { key: o.key, obj: o, args, isNew: true }); this.noteThrow(this.unknownV(e, 'cbthrow'), e); this.invokeArgs(args, e, st); }
                r = join(r, new V.Val(0, NOC, new Set([this.unknown(e, 'new')]), EMPTY));
            }
        }
        if (cv.o.size === 0) return this.unknownV(e, 'new');
        return r;
    }

    // evaluate every module-level initialiser once, before any entry
    initModules() {
        for (const sf of this.prog.sources)
            for (const s of sf.statements) {
                if (ts.isVariableStatement(s))
                    for (const d of s.declarationList.declarations) {
                        const names = [];
                        const collect = n => { if (ts.isIdentifier(n)) names.push(n); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) collect(e.name); };
                        collect(d.name);
                        for (const n of names) { const sym = this.checker.getSymbolAtLocation(n); if (sym) this.moduleVar(sym, sym.valueDeclaration); }
                    }
                else if (ts.isExportAssignment(s)) { const sym = s.symbol || this.checker.getSymbolAtLocation(s); if (sym) this.moduleVal(sym, s, s.expression); }
                else if (!ts.isImportDeclaration(s) && !ts.isExportDeclaration(s) && !ts.isFunctionDeclaration(s) && !ts.isClassDeclaration(s) && !ts.isInterfaceDeclaration(s) && !ts.isTypeAliasDeclaration(s) && !ts.isEmptyStatement(s) && !ts.isModuleDeclaration(s) && !ts.isEnumDeclaration(s))
                    this.evalModule(`${this.prog.rel(sf.fileName)}#stmt`, s, () => this.exec(s, new State()));
            }
        for (const s of this.moduleEvents) s.moduleInit = s.moduleInit || '?';
    }

    // ---------- entries ----------
    entryArgs(fn, t = 'P', prefix = '') {
        const list = [];
        let rest = null;
        fn.parameters.filter(p => p.name.text !== 'this').forEach((p, i) => {
            const known = t === 'P' && this.prog.canon && this.prog.canon.get(fn);
            const nm = prefix + (known ? known[i] : ts.isIdentifier(p.name) ? p.name.text : 'arg' + i);
            const po = this.param(t, nm);
            let type;
            try { type = this.checker.getTypeAtLocation(p); } catch { type = null; }
            let v = new V.Val(ALLP, null, new Set([po]), new Set([`${t}:${nm}`]));
            if (p.dotDotDotToken) {
                // elements of a rest parameter belong to the caller, the array itself does not
                rest = new V.Val(ALLP, null, new Set([this.param(t, nm + '[]')]), new Set([`${t}:${nm}[]`]));
                let et = null;
                try { et = this.checker.getIndexTypeOfType(type, ts.IndexKind.Number); } catch { /* none */ }
                if (et) rest = this.narrowT(rest, et);
                return;
            }
            if (type) v = this.narrowT(v, type);
            if (p.questionToken || p.initializer) v = join(v, UNDEF);
            list.push(v);
        });
        return { list, rest };
    }
    analyse(fn, argsMaker, opts = {}) {
        // arrays that change behind the back of the function that made them are not followed place by place: start again without
        this.lost = new Set();
        for (;;) {
            this.restart = false;
            const r = this.analyse1(fn, argsMaker, opts);
            if (!this.restart) return r;
        }
    }
    analyse1(fn, argsMaker, opts) {
        // fixpoint over the heap, the results of recursive calls and captured variables
        this.resetEntry();
        this.rootFn = fn;
        let ret = BOT;
        const sig = fn.parameters.find(p => p.name.text === 'this');
        let n = 0;
        let last;
        do {
            last = this.ver;
            this.iter = (this.iter || 0) + 1;
            this.frame = null;
            this.callDead = false;
            const args = argsMaker ? argsMaker(this) : this.entryArgs(fn);
            const thisV = opts.thisV ? opts.thisV(this) : sig ? new V.Val(0, NOC, new Set([this.param('P', 'this')]), EMPTY) : UNDEF;
            const fo = opts.closure || this.closure(fn, this.moduleEnv);
            this.deadEnd = false;
            this.curSt = null;
            if (this.traces) { this.curSt = new State(); this.curSt.tr = EPS; }
            const r = this.callFn(fo, thisV, args, null);
            this.deadEnd = this.callDead;
            this.callDead = false;
            ret = join(ret, r);
            this.awaitTr(ret);
            if (opts.escape !== false) this.escape(ret, fn);
            if (opts.after) opts.after(this, ret);
        } while (this.ver !== last && !this.restart && ++n < (opts.rounds || 8));
        if (n >= (opts.rounds || 8)) this.incomplete = true;
        this.curSt = null;
        const m = [...this.memo.values()][0];
        return { ret, events: [...this.events.values()], incomplete: this.incomplete, mayThrow: m ? m.mayThrow : false, returns: m ? m.returns : true, fns: new Set(this.visitedFns), thrown: m ? m.thrown : BOT, reasons: m && m.reasons };
    }
    escape(v, fn) {
        // closures handed to the caller are called later with arbitrary arguments
        const seen = new Set();
        const visit = (x, d) => {
            for (const o of x.o) {
                if (seen.has(o)) continue;
                seen.add(o);
                if (o.kind === 'func' && o.org.t !== 'M') {
                    this.frame = null;
                    const save = this.stack;
                    this.stack = [];
                    const args = this.entryArgs(o.node, 'R', `${this.nid(o.node)}.`);
                    const sig = o.node.parameters.find(p => p.name.text === 'this');
                    const r = this.callFn(o, this.unknownV(o.node, 'rthis'), args, o.node);
                    this.callDead = false;
                    this.stack = save;
                    if (d > 0) visit(r, d - 1);
                } else if (o.kind === 'alloc' || o.kind === 'instance') {
                    if (d > 0) {
                        for (const f of o.fields.values()) visit(f, d - 1);
                        visit(o.rest, d - 1);
                    }
                    if (o.kind === 'instance') for (const m of o.classNode.members) if (ts.isMethodDeclaration(m) && m.body) { this.frame = null; this.callFn(this.closure(m, o.env), V.obj(o), this.entryArgs(m, 'R', m.name.getText() + '.'), m); this.callDead = false; }
                }
            }
        };
        visit(v, 4);
    }
}
function foldArith(op, x, y) {
    switch (op) {
        case K.MinusToken: return x - y;
        case K.AsteriskToken: return x * y;
        case K.SlashToken: return x / y;
        case K.PercentToken: return x % y;
        case K.AsteriskAsteriskToken: return x ** y;
        case K.LessThanLessThanToken: return x << y;
        case K.GreaterThanGreaterThanToken: return x >> y;
        case K.GreaterThanGreaterThanGreaterThanToken: return x >>> y;
        case K.AmpersandToken: return x & y;
        case K.BarToken: return x | y;
        case K.CaretToken: return x ^ y;
    }
    throw new Error('op');
}

module.exports = { Interp, Obj, State, EPS, skip, isFn };
