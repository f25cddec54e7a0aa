'use strict';
// Abstract values: a set of primitive kinds (with small constant sets), a set of abstract objects, and provenance labels.
const U = 1, N = 2, T = 4, F = 8, NUM = 16, STR = 32, BIG = 64, SYM = 128, ALLP = 255, CONSTK = NUM | STR | BIG;
const EMPTY = new Set();
const MAXC = 24;

const ck = v => (Object.is(v, -0) ? 'n-0' : typeof v + String(v));

class Val {
    constructor(p, c, o, l) {
        this.p = p; // bitmask of primitive kinds
        this.c = c; // null: any constant; else Map(ck -> constant) for the NUM/STR/BIG kinds present
        this.o = o; // Set of Obj
        this.l = l; // Set of labels
        this._s = undefined;
    }
    get sig() {
        if (this._s === undefined) {
            this._s =
                this.p +
                '|' + (this.c ? [...this.c.keys()].sort().join('\u0001') : '*') +
                '|' + [...this.o].map(o => o.id).sort((a, b) => a - b).join(',') +
                '|' + [...this.l].sort().join(',');
        }
        return this._s;
    }
    isBot() {
        return this.p === 0 && this.o.size === 0;
    }
}
const NOC = new Map();
const BOT = new Val(0, NOC, EMPTY, EMPTY);
const mk = (p, c = null, o = EMPTY, l = EMPTY) => new Val(p, p & CONSTK ? c : NOC, o, l);
const UNDEF = mk(U), NULLV = mk(N), TRUE = mk(T), FALSE = mk(F), BOOL = mk(T | F);
const NUMV = mk(NUM), STRV = mk(STR), ANYP = mk(ALLP);

function union(a, b) {
    if (a === b || b.size === 0) return a;
    if (a.size === 0) return b;
    let r = null;
    for (const x of b) if (!a.has(x)) { if (!r) r = new Set(a); r.add(x); }
    return r || a;
}
function join(a, b) {
    if (a === b) return a;
    if (b.isBot() && b.l.size === 0) return a;
    if (a.isBot() && a.l.size === 0) return b;
    if (a.sig === b.sig) return a;
    let c;
    const ak = a.p & CONSTK, bk = b.p & CONSTK;
    if (!ak) c = b.c;
    else if (!bk) c = a.c;
    else if (a.c === null || b.c === null) c = null;
    else {
        c = new Map(a.c);
        for (const [k, v] of b.c) c.set(k, v);
        if (c.size > MAXC) c = null;
    }
    return new Val(a.p | b.p, (a.p | b.p) & CONSTK ? c : NOC, union(a.o, b.o), union(a.l, b.l));
}
// join for heap cells: bounded constant sets so that counters converge
function joinW(a, b) {
    const r = join(a, b);
    if (r.c && r.c.size > 4 && r !== a && r.p & (NUM | BIG)) {
        let n = 0;
        for (const x of r.c.values()) if (typeof x !== 'string') n++;
        if (n > 4) return new Val(r.p, null, r.o, r.l);
    }
    return r;
}
const joinAll = vs => vs.reduce(join, BOT);
function konst(v) {
    if (v === undefined) return UNDEF;
    if (v === null) return NULLV;
    if (v === true) return TRUE;
    if (v === false) return FALSE;
    const p = typeof v === 'number' ? NUM : typeof v === 'string' ? STR : typeof v === 'bigint' ? BIG : 0;
    return new Val(p, new Map([[ck(v), v]]), EMPTY, EMPTY);
}
const obj = o => new Val(0, NOC, new Set([o]), EMPTY);
const withL = (v, l) => (l.size === 0 ? v : new Val(v.p, v.c, v.o, union(v.l, l)));
const widen = v => (v.p & CONSTK && v.c !== null ? new Val(v.p, null, v.o, v.l) : v);
const primsOnly = v => (v.o.size ? new Val(v.p, v.c, EMPTY, v.l) : v);
const objsOnly = v => (v.p ? new Val(0, NOC, v.o, v.l) : v);
const restrict = (v, mask) => {
    const p = v.p & mask;
    let c = v.c;
    if (c && c.size) {
        c = new Map();
        for (const [k, x] of v.c) {
            const b = typeof x === 'number' ? NUM : typeof x === 'string' ? STR : BIG;
            if (b & p) c.set(k, x);
        }
    }
    return new Val(p, p & CONSTK ? c : NOC, v.o, v.l);
};
// all concrete values, when the value is a finite set of primitives; else null
function consts(v) {
    if (v.o.size || v.p & SYM) return null;
    if (v.p & CONSTK && v.c === null) return null;
    const r = v.p & CONSTK ? [...v.c.values()] : [];
    if (v.p & U) r.push(undefined);
    if (v.p & N) r.push(null);
    if (v.p & T) r.push(true);
    if (v.p & F) r.push(false);
    return r;
}
function truthy(v) {
    let t = false, f = false;
    if (v.o.size) t = true;
    if (v.p & (T | SYM)) t = true;
    if (v.p & (U | N | F)) f = true;
    if (v.p & CONSTK) {
        if (v.c === null) t = f = true;
        else for (const x of v.c.values()) if (x) t = true; else f = true;
    }
    return { t, f };
}
function filterTruthy(v, want) {
    let p = v.p, c = v.c, o = v.o;
    if (want) {
        p &= ~(U | N | F);
        if (p & CONSTK && c) {
            c = new Map([...c].filter(([, x]) => x));
            p = keepKinds(p, c);
        }
    } else {
        o = EMPTY;
        p &= ~(T | SYM);
        if (p & CONSTK) {
            if (c) c = new Map([...c].filter(([, x]) => !x));
            else {
                c = new Map();
                if (p & NUM) for (const z of [0, -0, NaN]) c.set(ck(z), z);
                if (p & STR) c.set(ck(''), '');
                if (p & BIG) c.set(ck(0n), 0n);
            }
            p = keepKinds(p, c);
        }
    }
    return new Val(p, p & CONSTK ? c : NOC, o, v.l);
}
function keepKinds(p, c) {
    let k = 0;
    for (const x of c.values()) k |= typeof x === 'number' ? NUM : typeof x === 'string' ? STR : BIG;
    return (p & ~CONSTK) | (p & k);
}
// provenance marks (~seg, ~key, ~R<node>, ~E<fn>) are idempotent and bounded, so that label sets stay finite
function mark(l, m) {
    if (l.includes(m)) return l;
    if (l.split('~').length > 4) return l;
    return l + m;
}
const markAll = (set, m) => { const r = new Set(); for (const x of set) r.add(mark(x, m)); return r; };
module.exports = { mark, markAll, U, N, T, F, NUM, STR, BIG, SYM, ALLP, CONSTK, Val, BOT, mk, UNDEF, NULLV, TRUE, FALSE, BOOL, NUMV, STRV, ANYP, EMPTY, NOC, union, join, joinW, joinAll, konst, obj, withL, widen, primsOnly, objsOnly, restrict, consts, truthy, filterTruthy, keepKinds, ck };
