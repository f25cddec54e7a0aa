'use strict';
// Decision procedures for JavaScript regular expressions, on their text: parser, automata with lookahead and anchors,
// language comparison with a shortest witness, and detection of exponential backtracking.
const MAX = 0xffff;
const norm = rs => {
    rs = rs.filter(r => r[0] <= r[1]).sort((a, b) => a[0] - b[0]);
    const out = [];
    for (const [a, b] of rs) { const l = out[out.length - 1]; if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b); else out.push([a, b]); }
    return out;
};
const inv = rs => { const out = []; let p = 0; for (const [a, b] of norm(rs)) { if (a > p) out.push([p, a - 1]); p = b + 1; } if (p <= MAX) out.push([p, MAX]); return out; };
const has = (rs, c) => { let lo = 0, hi = rs.length - 1; while (lo <= hi) { const m = (lo + hi) >> 1; if (c < rs[m][0]) hi = m - 1; else if (c > rs[m][1]) lo = m + 1; else return true; } return false; };
const overlap = (a, b) => { let i = 0, j = 0; while (i < a.length && j < b.length) { if (a[i][1] < b[j][0]) i++; else if (b[j][1] < a[i][0]) j++; else return true; } return false; };
const DIGIT = [[48, 57]], WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const SPACE = norm([[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]);
const NL = [[10, 10], [13, 13], [0x2028, 0x2029]];
const ALL = [[0, MAX]];

// case folding of the non-unicode mode (21.2.2.8.2): toUpperCase of one unit, never from non-ASCII to ASCII
let foldTab = null;
function fold(c) { const s = String.fromCharCode(c), u = s.toUpperCase(); if (u.length !== 1) return c; const k = u.charCodeAt(0); return c >= 128 && k < 128 ? c : k; }
function ignoreCase(rs) {
    if (!foldTab) { foldTab = new Map(); for (let c = 0; c <= MAX; c++) { const k = fold(c); if (k !== c) { if (!foldTab.has(k)) foldTab.set(k, [k]); foldTab.get(k).push(c); } } }
    const out = rs.map(r => r.slice());
    for (const [k, cs] of foldTab) if (cs.some(c => has(rs, c))) for (const c of cs) out.push([c, c]);
    return norm(out);
}
class Unsupported extends Error {}

function parse(src, flags = '') {
    let i = 0;
    const ci = flags.includes('i'), dotAll = flags.includes('s'), multi = flags.includes('m');
    const set = rs => ({ t: 'set', rs: ci ? ignoreCase(norm(rs)) : norm(rs) });
    const named = /\(\?<[a-zA-Z_$]/.test(src);
    function alt() {
        const alts = [seq()];
        while (src[i] === '|') { i++; alts.push(seq()); }
        return alts.length === 1 ? alts[0] : { t: 'alt', a: alts };
    }
    function seq() {
        const a = [];
        while (i < src.length && src[i] !== '|' && src[i] !== ')') a.push(term());
        return { t: 'cat', a };
    }
    function term() {
        const x = atom();
        let min, max;
        const c = src[i];
        if (c === '*') { min = 0; max = Infinity; i++; } else if (c === '+') { min = 1; max = Infinity; i++; } else if (c === '?') { min = 0; max = 1; i++; } else if (c === '{') {
            const m = /^\{(\d+)(?:(,)(\d*))?\}/.exec(src.slice(i));
            if (!m) return x;
            min = Number(m[1]); max = m[2] ? (m[3] ? Number(m[3]) : Infinity) : min;
            i += m[0].length;
        } else return x;
        if (src[i] === '?') i++;
        return { t: 'rep', x, min, max };
    }
    function atom() {
        const c = src[i++];
        if (c === '.') return set(dotAll ? ALL : inv(NL));
        if (c === '^') return { t: 'as', k: multi ? '^m' : '^' };
        if (c === '$') return { t: 'as', k: multi ? '$m' : '$' };
        if (c === '(') {
            let look = null;
            if (src[i] === '?') {
                const m = /^\?(:|=|!|<=|<!|<[^>=!]+>)/.exec(src.slice(i));
                if (!m) throw new Unsupported('group ' + src.slice(i, i + 5));
                i += m[0].length;
                if (m[1] === '=' || m[1] === '!') look = m[1];
                else if (m[1] === '<=' || m[1] === '<!') look = m[1];
            }
            const x = alt();
            if (src[i++] !== ')') throw new Unsupported('unbalanced group');
            if (look === '<=' || look === '<!') throw new Unsupported('lookbehind');
            return look ? { t: 'look', neg: look === '!', x } : x;
        }
        if (c === '[') return cls();
        if (c === '\\') {
            const n = src[i];
            if (n === 'b' || n === 'B') { i++; return { t: 'as', k: n }; }
            if (/[1-9]/.test(n) || (n === 'k' && named)) throw new Unsupported('backreference');
            const r = esc(false);
            return set(typeof r === 'number' ? [[r, r]] : r);
        }
        if (c === ')' || c === '*' || c === '+' || c === '?') throw new Unsupported('syntax');
        const k = c.charCodeAt(0);
        return set([[k, k]]);
    }
    function esc(inCls) {
        const c = src[i++];
        switch (c) {
            case 'd': return DIGIT; case 'D': return inv(DIGIT);
            case 'w': return WORD; case 'W': return inv(WORD);
            case 's': return SPACE; case 'S': return inv(SPACE);
            case 't': return 9; case 'n': return 10; case 'v': return 11; case 'f': return 12; case 'r': return 13;
            case 'b': if (inCls) return 8; break;
            case '0': if (!/[0-9]/.test(src[i] || '')) return 0; throw new Unsupported('octal');
            case 'c': { const m = /^[a-zA-Z]/.exec(src.slice(i)); if (m) { i++; return m[0].charCodeAt(0) % 32; } i--; return 92; }
            case 'x': { const m = /^[0-9a-fA-F]{2}/.exec(src.slice(i)); if (m) { i += 2; return parseInt(m[0], 16); } return 120; }
            case 'u': { const m = /^[0-9a-fA-F]{4}/.exec(src.slice(i)); if (m) { i += 4; return parseInt(m[0], 16); } if (/^\{[0-9a-fA-F]+\}/.test(src.slice(i)) && /[uv]/.test(flags)) throw new Unsupported('code point escape'); return 117; }
            case 'p': case 'P': if (/[uv]/.test(flags)) throw new Unsupported('property escape'); return c.charCodeAt(0);
            case undefined: throw new Unsupported('trailing backslash');
        }
        return c.charCodeAt(0);
    }
    function cls() {
        let neg = false;
        if (src[i] === '^') { neg = true; i++; }
        const rs = [];
        const one = () => { if (src[i] === '\\') { i++; return esc(true); } return src.charCodeAt(i++); };
        for (;;) {
            if (i >= src.length) throw new Unsupported('unterminated class');
            if (src[i] === ']') { i++; break; }
            const a = one();
            if (src[i] === '-' && src[i + 1] !== ']' && i + 1 < src.length) {
                const save = i;
                i++;
                const b = one();
                if (typeof a === 'number' && typeof b === 'number') { if (a > b) throw new Unsupported('range'); rs.push([a, b]); continue; }
                i = save;
            }
            if (typeof a === 'number') rs.push([a, a]); else rs.push(...a);
        }
        let r = norm(rs);
        if (ci) r = ignoreCase(r);
        return { t: 'set', rs: neg ? inv(r) : r };
    }
    const r = alt();
    if (i < src.length) throw new Unsupported('syntax');
    if (/[uv]/.test(flags) && /[\ud800-\udfff]/.test(src)) throw new Unsupported('astral characters');
    return r;
}

// ---- nondeterministic automaton: states {k:'c',rs,n} {k:'e',ns} {k:'a',as,n} {k:'l',neg,s,n} {k:'F'} ----
function nfa(ast) {
    const S = [];
    const add = s => { S.push(s); if (S.length > 60000) throw new Unsupported('too large'); return S.length - 1; };
    const F = add({ k: 'F' });
    const build = (x, n) => {
        switch (x.t) {
            case 'set': return add({ k: 'c', rs: x.rs, n });
            case 'cat': { for (let j = x.a.length - 1; j >= 0; j--) n = build(x.a[j], n); return n; }
            case 'alt': return add({ k: 'e', ns: x.a.map(y => build(y, n)) });
            case 'as': return add({ k: 'a', as: x.k, n });
            case 'look': { const s = build(x.x, F); return add({ k: 'l', neg: x.neg, s, n }); }
            case 'rep': {
                if (x.max === Infinity) {
                    const l = add({ k: 'e', ns: [] });
                    const b = build(x.x, l);
                    S[l].ns = [b, n];
                    n = x.min === 0 ? l : null;
                    if (n === null) { n = l; for (let j = 1; j < x.min; j++) n = build(x.x, n); n = build(x.x, n); }
                    return n;
                }
                for (let j = x.min; j < x.max; j++) n = add({ k: 'e', ns: [build(x.x, n), n] });
                // the optional copies above share their exit; the mandatory ones come first
                let m = n;
                for (let j = 0; j < x.min; j++) m = build(x.x, m);
                return m;
            }
        }
        throw new Error(x.t);
    };
    // optional copies must leave to the same exit: x{0,3} = (x(x(x)?)?)?
    const fixed = y => {
        switch (y.t) {
            case 'cat': case 'alt': return { t: y.t, a: y.a.map(fixed) };
            case 'look': return { ...y, x: fixed(y.x) };
            case 'rep': {
                const x = fixed(y.x);
                if (y.max === Infinity) return { t: 'rep', x, min: y.min, max: Infinity };
                let o = null;
                for (let j = y.min; j < y.max; j++) o = { t: 'opt', x: o ? { t: 'cat', a: [x, o] } : x };
                const a = [];
                for (let j = 0; j < y.min; j++) a.push(x);
                if (o) a.push(o);
                return { t: 'cat', a };
            }
        }
        return y;
    };
    const build2 = (x, n) => {
        if (x.t === 'opt') return add({ k: 'e', ns: [build2(x.x, n), n] });
        if (x.t === 'cat') { for (let j = x.a.length - 1; j >= 0; j--) n = build2(x.a[j], n); return n; }
        if (x.t === 'alt') return add({ k: 'e', ns: x.a.map(y => build2(y, n)) });
        if (x.t === 'look') { const s = build2(x.x, F); return add({ k: 'l', neg: x.neg, s, n }); }
        if (x.t === 'rep') {
            const l = add({ k: 'e', ns: [] });
            S[l].ns = [build2(x.x, l), n];
            let m = l;
            for (let j = 0; j < x.min; j++) m = build2(x.x, m);
            return m;
        }
        return build(x, n);
    };
    const start = build2(fixed(ast), F);
    const ctx = S.some(s => s.k === 'a');
    return { S, start, F, ctx };
}

const isWord = c => c >= 0 && has(WORD, c);
const isNl = c => c >= 0 && has(NL, c);
// prev / next: code unit, or -1 at the ends
function asHolds(k, prev, next) {
    switch (k) {
        case '^': return prev === -1;
        case '$': return next === -1;
        case '^m': return prev === -1 || isNl(prev);
        case '$m': return next === -1 || isNl(next);
        case 'b': return isWord(prev) !== isWord(next);
        case 'B': return isWord(prev) === isWord(next);
    }
    throw new Error(k);
}
const ACC = 'ALL';

// A lazily determinised automaton of the strings on which `test` succeeds. A state is ACC or a set of conjunctions
// {pos: states that must each reach the end, neg: sets of states none of which may}.
class Lang {
    constructor(src, flags = '') {
        this.A = nfa(parse(src, flags));
        this.sticky = flags.includes('y');
        this.trans = new Map();
    }
    sets() { return this.A.S.filter(s => s.k === 'c').map(s => s.rs); }
    init() { return this.mk([{ pos: [this.A.start], neg: [] }], -1); }
    mk(conjs, prev) {
        const m = new Map();
        for (const c of conjs) { const k = c.pos.join(',') + '/' + c.neg.map(n => n.join(',')).join(';'); m.set(k, c); }
        const kind = !this.A.ctx ? 0 : prev === -1 ? 's' : isWord(prev) ? 'w' : isNl(prev) ? 'n' : 'o';
        const rep = { 0: -2, s: -1, w: 97, n: 10, o: 32 }[kind];
        if (m.size > 4000) throw new Unsupported('too many states');
        return { key: kind + '|' + [...m.keys()].sort().join(' '), conjs: [...m.values()], prev: rep };
    }
    // all ways to advance one position set by empty moves; returns list of {chars, neg} or 'dead'
    closeConj(conj, prev, next, out) {
        // negative sets
        const negs = [];
        const closeNeg = set => {
            const seen = new Set(), cs = new Set();
            const st = [...set];
            while (st.length) {
                const q = st.pop();
                if (seen.has(q)) continue;
                seen.add(q);
                const s = this.A.S[q];
                if (s.k === 'F') return null;
                if (s.k === 'c') cs.add(q);
                else if (s.k === 'e') st.push(...s.ns);
                else if (s.k === 'a') { if (asHolds(s.as, prev, next)) st.push(s.n); } else throw new Unsupported('lookahead inside a negative lookahead');
            }
            return [...cs].sort((a, b) => a - b);
        };
        for (const n of conj.neg) { const c = closeNeg(n); if (!c) return; if (c.length) negs.push(c); }
        const rec = (todo, chars, neg, seen) => {
            if (!todo.length) { out.push({ pos: [...new Set(chars)].sort((a, b) => a - b), neg: uniqNeg(neg) }); return; }
            const q = todo[0], rest = todo.slice(1);
            const s = this.A.S[q];
            if (s.k === 'F') return rec(rest, chars, neg, seen);
            if (s.k === 'c') return rec(rest, [...chars, q], neg, seen);
            if (s.k === 'a') { if (asHolds(s.as, prev, next)) rec([s.n, ...rest], chars, neg, seen); return; }
            if (s.k === 'l') {
                if (s.neg) { const c = closeNeg([s.s]); if (!c) return; return rec([s.n, ...rest], chars, c.length ? [...neg, c] : neg, seen); }
                return rec([s.n, s.s, ...rest], chars, neg, seen);
            }
            if (seen.has(q)) return;
            const s2 = new Set(seen); s2.add(q);
            for (const n of s.ns) rec([n, ...rest], chars, neg, s2);
        };
        if (conj.pos.length === 1 && !negs.length) {
            // fast path: one thread without obligations
            const seen = new Set(), st = [conj.pos[0]];
            let simple = true;
            const found = [];
            let fin = false;
            while (st.length && simple) {
                const q = st.pop();
                if (seen.has(q)) continue;
                seen.add(q);
                const s = this.A.S[q];
                if (s.k === 'F') fin = true;
                else if (s.k === 'c') found.push(q);
                else if (s.k === 'e') st.push(...s.ns);
                else if (s.k === 'a') { if (asHolds(s.as, prev, next)) st.push(s.n); } else simple = false;
            }
            if (simple) { if (fin) out.push({ pos: [], neg: [] }); for (const q of found) out.push({ pos: [q], neg: [] }); return; }
        }
        rec(conj.pos, [], negs, new Set());
    }
    // accepted if the text ends here
    ends(st) {
        if (st === ACC) return true;
        const out = [];
        for (const c of st.conjs) this.closeConj(c, st.prev, -1, out);
        return out.some(c => !c.pos.length); // pending negative lookaheads fail to match at the end, hence hold
    }
    step(st, c) {
        if (st === ACC) return ACC;
        let m = this.trans.get(st.key);
        if (!m) this.trans.set(st.key, (m = new Map()));
        if (m.has(c)) return m.get(c);
        const out = [];
        for (const x of st.conjs) this.closeConj(x, st.prev, c, out);
        let r;
        if (out.some(x => !x.pos.length && !x.neg.length)) r = ACC;
        else {
            const next = [];
            for (const x of out) {
                if (!x.pos.every(q => has(this.A.S[q].rs, c))) continue;
                const neg = [];
                for (const n of x.neg) { const k = n.filter(q => has(this.A.S[q].rs, c)).map(q => this.A.S[q].n); if (k.length) neg.push(k); }
                next.push({ pos: [...new Set(x.pos.map(q => this.A.S[q].n))].sort((a, b) => a - b), neg: uniqNeg(neg) });
            }
            if (next.some(x => !x.pos.length && !x.neg.length)) r = ACC;
            else {
                if (!this.sticky && !this.anchored()) next.push({ pos: [this.A.start], neg: [] });
                r = this.mk(next, c);
            }
        }
        m.set(c, r);
        return r;
    }
    // every path from the start passes a ^ assertion before consuming: later attempts cannot match
    anchored() {
        if (this._anch !== undefined) return this._anch;
        const seen = new Set(), st = [this.A.start];
        let ok = true;
        while (st.length && ok) {
            const q = st.pop();
            if (seen.has(q)) continue;
            seen.add(q);
            const s = this.A.S[q];
            if (s.k === 'a' && s.as === '^') continue;
            if (s.k === 'e') st.push(...s.ns);
            else if (s.k === 'a') st.push(s.n);
            else if (s.k === 'l') st.push(s.n);
            else ok = false;
        }
        return (this._anch = ok);
    }
}
function uniqNeg(neg) { const m = new Map(); for (const n of neg) { const s = [...new Set(n)].sort((a, b) => a - b); m.set(s.join(','), s); } return [...m.keys()].sort().map(k => m.get(k)); }

// representative code units of the coarsest partition that all sets of the languages respect
function alphabet(langs) {
    const cuts = new Set([0]);
    const addRs = rs => { for (const [a, b] of rs) { cuts.add(a); cuts.add(b + 1); } };
    const key = new Map();
    for (const l of langs) for (const rs of l.sets()) { const k = JSON.stringify(rs); if (!key.has(k)) { key.set(k, rs); addRs(rs); } }
    addRs(WORD); addRs(NL);
    const sets = [...key.values(), WORD, NL];
    const seen = new Map();
    for (const c of [...cuts].sort((a, b) => a - b)) {
        if (c > MAX) continue;
        const sig = sets.map(rs => (has(rs, c) ? 1 : 0)).join('');
        if (!seen.has(sig)) seen.set(sig, c);
    }
    // prefer printable representatives for readable witnesses
    for (const [sig, c] of seen) if (c < 33 || c > 126) for (let p = 33; p < 127; p++) if (sets.map(rs => (has(rs, p) ? 1 : 0)).join('') === sig) { seen.set(sig, p); break; }
    return [...seen.values()];
}
// shortest string on which fa(tests of langs) and fb differ; fa, fb: functions from arrays of booleans to boolean
function differ(langs, f, limit = 400000) {
    const al = alphabet(langs);
    const key = ss => ss.map(s => (s === ACC ? ACC : s.key)).join('#');
    const start = langs.map(l => l.init());
    const seen = new Map([[key(start), null]]);
    let q = [[start, '']];
    let n = 0;
    while (q.length) {
        const next = [];
        for (const [ss, w] of q) {
            if (f(ss.map((s, i) => langs[i].ends(s)))) return { word: w, states: n };
            for (const c of al) {
                const t = ss.map((s, i) => langs[i].step(s, c));
                const k = key(t);
                if (seen.has(k)) continue;
                seen.set(k, 1);
                if (++n > limit) throw new Unsupported('product too large');
                next.push([t, w + String.fromCharCode(c)]);
            }
        }
        q = next;
    }
    return { word: null, states: n };
}

// ---- exponential backtracking: a state that can return to itself in two ways on one text, followed by a failing rest ----
function exponential(src, flags = '') {
    const L = new Lang(src, flags);
    const S = L.A.S;
    // moves between character states, with the number of distinct empty paths (capped at 2)
    const memo = new Map();
    const eps = q0 => {
        if (memo.has(q0)) return memo.get(q0);
        const r = new Map();
        let steps = 0;
        // no empty move is repeated on one path: a loop may be left and entered afresh, which backtracking also tries
        const walk = (q, path) => {
            const s = S[q];
            if (++steps > 50000) throw new Unsupported('too many empty moves');
            if (s.k === 'c' || s.k === 'F') { r.set(q, Math.min(2, (r.get(q) || 0) + 1)); return; }
            const ns = s.k === 'e' ? s.ns : [s.n];
            ns.forEach((n, i) => { const ed = q + ':' + i; if (path.has(ed)) return; path.add(ed); walk(n, path); path.delete(ed); });
        };
        walk(q0, new Set());
        memo.set(q0, r);
        return r;
    };
    const starts = [L.A.start, ...S.filter(s => s.k === 'l').map(s => s.s)];
    const reach = new Set();
    const stack = [];
    for (const s of starts) for (const q of eps(s).keys()) stack.push(q);
    while (stack.length) { const q = stack.pop(); if (reach.has(q)) continue; reach.add(q); if (S[q].k === 'c') for (const t of eps(S[q].n).keys()) stack.push(t); }
    const succ = q => (S[q].k === 'c' ? [...eps(S[q].n)].filter(([t]) => S[t].k === 'c') : []);
    const comp = scc([...reach].filter(q => S[q].k === 'c'), q => succ(q).map(x => x[0]));
    const groups = new Map();
    for (const [q, c] of comp) { if (!groups.has(c)) groups.set(c, []); groups.get(c).push(q); }
    for (const [c, qs] of groups) {
        const inner = q => succ(q).filter(([t]) => comp.get(t) === c);
        if (!qs.some(q => inner(q).length)) continue;
        // a doubled edge inside the component
        let bad = null;
        for (const q of qs) for (const [t, n] of inner(q)) if (n > 1) bad = bad || q;
        if (!bad) {
            if (qs.length > 700) throw new Unsupported('component too large');
            const idx = new Map(qs.map((q, i) => [q, i]));
            const N = qs.length;
            const nodes = [];
            const psucc = v => {
                const a = qs[Math.floor(v / N)], b = qs[v % N];
                const out = [];
                if (!overlap(S[a].rs, S[b].rs)) return out;
                for (const [x] of inner(a)) for (const [y] of inner(b)) if (overlap(S[x].rs, S[y].rs)) out.push(idx.get(x) * N + idx.get(y));
                return out;
            };
            const seen = new Set();
            const st = qs.map((_, i) => i * N + i);
            while (st.length) { const v = st.pop(); if (seen.has(v)) continue; seen.add(v); nodes.push(v); st.push(...psucc(v)); }
            const pc = scc(nodes, psucc);
            const diag = new Set(qs.map((_, i) => pc.get(i * N + i)));
            for (const v of nodes) if (Math.floor(v / N) !== v % N && diag.has(pc.get(v))) { bad = qs[Math.floor(v / N)]; break; }
        }
        if (bad !== null && bad !== undefined && canFail(L, bad)) {
            return { pump: String.fromCharCode(S[bad].rs[0][0]), states: S.length };
        }
    }
    return null;
}
function canFail(L, q) {
    // a text that reaches q twice without having matched, from which the match can still fail
    const look = new Set(L.A.S.filter(s => s.k === 'l').map(s => s.s));
    for (const start of [L.A.start, ...look]) {
        const M = Object.create(Lang.prototype);
        M.A = { ...L.A, start }; M.sticky = true; M.trans = new Map();
        const al = alphabet([M]);
        const contains = d => { const out = []; for (const c of d.conjs) for (const p of c.pos) if (reaches(M.A.S, p, q)) return true; return out.length > 0; };
        try {
            const seen = new Set(), st = [[M.init(), 0]];
            let n = 0;
            while (st.length) {
                let [d, k] = st.pop();
                if (d === ACC) continue;
                if (contains(d)) k = Math.min(2, k + 1);
                const key = k + d.key;
                if (seen.has(key)) continue;
                seen.add(key);
                if (++n > 20000) return true;
                if (k === 2) {
                    // can it fail from here?
                    const N = Object.create(Lang.prototype);
                    N.A = M.A; N.sticky = true; N.trans = M.trans; N.init = () => d;
                    if (differ([N], ([x]) => !x, 50000).word !== null) return true;
                }
                for (const c of al) st.push([M.step(d, c), k]);
            }
        } catch (e) { if (e instanceof Unsupported) return true; throw e; }
    }
    return false;
}
function reaches(S, p, q) { const seen = new Set(), st = [p]; while (st.length) { const x = st.pop(); if (x === q) return true; if (seen.has(x)) continue; seen.add(x); const s = S[x]; if (s.k === 'e') st.push(...s.ns); else if (s.k === 'a' || s.k === 'l') st.push(s.n); } return false; }
function scc(nodes, succ) {
    const idx = new Map(), low = new Map(), on = new Set(), comp = new Map();
    const st = [];
    let n = 0, c = 0;
    for (const r of nodes) {
        if (idx.has(r)) continue;
        const work = [[r, null, 0]];
        while (work.length) {
            const f = work[work.length - 1];
            const v = f[0];
            if (f[1] === null) { idx.set(v, n); low.set(v, n); n++; st.push(v); on.add(v); f[1] = succ(v); }
            let pushed = false;
            while (f[2] < f[1].length) {
                const w = f[1][f[2]++];
                if (!idx.has(w)) { work.push([w, null, 0]); pushed = true; break; }
                if (on.has(w)) low.set(v, Math.min(low.get(v), idx.get(w)));
            }
            if (pushed) continue;
            if (low.get(v) === idx.get(v)) { let w; do { w = st.pop(); on.delete(w); comp.set(w, c); } while (w !== v); c++; }
            work.pop();
            if (work.length) { const p = work[work.length - 1][0]; low.set(p, Math.min(low.get(p), low.get(v))); }
        }
    }
    return comp;
}
module.exports = { parse, Lang, differ, exponential, Unsupported, ACC, has, norm, inv };
