'use strict';
// P07: every text classifier accepts exactly the language its documentation describes.
const { run, ts } = require('./lib');
const { Interp } = require('../engine/absint');
const { publicDecl } = require('../engine/models');
const R = require('../engine/regex');
const V = require('../engine/values');
const { SPECS } = require('./textspec');
const { EMPTY, UNDEF, NULLV, konst, mk, STR } = V;

const show = w => JSON.stringify(w);

run('P07', ctx => {
    const { prog } = ctx;
    let assign = null, asked = null, removed = null;
    // the outcome of matching the caller's text against a pattern is a free boolean of this run
    const decide = (I, o, tv) => {
        const src = patternOf(o);
        if (!src || tv.p !== STR || tv.o.size || tv.l.size !== 1 || !tv.l.has('TEXT')) return null;
        const id = src.flags + '/' + src.source;
        asked.set(id, src);
        return assign.has(id) ? assign.get(id) : null;
    };
    const I = new Interp(prog, {
        markDerived: v => (v.l.has('TEXT') ? new V.Val(v.p, v.c, v.o, V.markAll(v.l, '~x')) : v),
        onTest: (J, o, tv, e, key) => {
            if (!assign) return null;
            const b = decide(J, o, tv);
            if (b === null) return null;
            if (key === 'test') return b ? V.TRUE : V.FALSE;
            return b ? V.obj(J.alloc(e, 'Array', 'exec')) : NULLV;
        },
        onMatch: (J, key, sv, pat, e, args) => {
            if (removed && key.startsWith('replace') && [...sv.l].some(l => /^(TEXT|REST)/.test(l))) {
                const src = pat.o.size === 1 && !pat.p ? patternOf([...pat.o][0]) : null;
                const rep = V.consts(J.argAt(args, 1));
                removed.push({ src, whole: sv.p === STR && !sv.o.size && sv.l.size === 1 && sv.l.has('TEXT'), empty: !!rep && rep.length === 1 && rep[0] === '' });
                return mk(STR, null, EMPTY, new Set(['REST' + removed.length]));
            }
            if (!assign || pat.o.size !== 1 || key.startsWith('replace')) return null;
            const b = decide(J, [...pat.o][0], sv);
            if (b === null) return null;
            if (key === 'search') return b ? V.NUMV : konst(-1);
            return b ? V.obj(J.alloc(e, 'Array', 'match')) : NULLV;
        }
    });
    I.exact = true;
    I.initModules();
    const text = () => mk(STR, null, EMPTY, new Set(['TEXT']));

    const opt = (I2, fn, o) => {
        if (o === undefined) return UNDEF;
        if (typeof o !== 'object' || o === null) return konst(o);
        const v = I2.alloc(fn, 'Object', 'opts' + JSON.stringify(o));
        for (const [k, x] of Object.entries(o)) I2.setProp(V.obj(v), k, konst(x), fn, 'init');
        return V.obj(v);
    };
    const langs = new Map();
    const lang = (source, flags) => { const k = flags + '/' + source; if (!langs.has(k)) langs.set(k, new R.Lang(source, flags.replace(/[gy]/g, ''))); return langs.get(k); };

    for (const s of SPECS) {
        const [pkg, name] = s.fn.split('.');
        if (s.constant) { constant(s, pkg, name); continue; }
        const fn = publicDecl(prog, pkg, name);
        const key = s.fn + (s.args && s.args.length ? '(' + s.args.map(a => JSON.stringify(a)).join(',') + ')' : '');
        ctx.anchor(fn, s.fn);
        if (!fn) continue;
        if (s.removes) { trimmed(s, fn, key); continue; }
        // explore: one run per assignment of outcomes to the patterns consulted so far
        const leaves = [];
        const work = [new Map()];
        let runs = 0;
        while (work.length && runs++ < 64) {
            assign = work.pop();
            asked = new Map();
            const r = I.analyse(fn, J => ({ list: [text(), ...(s.args || []).map(a => opt(J, fn, a))], rest: null }), { escape: false });
            const open = [...asked].filter(([id]) => !assign.has(id));
            if (open.length) { const [id, src] = open[0]; for (const b of [true, false]) { const m = new Map(assign); m.set(id, b); m.src = new Map([...(assign.src || []), [id, src]]); work.push(m); } continue; }
            const c = V.consts(r.ret);
            leaves.push({ assign, verdict: c && c.length === 1 && typeof c[0] === 'boolean' ? c[0] : null });
        }
        assign = null;
        if (!leaves.length || !leaves.some(l => l.assign.size)) { ctx.note(`${key}: no pattern is consulted on the text itself`); ctx.count('undecided'); continue; }
        const ids = [...new Set(leaves.flatMap(l => [...l.assign.keys()]))];
        const srcs = new Map(leaves.flatMap(l => [...(l.assign.src || [])]));
        let L;
        try { L = ids.map(id => lang(srcs.get(id).source, srcs.get(id).flags)); } catch (e) {
            if (!(e instanceof R.Unsupported)) throw e;
            ctx.note(`${key}: ${e.message}`); ctx.count('undecided'); continue;
        }
        const spec = s.accept.map(x => lang(...x));
        const all = [...L, ...spec];
        const verdictOf = bs => { const l = leaves.find(x => [...x.assign].every(([id, b]) => bs[ids.indexOf(id)] === b)); return l ? l.verdict : null; };
        const want = bs => (s.test ? s.test(bs.slice(L.length)) : bs[L.length]);
        const free = bs => !!s.free && s.free(bs.slice(L.length));
        for (const [kind, pred] of [['accepts', bs => !free(bs) && verdictOf(bs) !== false && !want(bs)], ['rejects', bs => !free(bs) && verdictOf(bs) === false && want(bs)]]) {
            ctx.count('obligations');
            let d;
            try { d = R.differ(all, pred); } catch (e) { if (!(e instanceof R.Unsupported)) throw e; ctx.note(`${key}: ${e.message}`); ctx.count('undecided'); continue; }
            ctx.count('automaton_states', d.states);
            if (d.word === null) continue;
            ctx.violation({ key: `${key}:${kind}`, msg: `${key} ${kind} ${show(d.word)}, which ${kind === 'accepts' ? 'is not' : 'is'} ${s.what}`, at: ctx.pos(fn) });
        }
        ctx.count('classifiers');
        ctx.sample(`${key}: ${ids.length} pattern(s), ${leaves.length} cases, equal to ${s.what}`);
    }
    // one replacement of the text by the empty string: which parts of the text does its pattern cover?
    function trimmed(s, fn, key) {
        removed = [];
        const r = I.analyse(fn, J => ({ list: [text(), ...(s.args || []).map(a => opt(J, fn, a))], rest: null }), { escape: false });
        const got = [...new Map(removed.map(x => [JSON.stringify(x), x])).values()];
        removed = null;
        const back = [...r.ret.l].filter(l => l.startsWith('REST'));
        if (got.length !== 1 || !got[0].whole || !got[0].empty || !got[0].src || !back.length) { ctx.note(`${key}: not a single removal from the text`); ctx.count('undecided'); return; }
        const [src, flags] = s.removes;
        ctx.count('removals');
        if (!src) return; // nothing selected
        if (/g/.test(got[0].src.flags) !== /g/.test(flags) && !(flags === '' && /^\^|\$$/.test(src))) ctx.violation({ key: key + ':flags', msg: `${key} ${/g/.test(flags) ? 'stops after the first' : 'removes every'} occurrence (flags "${got[0].src.flags}")`, at: ctx.pos(fn) });
        for (const [name, wrap] of [['removes from', x => x], ['removes whole', x => `^(?:${x})$`]]) {
            ctx.count('obligations');
            let d;
            try { d = R.differ([lang(wrap(got[0].src.source), got[0].src.flags), lang(wrap(src), flags)], ([a, b]) => a !== b); } catch (e) { if (!(e instanceof R.Unsupported)) throw e; ctx.note(`${key}: ${e.message}`); ctx.count('undecided'); return; }
            ctx.count('automaton_states', d.states);
            if (d.word !== null) ctx.violation({ key: `${key}:${name.replace(/ /g, '_')}`, msg: `${key} treats ${show(d.word)} differently from removing ${s.what}`, at: ctx.pos(fn) });
        }
    }
    function constant(s, pkg, name) {
        const sym = prog.publicApi().find(a => a.pkg === pkg && a.name === name.split('#')[0]);
        ctx.anchor(sym, s.fn);
        if (!sym) return;
        const v = I.getProp(I.readSym(sym.symbol, null, sym.decl), name.split('#')[1], sym.decl);
        const c = V.consts(v);
        let got = null;
        if (c && c.length === 1 && typeof c[0] === 'string') got = { source: c[0], flags: '' };
        else if (v.o.size === 1) got = patternOf([...v.o][0]);
        if (!got) { ctx.note(`${s.fn}: text of the pattern not derived`); ctx.count('undecided'); return; }
        let langA;
        try { langA = lang(`^(?:${got.source})$`, got.flags); } catch (e) { if (!(e instanceof R.Unsupported)) throw e; ctx.note(`${s.fn}: ${e.message}`); ctx.count('undecided'); return; }
        const spec = s.accept.map(x => lang(...x));
        const free = bs => !!s.free && s.free(bs.slice(1));
        for (const [kind, pred] of [['matches', bs => !free(bs) && bs[0] && !(s.test ? s.test(bs.slice(1)) : bs[1])], ['does not match', bs => !free(bs) && !bs[0] && (s.test ? s.test(bs.slice(1)) : bs[1])]]) {
            ctx.count('obligations');
            const d = R.differ([langA, ...spec], pred);
            ctx.count('automaton_states', d.states);
            if (d.word !== null) ctx.violation({ key: `${s.fn}:${kind.replace(/ /g, '_')}`, msg: `the pattern ${s.fn} ${kind} ${show(d.word)} (U+${d.word.charCodeAt(0).toString(16)}), which ${kind === 'matches' ? 'is not' : 'is'} ${s.what}`, at: ctx.pos(sym.decl) });
        }
        ctx.count('patterns');
    }
    ctx.need('classifiers', 15);
    ctx.need('obligations', 80);
}, 'Every text classifier is interpreted with an arbitrary text and one free boolean per pattern it consults on that text, which yields its answer as a boolean function of pattern matches; patterns (their text is derived by constant propagation) become automata with lookahead and anchors, and the resulting language is compared with the specified one for equality; a difference is reported with a shortest text.');
function patternOf(o) {
    if (o.regex !== undefined) { const i = o.regex.lastIndexOf('/'); return { source: o.regex.slice(1, i), flags: o.regex.slice(i + 1) }; }
    if (o.cls !== 'RegExp' || !o.patternV || o.flags === null) return null;
    const c = V.consts(o.patternV);
    if (c && c.length === 1 && typeof c[0] === 'string') return { source: c[0], flags: o.flags || '' };
    if (!c && o.patternV.o.size === 1 && !o.patternV.p) { const p = patternOf([...o.patternV.o][0]); return p && { source: p.source, flags: o.flags || p.flags }; }
    return null;
}
