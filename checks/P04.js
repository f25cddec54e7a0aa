'use strict';
// P04: every assertion function accepts exactly what the predicate of the same name accepts.
const { run, via, ts, entries, paramNames } = require('./lib');
const { Interp } = require('../engine/absint');
const { publicDecl } = require('../engine/models');
const V = require('../engine/values');
const { Kinds } = require('../engine/kinds');
const { kinds } = require('./kindspec');

let judge = null;
run('P04', ctx => {
    const { prog } = ctx;
    const typesFns = new Map();
    for (const a of prog.publicApi()) if (a.pkg === 'types' && a.isValue) { const d = publicDecl(prog, 'types', a.name); if (d && ts.isFunctionLike(d)) typesFns.set(d, a.name); }
    ctx.count('predicates', typesFns.size);
    const inPkg = (n, pkg) => prog.rel(n.getSourceFile().fileName).startsWith(`packages/${pkg}/`);
    let answer = V.TRUE, calls = [];
    const I = new Interp(prog, {
        onCall(J, fo, thisV, args, node) {
            const name = fo.node && typesFns.get(fo.node);
            if (!name || !node || !J.rootFn || !inPkg(J.rootFn, 'asserts') || inPkg(node, 'types')) return null;
            calls.push({ name, fn: fo.node, args, node });
            return answer;
        }
    });
    I.initModules();
    const lower = s => s[0].toLowerCase() + s.slice(1);
    const covered = new Set();
    for (const e of entries(prog)) {
        if (e.pkg !== 'asserts' || !e.fn) continue;
        const x = e.name.replace(/^assert/, '');
        const want = ['is' + x, lower(x), 'has' + x, 'get' + x].find(n => [...typesFns.values()].includes(n));
        if (!want) { ctx.violation({ key: `${e.id}#nopredicate`, msg: `${e.id} has no predicate of the same name`, at: ctx.pos(e.fn) }); continue; }
        covered.add(want);
        ctx.count('assertions');
        const params = e.fn.parameters.filter(p => p.name.getText() !== 'this');
        const restAt = params.findIndex(p => p.dotDotDotToken);
        // the position of the parameter that names the variable in the message
        const nameAt = params.findIndex((p, i) => i === 1 && paramNames(prog, e.fn)[i] === 'variableName');
        const run1 = (mode, ans) => {
            answer = ans; calls = [];
            const objs = [];
            const maker = J => {
                objs.length = 0;
                const n = restAt < 0 ? params.length : restAt + 3;
                const list = [];
                for (let i = 0; i < n; i++) {
                    if (mode === 'defaults' && i > 0 && i !== nameAt) { objs.push(null); if (restAt < 0) list.push(V.UNDEF); continue; }
                    const o = J.param('P', `arg${i}`);
                    objs.push(o);
                    list.push(V.obj(o));
                }
                return { list, rest: null };
            };
            const r = I.analyse(e.fn, maker, { escape: false });
            return { r, objs, calls: [...new Map(calls.map(c => [c.node, c])).values()] };
        };
        const fail = (k, msg, n) => ctx.violation({ key: `${e.id}#${k}`, msg: `${e.id} ${msg}`, at: ctx.pos(n || e.fn) });
        const yes = run1('given', V.TRUE), no = run1('given', V.FALSE);
        const asked = yes.calls.filter(c => c.name === want);
        if (!asked.length) { fail('predicate', `does not consult ${want}${yes.calls.length ? ' but ' + yes.calls.map(c => c.name).join(', ') : ''}`, yes.calls[0] && yes.calls[0].node); continue; }
        ctx.count('obligations', 5);
        if (yes.calls.some(c => c.name !== want)) fail('other', `also consults ${yes.calls.filter(c => c.name !== want).map(c => c.name).join(', ')}`, asked[0].node);
        if (!yes.r.returns || yes.r.mayThrow) fail('accept', `can throw although ${want} accepts the value`);
        if (no.r.returns) fail('reject', `can return although ${want} rejects the value`);
        const th = [...no.r.thrown.o];
        if (process.env.DBG) console.log(e.id, no.r.thrown.p, th.map(o=>[o.cls,o.org,o.key]));
        if (!th.length || V.primsOnly(no.r.thrown).p || th.some(o => o.cls !== 'TypeError')) fail('class', `does not throw a TypeError when ${want} rejects the value`);
        // the predicate must see the arguments of the assertion, in order, without the variable name
        const same = (got, o) => got.o.size === 1 && got.o.has(o) && !V.primsOnly(got).p;
        for (const c of asked) {
            const exp = yes.objs.filter((_, i) => i !== nameAt);
            const got = flat(I, c.args);
            if (!got || got.length !== exp.length || !exp.every((o, i) => same(got[i], o))) fail('args', `does not pass its own arguments on to ${want} unchanged and in order`, c.node);
        }
        // an omitted option means the same to both
        const def = run1('defaults', V.TRUE);
        for (const c of def.calls.filter(c => c.name === want)) {
            const got = flat(I, c.args);
            if (!got) continue;
            const pp = c.fn.parameters.filter(p => p.name.getText() !== 'this');
            for (let i = 1; i < got.length && i < pp.length && !pp[i].dotDotDotToken; i++) {
                ctx.count('defaults_compared');
                const init = pp[i].initializer;
                if (got[i].p === V.U && !got[i].o.size) continue;
                const cs = V.consts(got[i]);
                const lit = literal(init);
                if (!(cs && cs.length === 1 && init && lit !== undefined && lit.v === cs[0]) && !(cs && cs.length === 1 && sameMeaning(c.fn, i, cs[0]))) fail('default', `gives ${want} a different default for \`${pp[i].name.getText()}\` (${cs ? cs.join('|') : 'an object'} instead of ${init ? init.getText() : 'none'})`, c.node);
            }
        }
        ctx.sample(`${e.name}: ${want}(${yes.objs.length} arguments), throws TypeError iff it is false`);
    }
    const un = [...typesFns.values()].filter(n => /^is[A-Z]/.test(n) && !covered.has(n));
    ctx.lists.predicates_without_assertion = un;
    ctx.need('assertions', 120);
    ctx.need('predicates', 120);
    function literal(n) {
        if (!n) return undefined;
        if (n.kind === ts.SyntaxKind.TrueKeyword) return { v: true };
        if (n.kind === ts.SyntaxKind.FalseKeyword) return { v: false };
        if (n.kind === ts.SyntaxKind.NullKeyword) return { v: null };
        if (ts.isNumericLiteral(n)) return { v: Number(n.text) };
        if (ts.isStringLiteralLike(n)) return { v: n.text };
        return undefined;
    }
    // not visible from the declaration: the predicate answers the same for the value and for none, on every kind of value
    function sameMeaning(fn, i, value) {
        if (!judge) {
            judge = new Interp(prog, {});
            judge.K = new Kinds(judge);
            Object.assign(judge.hooks, judge.K.hooks());
            judge.initModules();
        }
        return kinds().every(k => {
            const ask = v => { const list = [judge.K.lift(k.v)]; while (list.length < i) list.push(V.UNDEF); list.push(v); const r = judge.analyse(fn, () => ({ list, rest: null }), { escape: false }); return `${r.returns}|${r.mayThrow}|${r.returns ? r.ret.p + ':' + (V.consts(r.ret) || []).join() : ''}`; };
            return ask(V.UNDEF) === ask(judge.K.lift(value));
        });
    }
    function flat(J, args) {
        if (!args.rest) return args.list;
        return null;
    }
}, 'Each public assertion is interpreted abstractly twice with the predicate of the same name replaced by the answers true and false: with true it must return on every path, with false it must throw a TypeError on every path, and the predicate must receive exactly the assertion\'s own arguments (without the variable name) and defaults.');
