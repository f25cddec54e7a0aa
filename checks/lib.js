'use strict';
// Common harness of every check: loads the current source, runs one rule, compares its findings with the committed list of
// known findings, writes the evidence file and prints the verdict.
const fs = require('fs');
const path = require('path');
const ROOT = path.resolve(__dirname, '..');
const { load, ts } = require('../engine/program');
const KNOWN = path.join(ROOT, 'known-findings.txt');

function known(id) {
    const out = new Map();
    if (!fs.existsSync(KNOWN)) return out;
    for (const line of fs.readFileSync(KNOWN, 'utf8').split('\n')) {
        const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line.trim());
        if (m && m[1] === id) out.set(m[2], m[3]);
    }
    return out;
}

/**
 * rule(ctx) reports with ctx.violation({key, msg, at, path}); ctx.count(name, n) measures; ctx.need(name, min) refuses to
 * pass when fewer instances than confirmed by hand were analysed; ctx.note(text) goes to the evidence.
 */
function run(id, rule, explanation) {
    const t0 = Date.now();
    const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
    const prog = load();
    const ctx = {
        id, tier, prog, ts,
        found: new Map(), counts: {}, notes: [], missing: [], samples: [], lists: {},
        violation(v) { if (!this.found.has(v.key)) this.found.set(v.key, v); },
        count(n, k = 1) { this.counts[n] = (this.counts[n] || 0) + k; },
        need(n, min) { if ((this.counts[n] || 0) < min) this.missing.push(`${n}: ${this.counts[n] || 0} < ${min}`); },
        anchor(ok, what) { if (!ok) this.missing.push(`anchor not found: ${what}`); },
        note(t) { if (this.notes.length < 200) this.notes.push(t); },
        sample(s) { if (this.samples.length < 12) this.samples.push(s); },
        pos: n => prog.pos(n)
    };
    let error = null;
    try { rule(ctx); } catch (e) { error = e; }
    const kn = known(id);
    const fresh = [], old = [];
    for (const v of ctx.found.values()) (kn.has(v.key) ? old : fresh).push(v);
    const ev = {
        property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'other',
        coverage: {
            explanation,
            sources_parsed: prog.sources.length,
            ...ctx.counts,
            ...ctx.lists,
            samples: ctx.samples,
            notes: ctx.notes,
            known_findings_confirmed: old.map(v => v.key),
            violations: fresh.map(v => ({ key: v.key, msg: v.msg, at: v.at })),
            instance_floor_missed: ctx.missing
        },
        wall_s: (Date.now() - t0) / 1000
    };
    fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
    if (error) { console.error(error.stack); process.exit(2); }
    for (const v of old) console.log(`KNOWN-FINDING: property=${id} ${v.key}: ${v.msg}`);
    if (fresh.length) {
        const rp = path.join(ROOT, 'evidence', id + '.replay.txt');
        fs.writeFileSync(rp, fresh.map(v => `[${v.key}] ${v.msg}\n  at ${v.at || '?'}\n${v.path ? '  via ' + v.path + '\n' : ''}`).join('\n'));
        for (const v of fresh) console.log(`  [${v.key}] ${v.msg} (${v.at || '?'})${v.path ? ' via ' + v.path : ''}`);
        console.log(`VIOLATION property=${id} replay=${rp}`);
        process.exit(1);
    }
    if (ctx.missing.length) {
        console.error(`check ${id} cannot decide: ${ctx.missing.join('; ')}`);
        process.exit(2);
    }
    console.log(`OK property=${id} ${Object.entries(ctx.counts).map(([k, v]) => `${k}=${v}`).join(' ')} ${ev.wall_s.toFixed(1)}s`);
    process.exit(0);
}

// every function a user of the packages can call: exported functions, functions held by exported variables, classes
function entries(prog) {
    const out = [];
    for (const a of prog.publicApi()) {
        if (!a.isValue) continue;
        // a function that is also given properties has several declarations
        const d = ts.isFunctionDeclaration(a.decl) || ts.isClassDeclaration(a.decl) ? a.decl : (a.symbol.declarations || []).find(x => ts.isFunctionDeclaration(x) && x.body) || a.decl;
        if (ts.isFunctionDeclaration(d)) {
            const impl = d.body ? d : (a.symbol.declarations || []).find(x => x.body);
            if (impl) out.push({ pkg: a.pkg, name: a.name, id: `${a.pkg}.${a.name}`, fn: impl, kind: 'function' });
        } else if (ts.isClassDeclaration(d)) {
            const ctor = d.members.find(m => ts.isConstructorDeclaration(m) && m.body);
            if (ctor) out.push({ pkg: a.pkg, name: a.name, id: `${a.pkg}.${a.name}`, fn: ctor, cls: d, kind: 'constructor' });
            for (const m of d.members) if (ts.isMethodDeclaration(m) && m.body && !(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Private)) out.push({ pkg: a.pkg, name: `${a.name}.${m.name.getText()}`, id: `${a.pkg}.${a.name}.${m.name.getText()}`, fn: m, cls: d, kind: 'method' });
        } else {
            const init = ts.isVariableDeclaration(d) ? d.initializer : ts.isExportAssignment(d) ? d.expression : null;
            out.push({ pkg: a.pkg, name: a.name, id: `${a.pkg}.${a.name}`, fn: init && (ts.isArrowFunction(init) || ts.isFunctionExpression(init)) ? init : null, decl: d, kind: 'value', symbol: a.symbol });
        }
    }
    for (const e of out) nameParams(prog, e.id, e.fn);
    return out;
}
const uniq = a => [...new Set(a)];
function via(prog, ev) {
    return uniq([...ev.stack.map(n => prog.pos(n)), prog.pos(ev.node)]).join(' -> ');
}
// The tables of the checks speak of parameters by name: the names they had when the tables were written (engine/params.json), by
// position, whatever they are called now.
const CANON = (() => { try { return JSON.parse(fs.readFileSync(path.join(ROOT, 'engine', 'params.json'), 'utf8')); } catch { return {}; } })();
function nameParams(prog, id, fn) {
    const names = CANON[id];
    if (!names || !fn) return;
    if (!prog.canon) prog.canon = new Map();
    if (prog.canon.has(fn)) return;
    const ps = fn.parameters.filter(p => p.name.getText() !== 'this'), used = new Set(names);
    prog.canon.set(fn, ps.map((p, i) => { if (i < names.length) return names[i] || 'arg' + i; const t = ts.isIdentifier(p.name) ? p.name.text : 'arg' + i; return used.has(t) ? t + '$' + i : t; }));
}
// the names of the parameters of a function ("this" left out), as the tables spell them
function paramNames(prog, fn) {
    const c = prog.canon && prog.canon.get(fn);
    return c || fn.parameters.filter(p => p.name.getText() !== 'this').map((p, i) => (ts.isIdentifier(p.name) ? p.name.text : 'arg' + i));
}
module.exports = { run, entries, via, ts, ROOT, nameParams, paramNames };
