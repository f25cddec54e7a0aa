'use strict';
const fs = require('fs');
const path = require('path');
const { props, notApplicable } = require('./props');
const root = path.resolve(__dirname, '..');
const lines = [...props, ...notApplicable].map(p => JSON.stringify({
    id: p.id, title: p.title, statement: p.statement,
    quantifier: { over: p.over, text: p.q },
    why_tests_cant: p.why,
    anchors: { files: p.files, ...(p.state ? { state: p.state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}), mechanism: p.mech.map(([name, where]) => ({ name, where })), hook_needed: null }
}));
for (const p of [...props, ...notApplicable]) if (p.title.length > 80) throw new Error('title too long: ' + p.id);
for (const p of props) if (!fs.existsSync(path.join(root, 'checks', p.id + '.js'))) throw new Error('no check for ' + p.id);
fs.writeFileSync(path.join(root, 'properties.jsonl'), lines.join('\n') + '\n');
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({
    version: 1,
    setup_cmd: 'node --version && test -f /opt/veriftools/node/node_modules/typescript/lib/typescript.js',
    checks: props.map(p => ({
        property: p.id,
        quick_cmd: `node checks/${p.id}.js`,
        thorough_cmd: `VERIF_TIER=thorough node checks/${p.id}.js`,
        technique: p.technique, level: p.level || 'other', level_note: p.note
    })),
    not_applicable: notApplicable.map(p => ({ property: p.id, reason: p.reason }))
}, null, 2) + '\n');
