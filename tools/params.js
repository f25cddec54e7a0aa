'use strict';
// Writes engine/params.json: the parameter names of every public function, by position, as the tables of the checks spell them.
// Run once on the tree the tables were written from; the checks use these names whatever the parameters are called later.
const { load, ts } = require('../engine/program');
const { entries } = require('../checks/lib');
const { eachEntry } = require('../checks/facts');
const prog = load(), out = {};
const add = e => { if (e.fn) { const n = e.fn.parameters.filter(p => p.name.getText() !== 'this').map(p => (ts.isIdentifier(p.name) ? p.name.text : null)); if (n.length) out[e.id] = n; } };
for (const e of entries(prog)) add(e);
eachEntry({ prog, count() {}, note() {} }, add);
require('fs').writeFileSync(__dirname + '/../engine/params.json', '{\n' + Object.keys(out).sort().map(k => ` ${JSON.stringify(k)}: ${JSON.stringify(out[k])}`).join(',\n') + '\n}\n');
