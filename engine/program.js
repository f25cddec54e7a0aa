'use strict';
// Loads the whole repository as one resolved TypeScript program (types and symbols), from the current working tree.
const fs = require('fs');
const path = require('path');

const TOOLS = ['/opt/veriftools/node/node_modules', path.join(__dirname, 'node_modules')];
function tool(name) {
    for (const t of TOOLS) if (fs.existsSync(path.join(t, name))) return path.join(t, name);
    throw new Error('tool not found: ' + name);
}
const ts = require(tool('typescript'));

const REPO = process.env.CURONG_REPO || '/repo';

function listSources(root = REPO) {
    const out = [];
    const walk = d => {
        for (const e of fs.readdirSync(d, { withFileTypes: true })) {
            if (e.name === '__tests__' || e.name === 'node_modules' || e.name === 'dist') continue;
            const p = path.join(d, e.name);
            if (e.isDirectory()) walk(p);
            else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name) && !/\.(test|spec)\.ts$/.test(e.name)) out.push(p);
        }
    };
    for (const p of fs.readdirSync(path.join(root, 'packages')).sort()) {
        const s = path.join(root, 'packages', p, 'src');
        if (fs.existsSync(s)) walk(s);
    }
    return out.sort();
}

function load(root = REPO) {
    const files = listSources(root);
    const cfg = ts.readConfigFile(path.join(root, 'tsconfig.json'), ts.sys.readFile);
    const parsed = ts.parseJsonConfigFileContent(cfg.config || {}, { ...ts.sys, readDirectory: () => [] }, root);
    const options = {
        ...parsed.options,
        noEmit: true,
        incremental: false,
        allowJs: false,
        baseUrl: root,
        paths: { '@curong/*': ['packages/*/src'], tslib: [tool('tslib') + '/tslib.d.ts'] },
        typeRoots: [tool('@types')],
        types: ['node']
    };
    const program = ts.createProgram({ rootNames: files, options });
    const checker = program.getTypeChecker();
    const sources = files.map(f => program.getSourceFile(f)).filter(Boolean);
    const prog = { ts, root, files, program, checker, sources };
    prog.rel = f => path.relative(root, f);
    prog.pos = node => {
        const sf = node.getSourceFile();
        const { line, character } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
        return `${prog.rel(sf.fileName)}:${line + 1}:${character + 1}`;
    };
    prog.isRepo = node => {
        const f = node.getSourceFile().fileName;
        return f.startsWith(root + '/packages/') && !f.includes('/node_modules/');
    };
    prog.pkgOf = node => prog.rel(node.getSourceFile().fileName).split('/')[1];
    prog.packages = [...new Set(files.map(f => prog.rel(f).split('/')[1]))].sort();
    prog.resolve = sym => {
        let s = sym;
        while (s && s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
        return s;
    };
    // the public interface: what each package's index.ts exports, resolved to declarations
    prog.publicApi = () => {
        const out = [];
        for (const pkg of prog.packages) {
            const sf = program.getSourceFile(path.join(root, 'packages', pkg, 'src/index.ts'));
            if (!sf) continue;
            const m = checker.getSymbolAtLocation(sf);
            if (!m) continue;
            for (const e of checker.getExportsOfModule(m)) {
                const s = prog.resolve(e);
                const decl = s.valueDeclaration || (s.declarations || [])[0];
                if (!decl) continue;
                out.push({ pkg, name: e.name, symbol: s, decl, isValue: !!(s.flags & ts.SymbolFlags.Value) });
            }
        }
        return out;
    };
    return prog;
}

module.exports = { ts, load, listSources, REPO, tool };
