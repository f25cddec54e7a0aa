'use strict';
// The documented conditions on arguments: for each function and argument, which values the documentation accepts. Written
// from the documentation (`@param`, `@throws`) and ECMAScript, independently of how the repository tests them.
const { SPEC } = require('./kindspec');

const int = Number.isInteger, safe = Number.isSafeInteger;
const boxed = v => typeof v === 'object' && v !== null && (v instanceof Number || v instanceof String || v instanceof Boolean || v instanceof BigInt);
// documented kinds only: what the documentation does not speak about is undefined (no obligation)
const uintFilled = v => int(v) && v > 0;
const uint = v => int(v) && v >= 0;
const dflt = ok => v => (v === undefined ? true : ok(v));
const byte = v => int(v) && v >= 0 && v <= 255;
const sync = v => (typeof v === 'function' ? !/Async/.test(Object.prototype.toString.call(v)) : false);
const num = v => (typeof v === 'number' ? !Number.isNaN(v) : v instanceof Number ? undefined : false);
// a value that becomes a number: only numbers and texts are documented, of the others only those that cannot become one
const numeric = v => {
    if (typeof v === 'number') return Number.isFinite(v);
    if (typeof v === 'string') return v.trim() === '' ? undefined : Number.isFinite(+v);
    if (boxed(v) || v === null || typeof v === 'boolean') return undefined;
    if (v === undefined || typeof v === 'symbol' || typeof v === 'bigint') return false;
    let n;
    try { n = +v; } catch { return false; }
    return Number.isFinite(n) ? undefined : false;
};
const ms = v => int(v) && v <= 2147483647;
const filledText = v => (typeof v === 'string' ? v !== '' && (v.trim() !== '' || undefined) : v instanceof String ? undefined : false);
const duration = v => (typeof v === 'number' ? safe(v) && v <= 2147483647 : typeof v === 'string' ? (v.trim() === '' ? undefined : safe(+v) && +v <= 2147483647) : typeof v === 'function' || (typeof v === 'object' && v !== null) ? undefined : false);
const COLORS = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'].flatMap(c => [c, 'light' + c]).concat('Red', 'lightRed', 'redlight', 'purple', 'light', 'red ');
const color = v => (typeof v === 'string' ? /^(light)?(black|red|green|yellow|blue|magenta|cyan|white)$/.test(v) : v instanceof String ? undefined : false);
const f = () => 1;
const A3 = [1, 2, 3];

const at = (i, ...args) => ({ args, put: (a, v) => { a[i] = v; } });
const opt = (i, key, ...args) => ({ args, put: (a, v) => { a[i] = { ...a[i], [key]: v }; } });

// { fn, arg, ok(v), how } -- `how` puts the value among otherwise valid arguments
const ARGS = [
    { fn: 'array/splitByStep', arg: 'step', ok: uintFilled, how: at(1, A3) },
    { fn: 'array/splitChunk', arg: 'length', ok: uintFilled, how: at(1, A3) },
    { fn: 'array/splitChunk', arg: 'padPosition', ok: v => v === undefined || v === 'start' || v === 'end', how: at(2, A3, 2) },
    { fn: 'array/range', arg: 'step', ok: v => (typeof v === 'number' ? Number.isFinite(v) && v !== 0 : v === undefined), how: at(2, 4, 4) },
    { fn: 'array/range', arg: 'step (from > to)', ok: v => (v === undefined ? false : typeof v === 'number' ? Number.isFinite(v) && v < 0 : false), how: at(2, 4, 1) },
    { fn: 'array/range', arg: 'step (from < to)', ok: v => (v === undefined ? true : typeof v === 'number' ? Number.isFinite(v) && v > 0 : false), how: at(2, 1, 4) },
    { fn: 'array/isMultiDimensional', arg: 'dimension', ok: v => (typeof v === 'number' && v !== 0 && !Number.isNaN(v) ? int(v) && v > 1 : v ? false : undefined), how: at(1, [[1]]) },
    { fn: 'array/move', arg: 'from', ok: v => (int(v) ? (Object.is(v, -0) ? true : v >= -3 && v <= 2) : typeof v === 'number' && !Number.isNaN(v) && (v >= 3 || v < -3) ? false : undefined), how: at(1, A3, undefined, 1) },
    { fn: 'array/move', arg: 'to', ok: v => (int(v) ? v >= -3 && v <= 2 : typeof v === 'number' && !Number.isNaN(v) && (v >= 3 || v < -3) ? false : undefined), how: at(2, A3, 1) },
    { fn: 'function/collectItems', arg: 'options.total', ok: v => (!v ? undefined : uint(v)), how: opt(0, 'total', {}) },
    { fn: 'function/runAfterTimes', arg: 'count', ok: v => safe(v) && v >= 0, how: at(0, undefined, f) },
    { fn: 'function/runAfterTimes', arg: 'callback', ok: sync, how: at(1, 2) },
    { fn: 'function/runOnlyNTimes', arg: 'count', ok: v => safe(v) && v >= 0, how: at(0, undefined, f) },
    { fn: 'function/runOnlyNTimes', arg: 'callback', ok: sync, how: at(1, 2) },
    { fn: 'function/timeoutMsResolve', arg: 'duration', ok: duration, how: at(0) },
    { fn: 'function/timeoutLog', arg: 'duration', ok: v => ms(v) && v >= 0, how: at(0) },
    { fn: 'number/toInt', arg: 'value', ok: v => (typeof v === 'string' && v.trim() === '' ? false : v instanceof String && v.trim() === '' ? false : numeric(v)), how: at(0) },
    { fn: 'number/inRange', arg: 'value', ok: num, how: at(0, undefined, 10) },
    { fn: 'number/inRange', arg: 'start', ok: num, how: at(1, 5) },
    { fn: 'number/inRange', arg: 'end', ok: dflt(num), how: at(2, 5, 1) },
    { fn: 'number/range', arg: 'start', ok: safe, how: at(0, undefined, 3) },
    { fn: 'number/range', arg: 'end', ok: safe, how: at(1, 3) },
    { fn: 'number/rangeSafe', arg: 'start', ok: v => (safe(v) ? undefined : false), how: at(0, undefined, 3) },
    { fn: 'number/rangeSafe', arg: 'end', ok: v => (safe(v) ? undefined : false), how: at(1, 3) },
    { fn: 'number/withDelimiter', arg: 'value', ok: numeric, how: at(0) },
    { fn: 'number/withDelimiter', arg: 'options.capacity', ok: v => (v === undefined ? undefined : uintFilled(v) ? (v < 1e21 ? true : undefined) : false), how: opt(1, 'capacity', 12345, {}) },
    { fn: 'object/keys', arg: 'methodLevel', ok: v => v === undefined || (int(v) && v >= 0 && v <= 3), how: at(1, { a: 1 }) },
    { fn: 'object/sortKeys', arg: 'value', ok: v => (Array.isArray(v) ? true : SPEC.isPlainObject(v)), how: at(0) },
    { fn: 'regexp/testSome', arg: 'str (no regexps)', ok: v => (typeof v === 'string' ? v !== '' : undefined), how: at(1, []) },
    { fn: 'regexp/testEvery', arg: 'str (no regexps)', ok: v => (typeof v === 'string' ? v !== '' : undefined), how: at(1, []) },
    { fn: 'regexp/execAll', arg: 'keyOrCallback', ok: v => (typeof v === 'number' ? Number.isNaN(v) ? undefined : uint(v) && v < 100 : typeof v === 'string' ? /^(\d\d?|index|input|groups|length)$/.test(v) : boxed(v) ? undefined : true), how: at(2, /z/, 'a'), extra: ['0', '99', '100', 'index', 'input', 'groups', 'length', 'lastIndex', 'index ', '-1', '1.5'] },
    { fn: 'string/toRegExp', arg: 'flags', ok: v => (v === undefined ? true : typeof v === 'string' ? /^[gimuy]{0,5}$/.test(v) && new Set(v).size === v.length : undefined), how: at(1, 'a'), extra: ['g', 'gi', 'yumig', 'x', 's', 'd', 'gg', 'G', 'g ', '\ng', 'g\n', 'gimuyx'] },
    { fn: 'string/notStarts', arg: 'options.position', ok: v => (v === undefined ? true : int(v) && v >= 0 && v <= 5), how: opt(2, 'position', 'abcde', ['c'], {}) },
    { fn: 'string/startsSlice', arg: 'options.position', ok: v => (v === undefined ? true : int(v) && v >= 0 && v <= 5), how: opt(2, 'position', 'abcde', 'c', {}) },
    { fn: 'string/word', arg: 'position', ok: dflt(uint), how: at(1, 'ab cd') },
    { fn: 'string/wordStart', arg: 'position', ok: dflt(uint), how: at(1, 'ab cd') },
    { fn: 'string/wordEnd', arg: 'position', ok: dflt(uint), how: at(1, 'ab cd') },
    { slow: true, fn: 'string/splitByBytes', arg: 'highWaterMark', ok: dflt(uintFilled), how: at(1, 'abc') },
    { fn: 'term/colorCode8bit', arg: 'colorCode', ok: byte, how: at(0) },
    { fn: 'term/colorCode24bit', arg: 'colorCodes', ok: v => Array.isArray(v) && v.length === 3 && v.every(byte), how: at(0), extra: [[1, 2], [1, 2, 3], [1, 2, 3, 4], [0, 255, 0], [256, 0, 0], [0, 0, -1], ['1', 2, 3]] },
    ...[0, 1, 2].map(i => ({ fn: 'term/colorCode24bit', arg: `colorCodes[${i}]`, ok: byte, how: { args: [[1, 2, 3]], put: (a, v) => { a[0] = a[0].slice(); a[0][i] = v; } } })),
    { fn: 'cookie/createCookie', arg: 'name', ok: v => (typeof v === 'string' ? (/[^\t\x20-\x7e\x80-\xff]/.test(v) || v === '' ? false : /[;=\s]/.test(v) ? undefined : true) : v instanceof String ? undefined : false), how: at(0, undefined, 'v', {}), extra: ['\n', 'a\r\nb', 'a\u0000', 'a\u0100', '\u007f', 'a\nb'] },
    { fn: 'cookie/createCookie', arg: 'options.encode', ok: v => (v === undefined ? true : typeof v === 'function' && v.length > 0 ? undefined : false), how: opt(2, 'encode', 'n', 'v', {}) },
    { fn: 'cookie/parseCookie', arg: 'cookie', extra: ['a=b', 'a=b; c=d'], ok: v => (typeof v === 'string' ? (v.includes('=') ? true : undefined) : v instanceof String ? undefined : false), how: at(0) },
    { fn: 'cookie/joinSetCookie', arg: 'cookie', ok: v => (typeof v !== 'object' || v === null ? false : undefined), how: at(0) },
    { fn: 'object/values', arg: 'methodLevel', ok: v => v === undefined || (int(v) && v >= 0 && v <= 3), how: at(1, { a: 1 }) },
    { slow: true, fn: 'object/cascade', arg: 'cascadeKey', ok: v => (typeof v === 'string' && v.trim() !== '' && !/^\w+$/.test(v) ? undefined : filledText(v)), how: at(1, { a: 1 }) },
    { slow: true, fn: 'fs/readFragment', arg: 'options.start', ok: dflt(v => safe(v) && v >= 0), how: opt(1, 'start', '/tmp/x', {}) },
    { slow: true, fn: 'fs/readFragment', arg: 'options.end', ok: dflt(v => safe(v) && v >= 0), how: opt(1, 'end', '/tmp/x', {}) },
    ...[0, 1, 2].map(i => ({ slow: true, fn: 'fs/destPath', arg: ['filePath', 'srcDir', 'desDir'][i], ok: filledText, how: at(i, ...['/a/b/c', '/a/b', '/d'].map((x, j) => (i === j ? undefined : x))) })),
    { slow: true, fn: 'fs/findDir', arg: 'pathString', ok: filledText, how: at(0) },
    ...['setTimeout', 'delay', 'timeoutOr'].slice(0, 1).map(n => ({ fn: 'function/' + n, arg: 'duration', ok: v => (v === undefined ? true : duration(v)), how: at(1, f) })),
    { fn: 'term/colorNameCode3bit', arg: 'colorName', ok: color, how: at(0), extra: COLORS },
    { fn: 'term/colorNameCode24bit', arg: 'colorName', ok: color, how: at(0), extra: COLORS },
    { fn: 'term/colorNameCode24bit', arg: 'terminalType', ok: v => (v === undefined || v === 'Ubuntu' ? true : v === null || typeof v === 'boolean' || typeof v === 'number' ? false : undefined), how: at(1, 'red') },
    { fn: 'fs/readline', arg: 'code', ok: v => (typeof v === 'string' || Buffer.isBuffer(v) ? undefined : v instanceof String ? undefined : false), how: at(0, undefined, f) },
];
module.exports = { ARGS };
