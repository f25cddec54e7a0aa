'use strict';
// Specification of the text classifiers and character patterns: written from their documentation, from RFC 4291 (IPv6) and from
// the character properties of Unicode 12 (the version the tables of the library were generated from), not from the code.
const h = '[0-9a-fA-F]{1,4}';
const octet = '(?:25[0-5]|2[0-4][0-9]|1[0-9]{2}|[0-9]{1,2})';
const v4 = `${octet}(?:\\.${octet}){3}`;
function ipv6() {
    const cat = n => Array(n).fill(h).join(':');
    const alts = [cat(8), `${cat(6)}:${v4}`];
    for (const tail of ['', v4]) {
        const N = tail ? 6 : 8;
        for (let l = 0; l < N; l++) for (let r = 0; l + r < N; r++) alts.push(`${l ? cat(l) : ''}::${[r ? cat(r) : '', tail].filter(Boolean).join(':')}`);
    }
    return `(?:${alts.join('|')})`;
}
const port = '(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{0,3}|0)';

// characters that changed their class after Unicode 12
const LATER = {
    P: '61d 1b4e-1b4f 1b7d-1b7f 2e52-2e5d',
    U: '4db6-4dbf 9ff0-9fff',
    C: '61d 870-88f 897-89f 8b5 8be-8d2 b55 c3c c5c-c5d cdc-cdd cf3 d04 d81 ece 170d 1715 171f 180f 1abf-1add 1ae0-1aeb 1b4c 1b4e-1b4f 1b7d-1b7f 1c89-1c8a 1dfa 20c0-20c1 2427-2429 2b96-2b97 2c2f 2c5f 2e50-2e5d 2ffc-2fff 31bb-31bf 31e4-31e5 31ef 4db6-4dbf 9ff0-9fff a7c0-a7c1 a7c7-a7dc a7f1-a7f6 a82c ab68-ab6b fbc2-fbd2 fd40-fd4f fd90-fd91 fdc8-fdcf fdfe-fdff'
};
const ranges = t => t.split(' ').filter(Boolean).map(x => x.split('-').map(y => parseInt(y, 16))).map(([a, b]) => [a, b === undefined ? a : b]);
const inR = (rs, c) => rs.some(([a, b]) => c >= a && c <= b);
const u4 = c => '\\u' + c.toString(16).padStart(4, '0');
function cls(pred) {
    const out = [];
    for (let c = 0; c < 0x10000; c++) if (pred(c)) { const l = out[out.length - 1]; if (l && l[1] === c - 1) l[1] = c; else out.push([c, c]); }
    return '[' + out.map(([a, b]) => (a === b ? u4(a) : u4(a) + '-' + u4(b))).join('') + ']';
}
const prop = (p, extra = '', minus = '') => { const re = new RegExp(`^\\p{${p}}$`, 'u'), e = ranges(extra), m = ranges(minus); return cls(c => (re.test(String.fromCharCode(c)) || inR(e, c)) && !inR(m, c)); };
// supplementary characters as pairs
function astral(rs) {
    const alts = [];
    for (const [a, b] of rs) for (let c = a; c <= b;) {
        const hi = 0xd800 + ((c - 0x10000) >> 10), lo = 0xdc00 + ((c - 0x10000) & 0x3ff);
        const end = Math.min(b, 0x10000 + (((c - 0x10000) >> 10) << 10) + 0x3ff);
        const lo2 = 0xdc00 + ((end - 0x10000) & 0x3ff);
        alts.push(`${u4(hi)}[${u4(lo)}-${u4(lo2)}]`);
        c = end + 1;
    }
    return alts.join('|');
}
const UNIFIED = `(?:${prop('Unified_Ideograph', '', LATER.U)}|${astral([[0x20000, 0x2a6d6], [0x2a700, 0x2b734], [0x2b740, 0x2b81d], [0x2b820, 0x2cea1], [0x2ceb0, 0x2ebe0]])})`;
// blocks named by the documentation of the patterns
const HIRAGANA = '[\\u3041-\\u3096\\u3099-\\u309f]', KATAKANA = prop('Script=Katakana', '30a0 30fb-30fc');
const HAN = '[\\u2e80-\\u2ef3\\u2f00-\\u2fd5\\u3005\\u3007\\u3021-\\u3029\\u3038-\\u303b\\u3200-\\u33ff\\u3400-\\u4db5\\u4e00-\\u9fef\\uf900-\\ufa6d\\ufa70-\\ufad9]';
const CJKPUNCT = '[\\u2000-\\u206f\\u2e00-\\u2e7f\\u3000-\\u303f\\ufe10-\\ufe1f\\ufe30-\\ufe4f\\uff00-\\uffef]';
const joined = (...a) => '(?:' + a.join('|') + ')';
const JAPANESE = joined(prop('Script=Han', '', LATER.U), prop('Script=Hiragana'), prop('Script=Katakana'));

// what trimming removes
const SPACES = {
    space: ' ',
    zeroWidth: '\\ufeff\\u200b-\\u200f\\u202a-\\u202e\\u2060-\\u2064\\u2066-\\u206f',
    likeSpace: '\\u00a0\\u2000-\\u200a\\u202f\\u205f\\u3000',
    control: '\\u2028\\u2029\\t\\r\\n\\f\\v\\u0008\\u0085'
};
const subsets = [];
for (let m = 0; m < 16; m++) subsets.push(Object.fromEntries(Object.keys(SPACES).map((k, i) => [k, !!(m & (1 << i))])));
const setOf = o => Object.keys(SPACES).filter(k => !o || o[k]).map(k => SPACES[k]).join('');

const SPECS = [
    { fn: 'regexp.isIp', accept: [[`^(?:${ipv6()}|\\[${ipv6()}\\](?::${port})?)$`, ''], ['^[0-9.]*$', '']], test: ([a]) => a, free: ([, dotted]) => dotted, what: 'an IPv6 address, bare or in brackets with an optional port' },
    { fn: 'regexp.isChinaPhoneNumber', args: [0], accept: [['^(?:\\+86|0086)?1[0-9]{10}$', '']], what: 'eleven digits starting with 1, with an optional country code' },
    { fn: 'regexp.isChinaPhoneNumber', args: [1], accept: [['^(?:\\+86|0086)?1[3-9][0-9]{9}$', '']], what: 'eleven digits starting with 13 to 19, with an optional country code' },
    { fn: 'regexp.isChinaPhoneNumber', args: [], accept: [['^(?:\\+86|0086)?1[3-9][0-9]{9}$', '']], what: 'eleven digits starting with 13 to 19, with an optional country code' },
    { fn: 'regexp.isChinaPhoneNumber', args: [2], accept: [['^(?:\\+86|0086)?1(?:3[0-9]|4[5679]|5[0-3]|5[5-9]|6[567]|7[0-8]|8[0-9]|9[0-2]|9[5-9])[0-9]{8}$', '']], what: 'a number of an allocated mobile prefix, with an optional country code' },
    { fn: 'regexp.isEmail', accept: [['^(?:"[^\\n\\r\\u2028\\u2029]+"|@A+(?:\\.@A+)*)@(?:\\[[0-9]{1,3}(?:\\.[0-9]{1,3}){3}\\]|(?:[0-9a-zA-Z][-0-9A-Za-z_]{0,63}\\.)*[a-zA-Z][-0-9A-Za-z_]{0,62}[a-zA-Z])$'.replace(/@A/g, '[-+*={}`~%&|^!?#\'$0-9A-Za-z_/]'), '']], what: 'a mail address' },
    { fn: 'regexp.isURI', accept: [['^(?:http|https|ftp|file)://[-+&@#/%=~|0-9A-Za-z_ ?!$^*.,:;(){}<>\\\\`\'"[\\]]+[-+&@#/%=~|0-9A-Za-z_]$'.replace('[-+&@#/%=~|0-9A-Za-z_]$', '[+&@#/%=~|0-9A-Za-z_]$'), '']], what: 'an http, https, ftp or file address' },
    { fn: 'regexp.inChinese', args: [], accept: [[UNIFIED, '']], what: 'a text with a Chinese character' },
    { fn: 'regexp.inChinese', args: [false], accept: [[UNIFIED, '']], what: 'a text with a Chinese character' },
    { fn: 'regexp.inChinese', args: [true], accept: [[UNIFIED, ''], [joined(HIRAGANA, KATAKANA), '']], test: ([a, b]) => a && !b, what: 'a text with a Chinese character and no kana' },
    { fn: 'regexp.inChkPunctuation', accept: [[CJKPUNCT, '']], what: 'a text with CJK punctuation' },
    { fn: 'regexp.inJapanese', accept: [[JAPANESE, '']], what: 'a text with a Japanese character' },
    { fn: 'path.isWindowsPath', args: [], accept: [['^(?:(?:\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?|\\.\\.?)\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:[^\\n\\r\\u2028\\u2029]*[^.\\s])?$', '']], what: 'a drive or relative Windows path' },
    { fn: 'path.isWindowsPath', args: [true], accept: [['^(?:(?:\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?|\\.\\.?)\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:[^\\n\\r\\u2028\\u2029]*[^.\\s])?$', '']], what: 'a drive or relative Windows path' },
    { fn: 'string.isSpaceString', args: [], accept: [[`^[${setOf()}]+$`, '']], what: 'a text of blanks only' },
    ...subsets.map(o => ({ fn: 'string.isSpaceString', args: [o], accept: [[setOf(o) ? `^[${setOf(o)}]+$` : '^$', '']], what: 'a text of the selected blanks only' })),
    ...[undefined, ...subsets].flatMap(o => {
        const s = setOf(o);
        const plus = s ? `[${s}]+` : '';
        const a = o ? [o] : [];
        return [
            { fn: 'string.trim', args: a, removes: [`^${plus}|${plus}$`, 'g'], what: 'the selected blanks at both ends' },
            { fn: 'string.trimStart', args: a, removes: [`^${plus}`, ''], what: 'the selected blanks at the start' },
            { fn: 'string.trimEnd', args: a, removes: [`${plus}$`, ''], what: 'the selected blanks at the end' },
            { fn: 'string.trimAll', args: a, removes: [plus, 'g'], what: 'the selected blanks anywhere' }
        ];
    }),
    ...[
        ['ascii', '[\\u0000-\\u007f]', 'an ASCII character'], ['blank', prop('Z'), 'a separator'],
        ['hiragana', HIRAGANA, 'hiragana'], ['katakana', KATAKANA, 'katakana'], ['korean', prop('Script=Hangul'), 'hangul'],
        ['han', HAN, 'a Han character of the documented blocks'], ['japanese', JAPANESE, 'a Japanese character'], ['unifiedIdeograph', UNIFIED, 'a unified ideograph'],
        ['chkPunctuation', CJKPUNCT, 'CJK punctuation'], ['control', prop('C', LATER.C), 'a control, format, surrogate, private or unassigned character'],
        ['punctuation', prop('P', '24 3c 3e 5e 60 7e ff5e', LATER.P), 'a punctuation character']
    ].map(([n, s, what]) => ({ constant: true, fn: `regexp.source#${n}`, accept: [[`^${s}$`, ''], ['^[^]$', ''], ['[\\ud800-\\udfff]', '']], test: ([a]) => a, free: n === 'control' || n === 'punctuation' ? ([, one, pair]) => !one || pair : undefined, what }))
];
module.exports = { SPECS };
