'use strict';
// Classification of what the outside world can observe or influence, by the resolved name of the external function.
const FS_READ = /^fs\.(promises\.)?(readFile|readdir|stat|lstat|access|readlink|realpath|createReadStream|readSync|read|exists|existsSync|open|openSync|watch|watchFile|opendir|statfs|readFileSync|readdirSync|statSync|lstatSync|readlinkSync|realpathSync|accessSync)$/;
const TABLE = [
    [/^Math\.random$|^crypto\.(?!createH|subtle)|^(webkit|moz|o|ms)Crypto\.|^crypto\.webcrypto/, 'random'],
    [/^Date\.now$|^performance\.|^process\.(hrtime|uptime)/, 'clock'],
    [/^(setTimeout|setInterval|setImmediate|queueMicrotask|requestAnimationFrame|requestIdleCallback|process\.nextTick|timers\.|scheduler\.)/, 'timer'],
    [FS_READ, 'fs-read'],
    [/^fs\./, 'fs-write'],
    [/^(http|https|http2|net|tls|dgram|dns)\.|^fetch$|^new (XMLHttpRequest|WebSocket|EventSource)$/, 'network'],
    [/^child_process\./, 'process'],
    [/^process\.(kill|exit|abort|chdir|on|once|addListener|setuid|umask|emitWarning|exitCode)/, 'process'],
    [/^console\./, 'console'],
    [/^process\.(stdout|stderr)/, 'console'],
    [/^process\.stdin|^readline\./, 'stdin'],
    [/^process\.(cwd|env|argv|memoryUsage|cpuUsage)|^os\.(?!platform$|release$|arch$|type$|EOL|constants)/, 'env'],
    [/^os\./, 'platform'],
    [/^(document|localStorage|sessionStorage|navigator|location|history|window)\./, 'dom'],
    [/^new (Worker|worker_threads)|^worker_threads|^cluster\./, 'process'],
    [/toLocale(Lower|Upper)Case$|localeCompare$|toLocale(Date|Time)?String$|^(new )?Intl\./, 'locale']
];
function classify(name) {
    for (const [r, c] of TABLE) if (r.test(name)) return c;
    return null;
}
module.exports = { classify };
