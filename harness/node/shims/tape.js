'use strict';
// As much of tape as the repository's tests of the binding use.
const assert = require('assert');
const tests = [];
let failed = 0, passed = 0;
function check(name, f, msg) {
    try {
        f();
        passed++;
    } catch (e) {
        failed++;
        console.log('not ok', name, msg || '', String(e.message).split('\n').slice(0, 12).join(' | '));
    }
}
const plain = (a) => ArrayBuffer.isView(a) ? Array.from(a) : a;
function tape(name, f) { tests.push([name, f]); }
async function run() {
    for (const [name, f] of tests) {
        await new Promise((done) => {
            const t = { end: done, comment: () => {}, pass: () => passed++ };
            const is = (names, g) => names.forEach((n) => { t[n] = (...args) => check(name, () => g(...args), args[args.length - 1]); });
            is(['equal', 'equals', 'is', 'strictEqual'], (a, b) => assert.strictEqual(a, b));
            is(['notEqual'], (a, b) => assert.notStrictEqual(a, b));
            is(['deepEqual', 'deepEquals', 'same'], (a, b) => assert.deepStrictEqual(plain(a), plain(b)));
            is(['notDeepEqual'], (a, b) => assert.notDeepStrictEqual(a, b));
            is(['ok', 'true', 'assert'], (a) => assert(a));
            is(['notOk', 'false'], (a) => assert(!a));
            is(['error', 'ifError'], (a) => assert(!a));
            is(['throws'], (g, e) => typeof e === 'string' ? assert.throws(g) : assert.throws(g, e));
            is(['doesNotThrow'], (g) => assert.doesNotThrow(g));
            is(['fail'], () => assert(false));
            f(t);
        });
    }
    console.log(passed + ' passed, ' + failed + ' failed, ' + tests.length + ' tests');
    process.exitCode = failed ? 1 : 0;
}
setImmediate(run);
tape.test = tape;
module.exports = tape;
