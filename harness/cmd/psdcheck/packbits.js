// Runs the JavaScript PackBits decoder of the repository on a batch of cases read from stdin.
'use strict';
const fs = require('fs');
const $global = {};
eval(fs.readFileSync(process.argv[2], 'utf8'));
const lib = $global['$github.com/oov/psd$'];
const inp = fs.readFileSync(0);
const out = [];
let o = 0;
const n = inp.readUInt32LE(o); o += 4;
for (let i = 0; i < n; i++) {
    const destLen = inp.readUInt32LE(o), lines = inp.readUInt32LE(o + 4), large = inp[o + 8] === 1, len = inp.readUInt32LE(o + 9);
    o += 13;
    const stream = new Uint8Array(inp.subarray(o, o + len)); o += len;
    const tab = lines * (large ? 4 : 2);
    const guard = 8;
    const mem = new Uint8Array(destLen + guard);
    const dest = new Uint8Array(mem.buffer, 0, destLen);
    let ok = false, total = 0;
    if (stream.length >= tab) {
        const lens = lib.decodePackBitsLines(new Uint8Array(stream.slice(0, tab)), lines, large);
        for (let k = 0; k < lens.length; k++) total += lens[k];
        if (tab + total <= stream.length) {
            ok = !!lib.decodePackBits(dest, new Uint8Array(stream.slice(tab, tab + total)), lens);
        }
    }
    const r = Buffer.alloc(5 + destLen);
    r[0] = ok ? 1 : 0;
    r.writeUInt32LE(tab + total, 1);
    Buffer.from(dest).copy(r, 5);
    out.push(r);
}
fs.writeSync(1, Buffer.concat(out));
