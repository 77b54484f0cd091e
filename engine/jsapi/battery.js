// node battery.js <libnode_eth_kzg.so> <dir written by natx ref> [indices...]
// The Node binding against what the Rust library computed; exit 1 with a line per difference.
'use strict';
const fs = require('fs'), path = require('path');
const [so, dir, ...extra] = process.argv.slice(2);
const m = { exports: {} };
process.dlopen(m, so);
console.log('BATTERY START');
const K = m.exports, C = K.DasContextJs;
const read = (n) => new Uint8Array(fs.readFileSync(path.join(dir, n)));
const blob = read('blob.bin'), com = read('commitment.bin');
const split = (b, n) => Array.from({ length: b.length / n }, (_, i) => b.slice(i * n, i * n + n));
const cells = split(read('cells.bin'), 2048), proofs = split(read('proofs.bin'), 48);
let bad = 0;
const fail = (what, got) => { bad++; console.log('FAILED', what, got === undefined ? '' : String(got).slice(0, 200)); };
const same = (a, b) => a instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
const sameAll = (a, b) => Array.isArray(a) && a.length === b.length && a.every((x, i) => same(x, b[i]));
const outs = (r) => sameAll(r.cells, cells) && sameAll(r.proofs, proofs);
const want = {
  com: (r) => same(r, com), outs, cells: (r) => sameAll(r, cells), true: (r) => r === true, false: (r) => r === false,
};
const ctxs = {};
async function go(what, name, args, expect) {
  for (const later of [false, true]) {
    const f = later ? 'async' + name[0].toUpperCase() + name.slice(1) : name;
    let r;
    try {
      r = later ? await ctx[f](...args) : ctx[f](...args);
    } catch (e) {
      if (expect !== 'error') fail(`${f} ${what}: refused`, e.message);
      else if (!(e instanceof Error)) fail(`${f} ${what}: not an Error`);
      continue;
    }
    if (expect === 'error') fail(`${f} ${what}: accepted`, r);
    else if (!want[expect](r)) fail(`${f} ${what}: not the library's answer`, r);
  }
}
let ctx;
const cut = (v, d) => (d < 0 ? v.slice(0, v.length + d) : Uint8Array.from([...v, ...new Array(d).fill(0)]));
async function main() {
  const consts = { BYTES_PER_COMMITMENT: 48, BYTES_PER_PROOF: 48, BYTES_PER_FIELD_ELEMENT: 32, BYTES_PER_BLOB: 131072, MAX_NUM_COLUMNS: 128, BYTES_PER_CELL: 2048 };
  for (const k in consts) if (K[k] !== consts[k]) fail(k, K[k]);
  for (const [pre, t] of [[false, 1], [false, 0], [true, 2]]) {
    ctx = C.create({ usePrecomp: pre, numThreads: t });
    await go(`precomputation ${pre} threads ${t}`, 'blobToKzgCommitment', [blob], 'com');
    await go(`precomputation ${pre} threads ${t}`, 'computeCellsAndKzgProofs', [blob], 'outs');
  }
  ctx = new C();
  await go('default', 'blobToKzgCommitment', [blob], 'com');
  ctx = C.create({ usePrecomp: false, numThreads: 1 });
  await go('', 'computeCells', [blob], 'cells');
  const high = blob.slice();
  high[32 * 77] = 0xff;
  const wrong = { empty: blob.slice(0, 0), 'one byte short': cut(blob, -1), 'one byte long': cut(blob, 1), 'one element short': cut(blob, -32), double: Uint8Array.from([...blob, ...blob]), 'not canonical': high };
  for (const w in wrong) for (const f of ['blobToKzgCommitment', 'computeCellsAndKzgProofs', 'computeCells']) await go(w, f, [wrong[w]], 'error');

  const values = new Set();
  for (const x of [...extra.map(BigInt), 128n, 255n, 256n, 1n << 31n, 1n << 32n, (1n << 63n) - 1n, 1n << 63n, (1n << 64n) - 1n, 1n << 64n, (1n << 64n) + 3n, (1n << 65n) + 3n, 1n << 127n, (1n << 128n) + 3n, (1n << 200n) + 3n]) {
    values.add(x).add(-x);
  }
  values.add(-1n).add(-3n);
  const half = [];
  for (let i = 0; i < 64; i++) half.push((i * 37 + 5) % 128);
  const rec = async (what, ids, cs, e) => go(what, 'recoverCellsAndKzgProofs', [ids, cs], e);
  const hid = half.map(BigInt), hc = half.map((i) => cells[i]);
  await rec('half', hid, hc, 'outs');
  await rec('all', cells.map((_, i) => BigInt(i)), cells, 'outs');
  await rec('nothing', [], [], 'error');
  await rec('63', hid.slice(1), hc.slice(1), 'error');
  await rec('one index more', [...hid, 6n], hc, 'error');
  await rec('one cell more', hid, [...hc, cells[6]], 'error');
  for (const at of [0, 31, 63]) {
    for (const d of [-1, 1, -2048, 2048]) await rec(`cell ${at} of ${2048 + d} bytes`, hid, hc.map((c, i) => (i === at ? cut(c, d) : c)), 'error');
    await rec(`index ${at} repeated`, hid.map((x, i) => (i === at ? hid[(i + 1) % 64] : x)), hc, 'error');
    for (const x of values) if (x < 0n || x > 127n) await rec(`index ${at} = ${x}`, hid.map((y, i) => (i === at ? x : y)), hc, 'error');
  }
  const ver = async (what, c, i, e, p, r) => go(what, 'verifyCellKzgProofBatch', [c, i, e, p], r);
  await ver('nothing', [], [], [], [], 'true');
  for (const n of [1, 2, 5]) {
    const ids = half.slice(0, n), c = ids.map(() => com), i = ids.map(BigInt), e = ids.map((k) => cells[k]), p = ids.map((k) => proofs[k]);
    await ver(`${n} cells`, c, i, e, p, 'true');
    const odd = [[c, 48], [e, 2048], [p, 48]];
    for (let at = 0; at < n; at++) {
      const put = (l, x) => l.map((y, k) => (k === at ? x : y));
      await ver(`${n} cells, wrong proof ${at}`, c, i, e, put(p, proofs[90]), 'false');
      await ver(`${n} cells, wrong cell ${at}`, c, i, put(e, cells[90]), p, 'false');
      await ver(`${n} cells, wrong index ${at}`, c, put(i, 90n), e, p, 'false');
      await ver(`${n} cells, wrong commitment ${at}`, put(c, proofs[90]), i, e, p, 'false');
      for (const l of [0, 1, 2]) {
        for (const d of [-1, 1, -odd[l][1], odd[l][1]]) {
          const a = [c, e, p];
          a[l] = put(a[l], cut(a[l][at], d));
          await ver(`${n} cells, list ${l} item ${at} of ${odd[l][1] + d} bytes`, a[0], i, a[1], a[2], 'error');
        }
      }
      const off = com.slice();
      off[47] ^= 1;
      await ver(`${n} cells, commitment ${at} not a point`, put(c, off), i, e, p, 'error');
      await ver(`${n} cells, proof ${at} not a point`, c, i, e, put(p, off), 'error');
      await ver(`${n} cells, cell ${at} not canonical`, c, i, put(e, cells[0].map((x, k) => (k === 32 ? 255 : x))), p, 'error');
      for (const x of values) if (x < 0n || x > 127n) await ver(`${n} cells, index ${at} = ${x}`, c, put(i, x), e, p, 'error');
    }
    for (let l = 0; l < 4; l++) {
      const more = [c, i, e, p].map((y, k) => (k === l ? [...y, y[0]] : y));
      const less = [c, i, e, p].map((y, k) => (k === l ? y.slice(1) : y));
      await ver(`${n} cells, list ${l} longer`, ...more, 'error');
      await ver(`${n} cells, list ${l} shorter`, ...less, 'error');
    }
  }
  await go('at the end', 'blobToKzgCommitment', [blob], 'com');
  await go('at the end', 'computeCellsAndKzgProofs', [blob], 'outs');
}
main().then(() => { console.log(bad ? `${bad} differences` : 'BATTERY OK'); process.exit(bad ? 1 : 0); }, (e) => { console.log('FAILED', e.stack); process.exit(1); });
