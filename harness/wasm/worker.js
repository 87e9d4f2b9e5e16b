// Reads lines `{"o": options, "ops": [...]}`, answers with one line of results.
const fs = require('fs');
const M = require(process.argv[2]);

const esc = s => s.replace(/\\/g, '\\\\').replace(/\n/g, '\\n').replace(/\t/g, '\\t').replace(/\r/g, '\\r');
function thrown(e) {
  if (e instanceof M.LatexError)
    return 'E' + [e.message, e.label, e.start, e.end, e.index, e.context, e.report].map(x => x === undefined ? '-' : '=' + x).join('\n');
  if (e instanceof M.ConfigParseError) return 'C' + e.message;
  return 'X' + e;
}
function options(o) {
  const r = {};
  for (const [k, v] of Object.entries(o)) r[k] = k === 'macros' && Array.isArray(v) ? new Map(v) : v;
  return r;
}
function attempt(f) {
  try {
    const r = f();
    if (r === undefined || r instanceof M.LatexToMathML) return ['-'];
    return Array.isArray(r) ? r.map(x => 'O' + x) : ['O' + r];
  } catch (e) {
    return [thrown(e)];
  }
}
function answer({o, ops}) {
  let c;
  const out = attempt(() => c = new M.LatexToMathML(options(o)));
  if (c === undefined) return out;
  for (const op of ops) {
    out.push(...attempt(() => {
      switch (op[0]) {
        case 'g': return c.convert_with_global_state(op[1], op[2]);
        case 'l': return c.convert_with_local_state(op[1], op[2]);
        case 'a': return c.convert_all(op[1].map(([latex, displayStyle]) => ({latex, displayStyle})));
        default: return c.reset_global_state();
      }
    }));
  }
  c.free();
  return out;
}

const buf = Buffer.alloc(1 << 16);
let parts = [];
function write(s) {
  const b = Buffer.from(s);
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
  if (n === 0) break;
  let from = 0;
  for (let i = 0; i < n; i++) {
    if (buf[i] !== 10) continue;
    parts.push(Buffer.from(buf.subarray(from, i)));
    from = i + 1;
    const line = Buffer.concat(parts).toString();
    parts = [];
    write(answer(JSON.parse(line)).map(esc).join('\t') + '\n');
  }
  parts.push(Buffer.from(buf.subarray(from, n)));
}
