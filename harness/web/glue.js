// Runs the web API: the same calls that wasm-bindgen's generated glue makes,
// written by hand. Reads batches of operations from standard input and writes
// the results to standard output; every batch runs in a fresh instance.
'use strict';
const fs = require('fs');

const imports = {};
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
for (const i of WebAssembly.Module.imports(module_)) {
  imports[i.module] = imports[i.module] || {};
  imports[i.module][i.name] = () => { throw new Error('unexpected import call ' + i.name); };
}

function read(n) {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    let k;
    try {
      k = fs.readSync(0, b, at, n - at, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}

function write(b) {
  let at = 0;
  while (at < b.length) {
    try {
      at += fs.writeSync(1, b, at, b.length - at);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}

class Api {
  constructor() {
    const throws = {};
    for (const m in imports) throws[m] = Object.assign({}, imports[m]);
    throws.__wbindgen_placeholder__.__wbindgen_throw = (p, n) => {
      throw new Error('thrown: ' + this.text(p, n));
    };
    this.x = new WebAssembly.Instance(module_, throws).exports;
    this.ret = this.x.__wbindgen_malloc(16) >>> 0;
    this.items = new Map();
    this.opts = new Map();
  }
  bytes(p, n) {
    return Buffer.from(this.x.memory.buffer, p >>> 0, n >>> 0);
  }
  text(p, n) {
    return new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(this.bytes(p, n));
  }
  pass(b) {
    const p = this.x.__wbindgen_malloc(b.length) >>> 0;
    this.bytes(p, b.length).set(b);
    return [p, b.length];
  }
  op(kind, a, b, c, data) {
    const x = this.x;
    const name = data.toString('latin1');
    switch (kind) {
      case 0: // Items.parse(data)
        this.items.set(a, x.items_parse(...this.pass(data)) >>> 0);
        return '';
      case 1: // new options
        this.opts.set(a, x[name]() >>> 0);
        return '';
      case 2: // a setter
        x[name](this.opts.get(a), b);
        return '';
      case 3: // Paths.add_function(name)
        x.paths_add_function(this.opts.get(a), ...this.pass(data));
        return '';
      case 4: // a getter
        return String(x[name](this.opts.get(a)) >>> 0);
      case 5: { // an analysis
        if (name === 'items_diff') {
          x[name](this.ret, this.items.get(a), this.items.get(b), this.opts.get(c));
        } else {
          x[name](this.ret, this.items.get(a), this.opts.get(c));
        }
        const v = new DataView(x.memory.buffer);
        const p = v.getUint32(this.ret, true), n = v.getUint32(this.ret + 4, true);
        const t = this.text(p, n);
        x.__wbindgen_free(p, n);
        return t;
      }
      case 6: // free items
        x.__wbg_items_free(this.items.get(a));
        return '';
      case 7: // free options
        x[name](this.opts.get(a));
        return '';
    }
    throw new Error('operation ' + kind);
  }
}

for (;;) {
  const count = read(4).readUInt32LE(0);
  const ops = [];
  for (let i = 0; i < count; i++) {
    const h = read(20);
    ops.push([h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12), read(h.readUInt32LE(16))]);
  }
  const out = [];
  const add = (tag, text) => {
    const b = Buffer.from(text, 'utf8');
    const h = Buffer.alloc(5);
    h[0] = tag;
    h.writeUInt32LE(b.length, 1);
    out.push(h, b);
  };
  let api = null;
  try {
    api = new Api();
  } catch (e) {
    add(2, String(e));
  }
  for (const [kind, a, b, c, data] of api === null ? [] : ops) {
    try {
      add(0, api.op(kind, a, b, c, data));
    } catch (e) {
      // 1: the module stopped; 2: something else
      add(e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? 1 : 2, e.name + ': ' + e.message);
      break;
    }
  }
  const h = Buffer.alloc(4);
  h.writeUInt32LE(out.length / 2, 0);
  write(Buffer.concat([h, ...out]));
}
