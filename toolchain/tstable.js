// tstable.js DIR OUT: reads the TypeScript which the generator wrote to DIR and
// writes OUT, a table of what its clients do and declare. What a client does is
// found by running it: every method of every client class is called with marked
// arguments over a transport that records the call and returns marked results.
// What it declares is taken from TypeScript's own checker.
const fs = require('fs'), path = require('path'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [dir, outFile] = process.argv.slice(2);
const names = fs.readdirSync(dir).filter(f => f.endsWith('.ts')).sort();
const files = names.map(f => path.join(dir, f));
const opts = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, types: [], skipLibCheck: true };
const prog = ts.createProgram(files, opts), ck = prog.getTypeChecker();
const out = { diags: [], services: {}, types: [], enums: {}, aliases: {} };

for (const f of files) {
  const sf = prog.getSourceFile(f), seen = new Set();
  for (const d of [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)]) {
    const text = ts.flattenDiagnosticMessageText(d.messageText, ' ').split(dir).join('');
    // the name of Go's error type is the reader's to supply, see DESIGN.md
    const undeclared = (d.code === 2304 || d.code === 2552) && /Cannot find name 'error'/.test(text);
    const line = sf.text.split('\n')[sf.getLineAndCharacterOfPosition(d.start).line].trim();
    const msg = (undeclared ? 'UNDECLARED-ERROR ' : '') + path.basename(f) + ': ' + text + ' | ' + line.slice(0, 120);
    if (!seen.has(msg)) { seen.add(msg); out.diags.push(msg); }
  }
}

const ids = new Map();
function isErr(t) { return (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) !== 0; }
function ser(t) {
  if (ids.has(t)) return ids.get(t);
  const id = out.types.length, e = {};
  ids.set(t, id);
  out.types.push(e);
  const F = ts.TypeFlags;
  if (t.symbol && (t.symbol.flags & ts.SymbolFlags.Enum) || t.flags & F.EnumLiteral && !(t.flags & F.Union)) {
    e.k = t.flags & F.NumberLike || numericEnum(t) ? 'number' : 'string';
    return id;
  }
  if (isErr(t)) e.k = 'any';
  else if (t.flags & F.Boolean || t.flags & F.BooleanLiteral) e.k = 'boolean';
  else if (t.flags & F.StringLiteral) { e.k = 'string'; e.lit = t.value; }
  else if (t.flags & F.StringLike) e.k = 'string';
  else if (t.flags & F.NumberLike) e.k = 'number';
  else if (t.flags & F.Null) e.k = 'null';
  else if (t.flags & (F.Undefined | F.Void)) e.k = 'undefined';
  else if (t.flags & F.Union) { e.k = 'union'; e.of = t.types.map(ser); }
  else if (ck.isArrayType(t) || ck.isTupleType(t)) { e.k = 'array'; e.elem = ser(ck.getTypeArguments(t)[0]); }
  else if (t.flags & (F.Object | F.Intersection)) {
    e.name = t.symbol && t.symbol.name !== '__type' ? t.symbol.name : (t.aliasSymbol ? t.aliasSymbol.name : '');
    // the value of a const, used as a type: an object of enum members
    if (t.symbol && t.symbol.flags & ts.SymbolFlags.ObjectLiteral) { e.k = 'object-value'; return id; }
    e.k = 'object';
    const si = ck.getIndexInfoOfType(t, ts.IndexKind.String), ni = ck.getIndexInfoOfType(t, ts.IndexKind.Number);
    if (si || ni) { e.k = 'record'; e.elem = ser((si || ni).type); e.num = !si; return id; }
    const props = ck.getPropertiesOfType(t);
    // Record over an enum: any of its members
    if (t.aliasSymbol && t.aliasSymbol.name === 'Record' && t.aliasTypeArguments) {
      e.k = 'record'; e.elem = ser(t.aliasTypeArguments[1]); e.num = ser(t.aliasTypeArguments[0]) >= 0 && out.types[ser(t.aliasTypeArguments[0])].k === 'number';
      return id;
    }
    if (t.objectFlags & ts.ObjectFlags.Mapped) {
      const kt = t.constraintType || (ck.getIndexTypeOfType && undefined);
      e.k = 'record'; e.elem = props.length ? ser(ck.getTypeOfSymbol(props[0])) : ser(t.templateType);
      return id;
    }
    e.props = {};
    for (const p of props) e.props[p.name] = { t: ser(ck.getTypeOfSymbol(p)), opt: !!(p.flags & ts.SymbolFlags.Optional) };
  } else { e.k = 'any'; e.odd = ck.typeToString(t); }
  return id;
}
function numericEnum(t) {
  const d = t.symbol && t.symbol.declarations && t.symbol.declarations.find(ts.isEnumDeclaration);
  return !!d && d.members.length > 0 && typeof ck.getConstantValue(d.members[0]) === 'number';
}

// modules, evaluated: the classes as they run
const cache = {};
function load(f) {
  if (cache[f]) return cache[f].exports;
  const m = cache[f] = { exports: {} };
  const js = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, isolatedModules: true } }).outputText;
  const req = n => load(path.join(path.dirname(f), n) + (n.endsWith('.ts') ? '' : '.ts'));
  vm.runInThisContext('(function(exports,require,module){' + js + '\n})', { filename: f })(m.exports, req, m);
  return m.exports;
}

async function main() {
  for (const f of files) {
    const sf = prog.getSourceFile(f), base = path.basename(f, '.ts');
    for (const st of sf.statements) {
      if (ts.isEnumDeclaration(st)) {
        const en = out.enums[base + ':' + st.name.text] = {};
        for (const m of st.members) en[m.name.getText().replace(/^["']|["']$/g, '')] = ck.getConstantValue(m);
      }
      if (ts.isTypeAliasDeclaration(st) || ts.isInterfaceDeclaration(st)) out.aliases[base + ':' + st.name.text] = ts.isTypeAliasDeclaration(st) ? st.type.getText() : 'interface';
      if (!ts.isClassDeclaration(st) || !st.name) continue;
      const svc = out.services[base + ':' + st.name.text] = { endpoint: null, methods: {} };
      let cls = null;
      try { cls = load(f)[st.name.text]; svc.endpoint = cls.defaultEndpoint; } catch (e) { svc.error = 'loading ' + base + ': ' + e; }
      for (const me of st.members) {
        if (!ts.isMethodDeclaration(me)) continue;
        const name = me.name.getText(), m = svc.methods[name] = { params: [], calls: [] };
        const sig = ck.getSignatureFromDeclaration(me);
        me.parameters.forEach(p => m.params.push({ name: p.name.getText(), t: ser(ck.getTypeAtLocation(p)), opt: !!p.questionToken }));
        const ret = ck.getReturnTypeOfSignature(sig);
        const args = ck.getTypeArguments(ret);
        m.ret = args && args.length ? ser(args[0]) : -1;
        m.retText = ck.typeToString(ret);
        if (!cls) continue;
        const A = m.params.map((_, i) => ({ arg: i }));
        const reply = [];
        for (let i = 0; i < 64; i++) reply.push({ ret: i });
        try {
          const inst = new cls(function (method, data) { m.calls.push({ method, args: (data || []).map(x => x && x.arg !== undefined ? x.arg : -1), n: arguments.length }); return Promise.resolve(reply); });
          const r = await inst[name](...A);
          if (r === undefined) m.result = { void: true };
          else if (r && r.ret !== undefined && reply[r.ret] === r) m.result = { single: r.ret };
          else m.result = { fields: Object.entries(r).map(([k, v]) => ({ name: k, ret: v && v.ret !== undefined ? v.ret : -1 })) };
        } catch (e) { m.error = String(e); }
      }
    }
  }
  // the declared type of every result
  for (const s of Object.values(out.services)) for (const m of Object.values(s.methods)) {
    if (m.result && m.result.fields) for (const fl of m.result.fields) {
      const o = out.types[m.ret], p = o && o.props && o.props[fl.name];
      fl.t = p ? p.t : -1;
    }
  }
  fs.writeFileSync(outFile, JSON.stringify(out));
}
main().catch(e => { console.error(e); process.exit(1); });
