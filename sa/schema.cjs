// Reads the JavaScript and TypeScript readers of the packet schema with the
// TypeScript parser and prints what they say about every message and field.
// Usage: node schema.cjs FILE.ts FILE.js
const ts = require(process.env.GPSA_TS || '/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const parse = f => ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, true);
const K = ts.SyntaxKind;
const each = (n, f) => { f(n); ts.forEachChild(n, c => each(c, f)); };
const strip = n => { while (n && (n.kind === K.ParenthesizedExpression || n.kind === K.AsExpression || n.kind === K.NonNullExpression)) n = n.expression; return n; };
const lineOf = (sf, n) => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
const num = n => n && n.kind === K.NumericLiteral ? Number(n.text) : n && n.kind === K.PrefixUnaryExpression ? -Number(n.operand.text) : null;

// calls of BASE.method(...) below n
function calls(n) {
  const out = [];
  each(n, x => { if (x.kind === K.CallExpression && x.expression.kind === K.PropertyAccessExpression) out.push({ obj: x.expression.expression, m: x.expression.name.text, args: x.arguments, node: x }); });
  return out;
}

function typescript(file) {
  const sf = parse(file), msgs = {};
  const get = n => msgs[n] = msgs[n] || { fields: [], read: [], write: [], iface: {}, init: {} };
  each(sf, n => {
    if (n.kind === K.InterfaceDeclaration) {
      for (const m of n.members) if (m.name) get(n.name.text).iface[m.name.text] = { type: m.type ? m.type.getText(sf) : '', opt: !!m.questionToken };
    }
    if (n.kind !== K.ClassDeclaration || !n.heritageClauses) return;
    const base = n.heritageClauses[0].types[0];
    if (base.expression.getText(sf) !== 'MessageType') return;
    const g = get(base.typeArguments[0].getText(sf));
    for (const m of n.members) {
      const name = m.name ? m.name.getText(sf) : '';
      if (m.kind === K.Constructor) {
        each(m, x => {
          if (x.kind !== K.CallExpression || x.expression.kind !== K.SuperKeyword) return;
          g.name = x.arguments[0].text;
          for (const o of x.arguments[1].elements) {
            const r = { line: lineOf(sf, o) };
            for (const p of o.properties) {
              const k = p.name.getText(sf); let v = strip(p.initializer);
              if (v.kind === K.ArrowFunction) r[k] = v.body.getText(sf);
              else if (v.kind === K.NumericLiteral) r[k] = Number(v.text);
              else if (v.kind === K.StringLiteral) r[k] = v.text;
              else if (v.kind === K.TrueKeyword) r[k] = true;
              else r[k] = v.getText(sf);
            }
            g.fields.push(r);
          }
        });
      } else if (name === 'internalBinaryRead') {
        const reader = m.parameters[0].name.getText(sf);
        each(m, x => {
          if (x.kind !== K.CaseClause) return;
          const r = { no: num(strip(x.expression)), line: lineOf(sf, x) };
          for (const s of x.statements) each(s, y => {
            if (y.kind === K.BinaryExpression && y.operatorToken.kind === K.EqualsToken && y.left.kind === K.PropertyAccessExpression) {
              r.prop = y.left.name.text; r.rep = false; r.val = y.right;
            }
            if (y.kind === K.CallExpression && y.expression.kind === K.PropertyAccessExpression && y.expression.name.text === 'push' && y.expression.expression.kind === K.PropertyAccessExpression) {
              r.prop = y.expression.expression.name.text; r.rep = true; r.val = y.arguments[0];
            }
          });
          if (r.val) {
            const cs = calls(r.val);
            const sub = cs.find(c => c.m === 'internalBinaryRead');
            if (sub) { r.msg = sub.obj.getText(sf); const t = sub.args[3]; r.target = t ? (t.name ? t.name.text : t.getText(sf)) : ''; }
            else { const c = cs.find(c => c.obj.getText(sf) === reader); r.via = c ? c.m : ''; }
            delete r.val;
          }
          g.read.push(r);
        });
      } else if (name === 'internalBinaryWrite') {
        for (const c of calls(m)) {
          if (c.m !== 'tag') continue;
          const r = { no: num(strip(c.args[0])), wire: c.args[1].getText(sf).replace(/^.*\./, ''), line: lineOf(sf, c.node) };
          // tag(..).m(message.prop) or T.internalBinaryWrite(message.prop, tag(..).fork(), ..)
          const acc = c.node.parent, call = acc && acc.parent;
          let val;
          if (acc.name && acc.name.text === 'fork') {
            let w = call; while (w && !(w.kind === K.CallExpression && w.expression.name && w.expression.name.text === 'internalBinaryWrite')) w = w.parent;
            if (w) { r.msg = w.expression.expression.getText(sf); val = w.arguments[0]; }
          } else { r.via = acc.name ? acc.name.text : ''; val = call.arguments[0]; }
          if (val && val.kind === K.ElementAccessExpression) { r.rep = true; val = val.expression; }
          r.prop = val && val.name ? val.name.text : '';
          // the condition it is written under
          let s = call; while (s && s.kind !== K.IfStatement && s.kind !== K.ForStatement && s !== m) s = s.parent;
          r.cond = [];
          if (s && s !== m) each(s.expression || s.condition, y => { if (y.kind === K.PropertyAccessExpression && y.name.text !== 'length') r.cond.push(y.name.text); });
          g.write.push(r);
        }
      } else if (name === 'create') {
        let first = true;
        each(m, x => { if (first && x.kind === K.ObjectLiteralExpression) { first = false; for (const p of x.properties) g.init[p.name.getText(sf)] = p.initializer.getText(sf); } });
      }
    }
  });
  return msgs;
}

function javascript(file) {
  const sf = parse(file), msgs = {};
  const get = n => msgs[n] = msgs[n] || { read: [], write: [], get: {}, set: {}, add: {}, obj: {}, rep: [] };
  const helper = (x) => { // jspb.Message.helper(this|msg, no, ...)
    for (const c of calls(x)) if (c.obj.getText(sf) === 'jspb.Message' && c.args.length > 1) {
      const i = c.args.findIndex((a, k) => k > 0 && num(strip(a)) !== null);
      if (i > 0) return { fn: c.m, no: num(strip(c.args[i])), msg: c.args[i - 1].kind === K.PropertyAccessExpression ? c.args[i - 1].getText(sf) : '', last: c.args[c.args.length - 1].getText(sf), line: lineOf(sf, c.node) };
    }
    return null;
  };
  each(sf, n => {
    if (n.kind !== K.BinaryExpression || n.operatorToken.kind !== K.EqualsToken) return;
    const l = n.left.getText(sf), v = n.right;
    let m;
    if ((m = l.match(/^proto\.(proto\..*)\.repeatedFields_$/))) { get(m[1]).rep = v.elements.map(num); return; }
    if (v.kind !== K.FunctionExpression) return;
    if ((m = l.match(/^proto\.(proto\..*)\.deserializeBinaryFromReader$/))) {
      each(v, x => {
        if (x.kind !== K.CaseClause) return;
        const r = { no: num(x.expression), line: lineOf(sf, x) };
        for (const s of x.statements) for (const c of calls(s)) {
          const o = c.obj.getText(sf);
          if (/^read/.test(c.m) && o !== 'jspb.Message') { r.via = c.m; if (c.args.length > 1) r.msg = c.args[1].getText(sf).replace(/^proto\./, '').replace(/\.deserializeBinaryFromReader$/, ''); }
          if (/^(set|add)/.test(c.m)) r.prop = c.m;
        }
        for (const s of x.statements) each(s, y => { if (y.kind === K.NewExpression) r.make = y.expression.getText(sf).replace(/^proto\./, ''); });
        get(m[1]).read.push(r);
      });
    } else if ((m = l.match(/^proto\.(proto\..*)\.serializeBinaryToWriter$/))) {
      let last = '';
      each(v, x => {
        if (x.kind !== K.CallExpression || x.expression.kind !== K.PropertyAccessExpression) return;
        const name = x.expression.name.text;
        if (/^get/.test(name)) last = name;
        if (/^write/.test(name)) {
          const r = { no: num(strip(x.arguments[0])), via: name, prop: last, line: lineOf(sf, x) };
          if (x.arguments[2]) r.msg = x.arguments[2].getText(sf).replace(/^proto\./, '').replace(/\.serializeBinaryToWriter$/, '');
          get(m[1]).write.push(r);
        }
      });
    } else if ((m = l.match(/^proto\.(proto\..*)\.toObject$/)) && !/prototype/.test(l)) {
      let done = false;
      each(v, x => {
        if (done || x.kind !== K.ObjectLiteralExpression) return;
        done = true;
        for (const p of x.properties) {
          const h = helper(p.initializer) || {}; const cs = calls(p.initializer);
          const g = cs.find(c => /^get[A-Z]/.test(c.m) && c.obj.getText(sf) !== 'jspb.Message');
          let sub = cs.find(c => c.m === 'toObject'); let t = sub ? sub.obj.getText(sf) : '';
          const lst = cs.find(c => c.m === 'toObjectList'); if (lst) t = lst.args[1].getText(sf).replace(/\.toObject$/, '');
          get(m[1]).obj[p.name.getText(sf)] = { no: h.no === undefined ? null : h.no, get: g ? g.m : '', msg: t.replace(/^proto\./, ''), line: lineOf(sf, p) };
        }
      });
    } else if ((m = l.match(/^proto\.(proto\..*)\.prototype\.(get|set|add)(\w+)$/))) {
      let h = helper(v);
      if (h) { h.msg = h.msg.replace(/^proto\./, ''); get(m[1])[m[2]][m[3]] = h; }
    }
  });
  return msgs;
}
console.log(JSON.stringify({ ts: typescript(process.argv[2]), js: javascript(process.argv[3]) }));
