// Evaluate definitions of a Quint specification on values read from a file,
// with the official Quint evaluator (the one behind `quint test` / `quint run`).
//
//   node qjudge.js SPEC.qnt MODULE CASES.ndjson RESULTS.ndjson
//
// A case is {"def": name, "args": [ITF values]}; the result is its ITF value.
const path = require('path')
const fs = require('fs')
const Q = (process.env.QUINT_PKG || '/opt/veriftools/quint/node_modules/@informalsystems/quint') + '/dist/src/'
const { newIdGenerator } = require(Q + 'idGenerator')
const fe = require(Q + 'parsing/quintParserFrontend')
const { fileSourceResolver } = require(Q + 'parsing/sourceResolver')
const { analyzeModules } = require(Q + 'quintAnalyzer')
const { Evaluator } = require(Q + 'runtime/impl/evaluator')
const { buildExpr } = require(Q + 'runtime/impl/builder')
const { newTraceRecorder } = require(Q + 'runtime/trace')
const { newRng } = require(Q + 'rng')
const { rv } = require(Q + 'runtime/impl/runtimeValue')

function load(file, mainModule) {
  const idGen = newIdGenerator()
  const p = path.resolve(file)
  const text = fs.readFileSync(p, 'utf8')
  const sourceCode = new Map([[p, text]])
  const p1 = fe.parsePhase1fromText(idGen, text, p)
  const resolver = fileSourceResolver(sourceCode)
  const p2 = fe.parsePhase2sourceResolution(idGen, resolver, resolver.lookupPath(path.dirname(p), path.basename(p)), p1)
  const p3 = fe.parsePhase3importAndNameResolution(p2)
  const p4 = fe.parsePhase4toposort(p3)
  if (p4.errors.length) throw new Error(JSON.stringify(p4.errors[0]))
  const [errs] = analyzeModules(p4.table, p4.modules)
  if (errs.length) throw new Error(JSON.stringify(errs[0]))
  const rng = newRng()
  const ev = new Evaluator(p4.table, newTraceRecorder(0, rng, 1), rng)
  const main = p4.modules.find(m => m.name === mainModule)
  if (!main) throw new Error('no module ' + mainModule)
  const defs = new Map()
  for (const m of p4.modules) for (const d of m.declarations) if (d.kind === 'def') defs.set(d.name, d)
  return { ev, defs, idGen, table: p4.table }
}

function toRv(j) {
  if (j === null) return rv.mkTuple([])
  if (typeof j === 'boolean') return rv.mkBool(j)
  if (typeof j === 'number') return rv.mkInt(BigInt(j))
  if (typeof j === 'string') return rv.mkStr(j)
  if (Array.isArray(j)) return rv.mkList(j.map(toRv))
  if ('#bigint' in j) return rv.mkInt(BigInt(j['#bigint']))
  if ('#set' in j) return rv.mkSet(j['#set'].map(toRv))
  if ('#tup' in j) return rv.mkTuple(j['#tup'].map(toRv))
  if ('tag' in j && 'value' in j) return rv.mkVariant(j.tag, toRv(j.value))
  return rv.mkRecord(Object.keys(j).map(k => [k, toRv(j[k])]))
}
function fromRv(v) {
  const c = v.constructor.name
  if (c === 'RuntimeValueBool') return v.value
  if (c === 'RuntimeValueInt') return { '#bigint': v.value.toString() }
  if (c === 'RuntimeValueStr') return v.value
  if (c === 'RuntimeValueVariant') return { tag: v.label, value: fromRv(v.value) }
  if (c === 'RuntimeValueRecord') { const o = {}; v.map.forEach((x, k) => { o[k] = fromRv(x) }); return o }
  if (c === 'RuntimeValueTupleOrList') {
    const l = [...v.list].map(fromRv)
    return v.kind === 'List' ? l : l.length === 0 ? null : { '#tup': l }
  }
  throw new Error('value ' + c)
}

// A definition applied to argument values.  The arguments are passed by
// temporarily naming registers: the call is built once as `def(x0, x1, ...)`
// with `xi` bound to values we set before every evaluation.
function caller(spec, name) {
  const def = spec.defs.get(name)
  if (!def) throw new Error('no definition ' + name)
  const isOper = def.expr.kind === 'lambda'
  const n = isOper ? def.expr.params.length : 0
  const builder = spec.ev.builder
  const args = []
  const regs = []
  for (let i = 0; i < n; i++) {
    const id = spec.idGen.nextId()
    const e = { kind: 'name', name: '__arg' + i, id }
    const reg = { value: undefined }
    builder.paramRegistry.set(-1000n - id, reg)
    spec.table.set(id, { kind: 'param', name: e.name, id: -1000n - id })
    args.push(e)
    regs.push(reg)
  }
  const id = spec.idGen.nextId()
  const app = isOper ? { kind: 'app', opcode: name, args, id } : { kind: 'name', name, id }
  spec.table.set(id, { ...def })
  const f = buildExpr(builder, app)
  const { right } = require(require.resolve('@sweet-monads/either', { paths: [Q] }))
  return vals => {
    if (vals.length !== n) throw new Error(name + ' takes ' + n + ' arguments')
    vals.forEach((v, i) => { regs[i].value = right(toRv(v)) })
    const r = f(spec.ev.ctx)
    if (r.isLeft()) throw new Error(JSON.stringify(r.value, (k, v) => typeof v === 'bigint' ? String(v) : v))
    return fromRv(r.value)
  }
}

module.exports = { load, caller, toRv, fromRv }

if (require.main === module) {
  const spec = load(process.argv[2], process.argv[3])
  const callers = new Map()
  const out = []
  for (const line of fs.readFileSync(process.argv[4], 'utf8').split('\n')) {
    if (!line) continue
    const c = JSON.parse(line)
    if (!callers.has(c.def)) callers.set(c.def, caller(spec, c.def))
    out.push(JSON.stringify(callers.get(c.def)(c.args)))
  }
  fs.writeFileSync(process.argv[5], out.length ? out.join('\n') + '\n' : '')
}
