// Lists small syntactic changes of the repository's sources: one JSON object per line.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript')
const REPO = process.argv[2] ?? '/repo'
const FILES = process.argv.slice(3)
const out = []
for (const f of FILES) {
  const text = fs.readFileSync(path.join(REPO, f), 'utf8')
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2023, true)
  const add = (op, start, end, repl) => { if (text.slice(start, end) !== repl) out.push({ file: f, op, start, end, repl, line: sf.getLineAndCharacterOfPosition(start).line + 1, was: text.slice(start, end).slice(0, 100) }) }
  const K = ts.SyntaxKind
  const SWAP = { [K.EqualsEqualsEqualsToken]: ['!=='], [K.ExclamationEqualsEqualsToken]: ['==='], [K.EqualsEqualsToken]: ['!=', '==='], [K.ExclamationEqualsToken]: ['==', '!=='], [K.LessThanToken]: ['<=', '>'], [K.LessThanEqualsToken]: ['<'], [K.GreaterThanToken]: ['>=', '<'], [K.GreaterThanEqualsToken]: ['>'], [K.AmpersandAmpersandToken]: ['||'], [K.BarBarToken]: ['&&', '??'], [K.QuestionQuestionToken]: ['||', '&&'], [K.PlusToken]: ['-'], [K.MinusToken]: ['+'], [K.PlusEqualsToken]: ['='], [K.QuestionQuestionEqualsToken]: ['=', '||='] }
  const METHODS = { every: 'some', some: 'every', push: 'unshift', pop: 'shift', startsWith: 'endsWith', endsWith: 'startsWith', trim: 'trimEnd', indexOf: 'lastIndexOf', enqueue: null, find: 'findLast', at: null, toLowerCase: 'toString' }
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return
    if (ts.isBinaryExpression(n)) {
      for (const r of SWAP[n.operatorToken.kind] ?? []) add('binary', n.operatorToken.getStart(), n.operatorToken.getEnd(), r)
      if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(n.operatorToken.kind)) { add('left', n.getStart(), n.getEnd(), n.left.getText()); add('right', n.getStart(), n.getEnd(), n.right.getText()) }
    }
    if (ts.isIfStatement(n)) { add('if-not', n.expression.getStart(), n.expression.getEnd(), `!(${n.expression.getText()})`); add('if-true', n.expression.getStart(), n.expression.getEnd(), 'true'); add('if-false', n.expression.getStart(), n.expression.getEnd(), 'false') }
    if (ts.isConditionalExpression(n)) { add('cond-a', n.getStart(), n.getEnd(), `(${n.whenTrue.getText()})`); add('cond-b', n.getStart(), n.getEnd(), `(${n.whenFalse.getText()})`) }
    if (ts.isExpressionStatement(n) && !ts.isStringLiteral(n.expression)) add('drop-statement', n.getStart(), n.getEnd(), ';')
    if (ts.isAwaitExpression(n)) add('drop-await', n.getStart(), n.getEnd(), n.expression.getText())
    if (ts.isThrowStatement(n)) add('drop-throw', n.getStart(), n.getEnd(), ';')
    if (ts.isReturnStatement(n) && n.expression) add('return-undefined', n.expression.getStart(), n.expression.getEnd(), 'undefined as never')
    if (ts.isReturnStatement(n) && !n.expression) add('drop-return', n.getStart(), n.getEnd(), ';')
    if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) add('drop-jump', n.getStart(), n.getEnd(), ';')
    if (ts.isStringLiteral(n) && !ts.isPropertyAssignment(n.parent)?.name && !ts.isLiteralTypeNode(n.parent)) add('string', n.getStart(), n.getEnd(), n.text === '' ? `'x'` : n.text.length > 1 ? `'${n.text.slice(0, -1).replace(/[\\']/g, '\\$&').replace(/\n/g, '\\n')}'` : `''`)
    if (ts.isNumericLiteral(n)) { add('number', n.getStart(), n.getEnd(), String(Number(n.text) + 1)); if (n.text !== '0') add('number', n.getStart(), n.getEnd(), String(Number(n.text) - 1)) }
    if (n.kind === K.TrueKeyword) add('bool', n.getStart(), n.getEnd(), 'false')
    if (n.kind === K.FalseKeyword) add('bool', n.getStart(), n.getEnd(), 'true')
    if (n.kind === K.NullKeyword && !ts.isLiteralTypeNode(n.parent)) add('null', n.getStart(), n.getEnd(), 'undefined')
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add('drop-not', n.getStart(), n.getEnd(), n.operand.getText())
    if (ts.isObjectLiteralExpression(n)) for (const p of n.properties) { const end = text[p.getEnd()] === ',' ? p.getEnd() + 1 : p.getEnd(); add('drop-property', p.getStart(), end, '') }
    if (ts.isArrayLiteralExpression(n) && n.elements.length > 1) for (const p of n.elements) { const end = text[p.getEnd()] === ',' ? p.getEnd() + 1 : p.getEnd(); add('drop-element', p.getStart(), end, '') }
    if (ts.isSpreadElement(n) && ts.isArrayLiteralExpression(n.parent)) add('drop-spread', n.getStart(), n.getEnd(), '')
    if (ts.isCallExpression(n)) {
      const name = ts.isPropertyAccessExpression(n.expression) ? n.expression.name.text : ts.isIdentifier(n.expression) ? n.expression.text : ''
      if (['structuredClone', 'clean', 'strictJsonSchema', 'objCamelToSnake', 'wrap', 'escape', 'normalizeInput', 'normalizeOutput'].includes(name) && n.arguments.length === 1) add('unwrap', n.getStart(), n.getEnd(), n.arguments[0].getText())
      if (ts.isPropertyAccessExpression(n.expression)) {
        if (Object.hasOwn(METHODS, name) && METHODS[name]) add('method', n.expression.name.getStart(), n.expression.name.getEnd(), METHODS[name])
        if (['filter', 'slice', 'trim', 'toLowerCase', 'clone', 'flatMap', 'catch', 'then', 'pipeThrough'].includes(name)) add('drop-call', n.getStart(), n.getEnd(), n.expression.expression.getText())
      }
      n.arguments.forEach((a, i) => { if (n.arguments.length > 1) { const e = i < n.arguments.length - 1 ? n.arguments[i + 1].getFullStart() : a.getEnd(); add('undefined-arg', a.getStart(), a.getEnd(), 'undefined as never') } })
    }
    if (n.questionDotToken) add('optional', n.questionDotToken.getStart(), n.questionDotToken.getEnd(), ts.isPropertyAccessExpression(n) ? '!.' : '!')
    if (n.kind === K.RegularExpressionLiteral) { add('regex', n.getStart(), n.getEnd(), n.text.replace(/\*\??/, '+')); add('regex', n.getStart(), n.getEnd(), n.text.replace(/\/[a-z]*$/, '/')); add('regex', n.getStart(), n.getEnd(), n.text.replace(/\+/, '*')) }
    if (ts.isForOfStatement(n)) add('reverse', n.expression.getStart(), n.expression.getEnd(), `[...(${n.expression.getText()})].reverse()`)
    if (ts.isCaseClause(n) && n.statements.length === 0) add('drop-case', n.getStart(), n.getEnd(), '')
    ts.forEachChild(n, visit)
  }
  visit(sf)
}
const seen = new Set()
for (const m of out) { const k = `${m.file}:${m.start}:${m.end}:${m.repl}`; if (!seen.has(k)) { seen.add(k); console.log(JSON.stringify(m)) } }
