const assert = require('assert')
const { vscode, Document, edit, editor, backend, opened, shown } = require('./editor.js')
const { createPlugin } = require(process.argv[2])
const shownOnes = new Map()
createPlugin(backend, 'x', [], false, { clear: () => shownOnes.clear(), set: (uri, ds) => shownOnes.set(uri, ds) })
const state = () => [...shownOnes].filter(([_, ds]) => ds.length).map(([u, ds]) => [u, ds.map((d) => [d.range.start, d.range.end])])
const a = new Document('a.x', 'let ?'), b = new Document('b.x', 'let')
vscode.window.activeTextEditor = editor(a)
opened.fire(a)
assert.deepEqual(state(), [['a.x', [[4, 5]]]])
edit(a, 'let 92 ? ?')
assert.deepEqual(state(), [['a.x', [[7, 8], [9, 10]]]])
opened.fire(b)
vscode.window.activeTextEditor = editor(b)
shown.fire(vscode.window.activeTextEditor)
assert.deepEqual(state(), [])
vscode.window.activeTextEditor = editor(a)
shown.fire(vscode.window.activeTextEditor)
edit(a, 'let')
assert.deepEqual(state(), [])
