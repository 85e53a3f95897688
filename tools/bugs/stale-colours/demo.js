const assert = require('assert')
const { vscode, Document, edit, editor, backend, opened, shown } = require('./editor.js')
const { createPlugin } = require(process.argv[2])
createPlugin(backend, 'x', [], true)
const doc = new Document('a.x', 'let 92')
const e = vscode.window.activeTextEditor = editor(doc)
opened.fire(doc)
const colours = () => [].concat(...e.colours.values()).map((r) => [r.start, r.end]).sort()
assert.deepEqual(colours(), [[0, 3], [4, 6]])
edit(doc, 'let')
assert.deepEqual(colours(), [[0, 3]])
edit(doc, '')
assert.deepEqual(colours(), [])
edit(doc, '1')
assert.deepEqual(colours(), [[0, 1]])
