// as much of the editor as the plugin needs to show colours and diagnostics
const Module = require('module')
class Emitter { constructor() { this.fs = []; this.event = (f) => { this.fs.push(f); return { dispose() { } } } } fire(x) { for (const f of this.fs) f(x) } }
class Range { constructor(a, b) { this.start = a; this.end = b } }
const [changed, opened, closed, shown] = [0, 0, 0, 0].map(() => new Emitter())
const vscode = {
    Range, Selection: Range, EventEmitter: Emitter,
    Uri: { parse: (s) => s }, ViewColumn: { Two: 2 },
    TextEdit: {}, SymbolInformation: class { }, SymbolKind: { Function: 11 },
    Diagnostic: class { constructor(range, message, severity) { Object.assign(this, { range, message, severity }) } },
    DiagnosticSeverity: { Error: 0, Warning: 1 },
    window: { activeTextEditor: undefined, onDidChangeActiveTextEditor: shown.event, createTextEditorDecorationType: (o) => ({ o }) },
    workspace: { onDidChangeTextDocument: changed.event, onDidOpenTextDocument: opened.event, onDidCloseTextDocument: closed.event },
    commands: { registerCommand: () => ({ dispose() { } }) },
}
const load = Module._load
Module._load = function (name, ...rest) { return name == 'vscode' ? vscode : load.call(this, name, ...rest) }
// one line per document
class Document {
    constructor(name, text) { this.fileName = name; this.uri = name; this.version = 1; this.text = text }
    getText() { return this.text }
    offsetAt(p) { return p }
    positionAt(o) { return o }
}
const edit = (doc, text) => {
    const old = doc.text.length
    doc.text = text
    doc.version += 1
    changed.fire({ document: doc, contentChanges: [{ range: new Range(0, old), rangeLength: old, text }] })
}
const editor = (doc) => ({ document: doc, colours: new Map(), setDecorations(d, rs) { this.colours.set(d, rs) } })
const all = (re, text) => { const out = []; let m; while ((m = re.exec(text))) out.push([m.index, m.index + m[0].length]); return out }
// words of small letters are keywords, digits are literals, and a question mark is a mistake
const backend = {
    parse: (text) => ({ text }),
    edit: (file, edits) => ({ text: edits.reduceRight((t, e) => t.slice(0, e.delete[0]) + e.insert + t.slice(e.delete[1]), file.text) }),
    highlight: (file) => all(/[a-z]+/g, file.text).map((r) => [r, 'keyword']).concat(all(/[0-9]+/g, file.text).map((r) => [r, 'literal'])),
    diagnostics: (file) => all(/\?/g, file.text).map((range) => ({ range, severity: 'Error', message: 'mistake' })),
}
module.exports = { vscode, Document, edit, editor, backend, opened, shown }
