'use strict'
// node host.js <bundle> <extension>: a small model of the editor around a plugin.  Commands come as
// JSON lines on stdin; calls of the backend go out on stdout and are answered on stdin.
const fs = require('fs'), Module = require('module')
const [bundle, ext] = process.argv.slice(2)

let pending = Buffer.alloc(0), eof = false
function readLine() {
    for (;;) {
        const i = pending.indexOf(10)
        if (i >= 0) {
            const line = pending.subarray(0, i).toString()
            pending = pending.subarray(i + 1)
            return line
        }
        if (eof) process.exit(0)
        const b = Buffer.alloc(1 << 16)
        const n = fs.readSync(0, b, 0, b.length, null)
        if (n == 0) eof = true
        pending = Buffer.concat([pending, b.subarray(0, n)])
    }
}
function writeLine(v) {
    const b = Buffer.from(JSON.stringify(v) + '\n')
    let at = 0
    while (at < b.length) at += fs.writeSync(1, b, at)
}
for (const k of ['log', 'info', 'warn', 'error', 'debug']) console[k] = () => { }
process.stdout.write = () => true

// ---- the backend
function renderTest(file, n, cb) {
    writeLine({ call: { f: 'syntaxTree', a: [file] } })
    const tree = JSON.parse(readLine())
    if (tree.throw !== undefined) throw new Error('backend.renderTest: ' + tree.throw)
    if (typeof n != 'number' || typeof cb != 'function') throw new Error('backend.renderTest: bad arguments')
    setTimeout(() => n % 5 == 3 ? cb(new Error('no test ' + n), undefined) : cb(null, 'test ' + n + ' of\n' + tree.ok), 0)
}
let callbacks = new Map(), nextCallback = 0
const backend = new Proxy({}, {
    get(_, f) {
        return (...args) => {
            // builds a parser and runs it: only what it is asked for is recorded
            if (f == 'renderTest') return renderTest(...args)
            const a = args.map((x) => {
                if (typeof x == 'function') {
                    callbacks.set(++nextCallback, x)
                    return { $cb: nextCallback }
                }
                return x === undefined ? null : x
            })
            writeLine({ call: { f, a } })
            const r = JSON.parse(readLine())
            for (const [n, err, v] of r.called || []) {
                const cb = callbacks.get(n)
                callbacks.delete(n)
                setImmediate(() => cb(err, v))
            }
            if (r.throw !== undefined) throw new Error('backend.' + String(f) + ': ' + r.throw)
            return r.ok
        }
    }
})

// ---- the editor
let errors = []
const fail = (e) => errors.push(String((e && e.message) || e))

class EventEmitter {
    constructor() {
        this.listeners = []
        this.event = (f, self, disposables) => {
            const l = (x) => f.call(self, x)
            this.listeners.push(l)
            const d = { dispose: () => { this.listeners = this.listeners.filter((y) => y != l) } }
            if (disposables) disposables.push(d)
            return d
        }
    }
    fire(x) {
        for (const l of this.listeners.slice()) try { l(x) } catch (e) { fail(e) }
    }
}
class Position {
    constructor(line, character) {
        if (!(line >= 0) || !(character >= 0)) throw new Error('illegal position ' + line + ':' + character)
        this.line = line
        this.character = character
    }
    before(o) { return this.line < o.line || (this.line == o.line && this.character < o.character) }
    compareTo(o) { return this.before(o) ? -1 : o.before(this) ? 1 : 0 }
    isBefore(o) { return this.compareTo(o) < 0 }
    isBeforeOrEqual(o) { return this.compareTo(o) <= 0 }
    isAfter(o) { return this.compareTo(o) > 0 }
    isAfterOrEqual(o) { return this.compareTo(o) >= 0 }
    isEqual(o) { return this.compareTo(o) == 0 }
    translate(a, b) {
        const [l, c] = typeof a == 'object' ? [a.lineDelta, a.characterDelta] : [a, b]
        return new Position(this.line + (l || 0), this.character + (c || 0))
    }
    with(a, b) {
        const [l, c] = a && typeof a == 'object' ? [a.line, a.character] : [a, b]
        return new Position(l === undefined ? this.line : l, c === undefined ? this.character : c)
    }
}
class Range {
    constructor(a, b, c, d) {
        if (typeof a == 'number') [a, b] = [new Position(a, b), new Position(c, d)]
        if (!(a instanceof Position) || !(b instanceof Position)) throw new Error('Invalid arguments')
        if (b.before(a)) [a, b] = [b, a]
        this.start = a
        this.end = b
    }
    get isEmpty() { return this.start.isEqual(this.end) }
    get isSingleLine() { return this.start.line == this.end.line }
    isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end) }
    contains(o) { return o instanceof Position ? o.isAfterOrEqual(this.start) && o.isBeforeOrEqual(this.end) : this.contains(o.start) && this.contains(o.end) }
    intersection(o) {
        const a = this.start.isBefore(o.start) ? o.start : this.start, b = this.end.isAfter(o.end) ? o.end : this.end
        return a.isAfter(b) ? undefined : new Range(a, b)
    }
    union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end) }
    with(a, b) {
        const [s, e] = a && !(a instanceof Position) ? [a.start, a.end] : [a, b]
        return new Range(s || this.start, e || this.end)
    }
}
class Selection extends Range {
    constructor(a, b, c, d) {
        super(a, b, c, d)
        if (typeof a == 'number') [a, b] = [new Position(a, b), new Position(c, d)]
        this.anchor = a
        this.active = b
    }
    get isReversed() { return this.active.isBefore(this.anchor) }
}
class Uri {
    constructor(s) { this.s = s; this.scheme = s.split(':')[0]; this.fsPath = this.path = s.replace('file://', ''); this.authority = this.query = this.fragment = '' }
    static parse(s) { return new Uri(s) }
    static file(p) { return new Uri('file://' + p) }
    toString() { return this.s }
}
class TextEdit {
    constructor(range, newText) { this.range = range; this.newText = newText }
    static replace(range, text) { return new TextEdit(range, text) }
    static insert(pos, text) { return new TextEdit(new Range(pos, pos), text) }
    static delete(range) { return new TextEdit(range, '') }
}
class Document {
    constructor(name, text) {
        this.fileName = '/w/' + name
        this.uri = Uri.file(this.fileName)
        this.isClosed = false
        this.version = 0
        this.set(text)
    }
    set(text) {
        this.version += 1
        this.text = text
        this.starts = [0]
        for (let i = 0; i < text.length; i++) if (text[i] == '\n') this.starts.push(i + 1)
        this.eol = text.includes('\r\n') ? 2 : 1
    }
    get lineCount() { return this.starts.length }
    lineEnd(l) {
        if (l + 1 == this.starts.length) return this.text.length
        let e = this.starts[l + 1] - 1
        if (this.text[e - 1] == '\r') e -= 1
        return e
    }
    getText(range) { return range ? this.text.slice(this.offsetAt(range.start), this.offsetAt(range.end)) : this.text }
    offsetAt(p) {
        const l = Math.min(p.line, this.starts.length - 1)
        if (p.line > l) return this.text.length
        return Math.min(this.starts[l] + p.character, this.lineEnd(l))
    }
    positionAt(o) {
        if (typeof o != 'number' || isNaN(o)) throw new Error('illegal offset ' + o)
        o = Math.max(0, Math.min(Math.floor(o), this.text.length))
        let a = 0, b = this.starts.length
        while (b - a > 1) {
            const m = (a + b) >> 1
            if (this.starts[m] <= o) a = m; else b = m
        }
        return new Position(a, Math.min(o, this.lineEnd(a)) - this.starts[a])
    }
    lineAt(l) {
        if (l instanceof Position) l = l.line
        if (!(l >= 0 && l < this.starts.length)) throw new Error('Illegal value for `line`')
        const text = this.text.slice(this.starts[l], this.lineEnd(l)), end = l + 1 == this.starts.length ? [l, text.length] : [l + 1, 0]
        return {
            lineNumber: l, text, range: new Range(l, 0, l, text.length), rangeIncludingLineBreak: new Range(l, 0, end[0], end[1]),
            firstNonWhitespaceCharacterIndex: /^\s*/.exec(text)[0].length, isEmptyOrWhitespace: /^\s*$/.test(text),
        }
    }
    validatePosition(p) { return this.positionAt(this.offsetAt(p)) }
    validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)) }
    get languageId() { return { fall: 'fall', rs: 'rust' }[this.fileName.split('.').pop()] || 'plaintext' }
    get isUntitled() { return false }
    get isDirty() { return true }
    save() { saved.fire(this); return Promise.resolve(true) }
}
const changed = new EventEmitter(), opened = new EventEmitter(), closed = new EventEmitter(), saved = new EventEmitter()
const shown = new EventEmitter(), selected = new EventEmitter()
let docs = new Map(), commands = new Map(), providers = {}, contents = new Map(), virtual = new Map(), collections = []
let statusBars = [], dirty = new Set()

// changes: [{start, end, text}] in code units of the text before, none overlapping
function change(doc, changes) {
    const sorted = changes.map((c, i) => [c, i]).sort((x, y) => x[0].start - y[0].start || x[0].end - y[0].end || x[1] - y[1]).map((x) => x[0])
    for (let i = 1; i < sorted.length; i++) {
        if (sorted[i].start < sorted[i - 1].end) throw new Error('Overlapping ranges are not allowed!')
    }
    const eol = doc.eol == 2 ? '\r\n' : '\n'
    const events = sorted.map((c) => ({
        range: new Range(doc.positionAt(c.start), doc.positionAt(c.end)),
        rangeOffset: c.start,
        rangeLength: c.end - c.start,
        text: c.text.replace(/\r\n|\r|\n/g, eol),
    })).reverse()
    let text = doc.text
    for (const e of events) {
        text = text.slice(0, e.rangeOffset) + e.text + text.slice(e.rangeOffset + e.rangeLength)
    }
    const was = doc.eol
    doc.set(text)
    doc.eol = was
    changed.fire({ document: doc, contentChanges: events })
}
class Editor {
    constructor(doc) {
        this.document = doc
        this.selections = [new Selection(new Position(0, 0), new Position(0, 0))]
        this.decorations = new Map()
        this.options = { tabSize: 4, insertSpaces: true }
        this.viewColumn = 1
    }
    revealRange() { }
    get selection() { return this.selections[0] }
    set selection(s) { this.selections = [s] }
    setDecorations(type, ranges) { this.decorations.set(type, ranges.map((r) => r.range || r)) }
    edit(f) {
        const changes = [], doc = this.document
        const push = (r, text) => changes.push({ start: doc.offsetAt(r.start), end: doc.offsetAt(r.end), text })
        f({
            replace: (r, text) => push(r instanceof Position ? new Range(r, r) : r, text),
            insert: (p, text) => push(new Range(p, p), text),
            delete: (r) => push(r, ''),
        })
        change(doc, changes)
        return Promise.resolve(true)
    }
}
let editors = new Map()
class Disposable {
    constructor(f) { this.dispose = () => { if (f) f(); f = null } }
    static from(...ds) { return new Disposable(() => ds.forEach((d) => d.dispose())) }
}
const disposable = () => new Disposable()
class WorkspaceEdit {
    constructor() { this.all = new Map() }
    set(uri, es) { this.all.set(uri.toString(), es.slice()) }
    get(uri) { return this.all.get(uri.toString()) || [] }
    has(uri) { return this.all.has(uri.toString()) }
    get size() { return this.all.size }
    entries() { return [...this.all].map(([u, es]) => [Uri.parse(u), es]) }
    push(uri, e) { this.set(uri, this.get(uri).concat([e])) }
    replace(uri, r, t) { this.push(uri, TextEdit.replace(r, t)) }
    insert(uri, p, t) { this.push(uri, TextEdit.insert(p, t)) }
    delete(uri, r) { this.push(uri, TextEdit.delete(r)) }
}
const provide = (kind) => (_, p) => { (providers[kind] = providers[kind] || []).push(p); return disposable() }
const vscode = {
    EventEmitter, Position, Range, Selection, Uri, TextEdit, Disposable, WorkspaceEdit,
    EndOfLine: { LF: 1, CRLF: 2 },
    CodeActionKind: { Empty: '', QuickFix: 'quickfix', Refactor: 'refactor' },
    CodeAction: class { constructor(title, kind) { this.title = title; this.kind = kind } },
    Location: class { constructor(uri, range) { this.uri = uri; this.range = range } },
    SymbolInformation: class {
        constructor(name, kind, a, b, container) {
            // (name, kind, range, uri, container) or (name, kind, container, location)
            const location = a instanceof Range ? { range: a, uri: b } : b
            Object.assign(this, { name, kind, location, containerName: a instanceof Range ? container : a })
        }
    },
    Diagnostic: class { constructor(range, message, severity) { Object.assign(this, { range, message, severity }) } },
    DiagnosticSeverity: { Error: 0, Warning: 1, Information: 2, Hint: 3 },
    SymbolKind: { Function: 11, Class: 4 },
    ViewColumn: { One: 1, Two: 2 },
    StatusBarAlignment: { Left: 1, Right: 2 },
    window: {
        get visibleTextEditors() { return [...editors.values()] },
        async showErrorMessage() { }, async showWarningMessage() { }, async showInformationMessage() { },
        createOutputChannel() { return { append() { }, appendLine() { }, clear() { }, show() { }, hide() { }, dispose() { } } },
        activeTextEditor: undefined,
        onDidChangeActiveTextEditor: shown.event,
        onDidChangeTextEditorSelection: selected.event,
        createStatusBarItem() { const b = { text: '', show() { }, hide() { }, dispose() { } }; statusBars.push(b); return b },
        createTextEditorDecorationType(options) { return { options, dispose() { } } },
        async showTextDocument(doc) { return { document: doc } },
    },
    workspace: {
        workspaceFolders: process.env.FOLDERS ? process.env.FOLDERS.split(':').map((p) => ({ uri: Uri.file(p) })) : undefined,
        get textDocuments() { return [...docs.values()] },
        async applyEdit(edit) {
            for (const [uri, es] of edit.entries()) {
                const d = [...docs.values()].find((d) => d.uri.toString() == uri.toString())
                change(d, es.map((e) => ({ start: d.offsetAt(e.range.start), end: d.offsetAt(e.range.end), text: e.newText })))
            }
            return true
        },
        onDidChangeTextDocument: changed.event,
        onDidOpenTextDocument: opened.event,
        onDidCloseTextDocument: closed.event,
        onDidSaveTextDocument: saved.event,
        async openTextDocument(uri) {
            const p = contents.get(uri.scheme)
            if (!p) throw new Error('no provider for ' + uri)
            virtual.set(uri.toString(), await p.provideTextDocumentContent(uri))
            return { uri, getText: () => virtual.get(uri.toString()) }
        },
        registerTextDocumentContentProvider(scheme, p) {
            contents.set(scheme, p)
            if (p.onDidChange) p.onDidChange((uri) => dirty.add(uri))
            return disposable()
        },
    },
    languages: {
        createDiagnosticCollection() {
            const m = new Map()
            collections.push(m)
            return { set: (uri, ds) => { ds ? m.set(uri.toString(), ds) : m.delete(uri.toString()) }, get: (uri) => m.get(uri.toString()), has: (uri) => m.has(uri.toString()), clear: () => m.clear(), delete: (uri) => m.delete(uri.toString()), dispose() { } }
        },
        registerDocumentSymbolProvider: provide('symbols'),
        registerCodeActionsProvider: provide('actions'),
        registerOnTypeFormattingEditProvider: provide('typed'),
        registerDocumentFormattingEditProvider: provide('format'),
        registerReferenceProvider: provide('references'),
        registerDefinitionProvider: provide('definition'),
        registerWorkspaceSymbolProvider: (p) => provide('workspace')(null, p),
    },
    commands: {
        registerCommand(id, f) { commands.set(id, f); return disposable() },
        async executeCommand(id, ...args) { return commands.get(id)(...args) },
    },
}

const load = Module._load
Module._load = function (name, ...rest) {
    if (name == 'vscode') return vscode
    if (name.endsWith('/native')) return backend
    return load.call(this, name, ...rest)
}

const pos = (p) => [p.line, p.character]
const rng = (r) => [pos(r.start), pos(r.end)]
const P = (p) => new Position(p[0], p[1])
const R = (r) => new Range(P(r[0]), P(r[1]))
const edits = (es) => es == null ? null : es.map((e) => [rng(e.range), e.newText])
const doc = (c) => docs.get(c.name)

const methods = {
    symbols: 'provideDocumentSymbols', actions: 'provideCodeActions', typed: 'provideOnTypeFormattingEdits',
    format: 'provideDocumentFormattingEdits', references: 'provideReferences', definition: 'provideDefinition',
    workspace: 'provideWorkspaceSymbols',
}
async function ask(kind, ...args) {
    let all = null
    for (const p of providers[kind] || []) {
        const r = await p[methods[kind]](...args)
        if (r != null) all = (all || []).concat(r)
    }
    return all
}
const does = {
    reset() {
        vscode.window.activeTextEditor = undefined
        shown.fire(undefined)
        for (const d of docs.values()) { d.isClosed = true; closed.fire(d) }
        docs = new Map(); editors = new Map(); virtual = new Map(); dirty = new Set(); callbacks = new Map()
    },
    open(c) { const d = new Document(c.name, c.text); docs.set(c.name, d); opened.fire(d) },
    close(c) { const d = doc(c); docs.delete(c.name); editors.delete(c.name); d.isClosed = true; closed.fire(d) },
    show(c) {
        let e
        if (c.name != null) {
            e = editors.get(c.name) || new Editor(doc(c))
            editors.set(c.name, e)
        }
        vscode.window.activeTextEditor = e
        shown.fire(e)
    },
    change(c) { change(doc(c), c.changes) },
    save(c) { saved.fire(doc(c)) },
    text(c) { return doc(c).text },
    async command(c) { await commands.get(c.id)(...(c.args || [])) },
    content(c) { const v = virtual.get(c.uri); return v === undefined ? null : v },
    decorations(c) {
        const e = editors.get(c.name)
        return [...e.decorations.values()].map((rs) => rs.map(rng))
    },
    diagnostics() { return collections.map((m) => [...m].map(([u, ds]) => [u, ds.map((d) => [rng(d.range), d.severity, d.message])])) },
    async symbols(c) { return ((await ask('symbols', doc(c))) || []).map((s) => [s.name, rng(s.location.range)]) },
    async format(c) { return edits(await ask('format', doc(c), {}, {})) },
    async actions(c) { return ((await ask('actions', doc(c), R(c.range), {}, {})) || []).map((a) => a.title) },
    async act(c) {
        const a = (await ask('actions', doc(c), R(c.range), {}, {}))[c.index]
        const k = a.command && a.command.command ? a.command : a
        if (a.edit) await vscode.workspace.applyEdit(a.edit)
        if (k.command) await commands.get(k.command)(...(k.arguments || []))
    },
    async definition(c) { const r = await ask('definition', doc(c), P(c.at), {}); return r && r.map((l) => [l.uri.toString(), rng(l.range)]) },
    async references(c) { const r = await ask('references', doc(c), P(c.at), {}, {}); return r && r.map((l) => [l.uri.toString(), rng(l.range)]) },
    async typed(c) { return edits(await ask('typed', doc(c), P(c.at), c.ch, {}, {})) },
    select(c) {
        const e = vscode.window.activeTextEditor
        e.selections = c.ranges.map((r) => new Selection(P(r[0]), P(r[1])))
        selected.fire({ textEditor: e, selections: e.selections })
    },
    selections() { return vscode.window.activeTextEditor.selections.map((s) => [pos(s.anchor), pos(s.active)]) },
    status() { return statusBars.map((b) => b.text) },
    async workspace(c) { return ((await ask('workspace', c.query, {})) || []).map((s) => [s.name, s.location.uri.toString(), rng(s.location.range)]) },
}

const tick = () => new Promise((ok) => setImmediate(ok))
process.on('unhandledRejection', fail)

async function main() {
    try {
        const plugin = require(bundle)
        plugin.activate({ subscriptions: [] })
    } catch (e) { fail(e) }
    writeLine({ done: { errors } })
    for (;;) {
        const c = JSON.parse(readLine())
        errors = []
        let ok = null
        try {
            ok = await does[c.cmd](c)
        } catch (e) { fail(e) }
        await tick()
        // the editor asks again for the documents that have changed
        for (const uri of dirty) {
            if (!virtual.has(uri.toString())) continue
            try {
                virtual.set(uri.toString(), await contents.get(uri.scheme).provideTextDocumentContent(uri))
            } catch (e) { fail(e) }
        }
        dirty = new Set()
        await tick()
        writeLine({ done: { ok: ok === undefined ? null : ok, errors } })
    }
}
main()
