// driver.js BUNDLE OUT SEED FROM TO SECONDS SCRATCH MODE: sessions of the VS Code extension, one per number.
//
// The extension is the real one. The editor, its connection to the extension, and the daemon are stand-ins, and all
// messages between them travel at random speed (each channel keeps its order).
"use strict"
const fs = require("fs")
const path = require("path")
const vm = require("vm")
const crypto = require("crypto")
const {EventEmitter: NodeEmitter} = require("events")
const {PassThrough} = require("stream")
const stub = require("./stub.js")
const {Position, Range, TextEdit, Uri, Document, EventEmitter, offsetAt, positionAt} = stub

const [bundle, out, seed, from, to, seconds, scratch, mode] = process.argv.slice(2)
// Decide about cursors instead of texts.
const CURSORS = mode === "cursors"
const script = new vm.Script("(function (require, module, exports, process, Buffer, setTimeout, clearTimeout, setImmediate, console) {" + fs.readFileSync(bundle, "utf8") + "\n})", {filename: "extension.js"})

function random(key) {
    const h = crypto.createHash("sha256").update(key).digest()
    let s = [0, 4, 8, 12].map((i) => h.readUInt32LE(i))
    const rnd = () => {
        let t = s[3]
        let u = s[0]
        s[3] = s[2]
        s[2] = s[1]
        s[1] = u
        t ^= t << 11
        t ^= t >>> 8
        s[0] = (t ^ u ^ (u >>> 19)) >>> 0
        return s[0] / 4294967296
    }
    const int = (n) => Math.floor(rnd() * n)
    return {rnd, int, pick: (a) => a[int(a.length)], chance: (p) => rnd() < p}
}

const CHARS = ["a", "b", "x", " ", "foo", "1", ".", "ä", "é", "日本", "🥕", "👩‍🚀", "𝄞", "\t", "#", "%41", "ﬀ", "א", " ", "x", "y"]
const NAMES = ["f", "g.txt", "sub/h", "with space", "ünï.md", "a+b", "c#d.md", "q?", "50%", "x%20y", "e&f,g;h=i@j:k$", "(1)", "[1]", "🥕", "file'quote\"", "back\\slash", "tilde~!*", "%23"]

class Violation extends Error {
    constructor(sig, what) {
        super(what)
        this.sig = sig
    }
}

const chars = (s) => [...s]

// Positions of the protocol count Unicode characters.
function toOffset(text, p) {
    const ls = text.split("\n")
    if (!Number.isInteger(p.line) || !Number.isInteger(p.character) || p.line < 0 || p.character < 0) throw new Error("not a position")
    if (p.line >= ls.length) throw new Error(`there is no line ${p.line}`)
    const l = chars(ls[p.line])
    if (p.character > l.length) throw new Error(`there is no character ${p.character} in line ${p.line}`)
    let o = 0
    for (let i = 0; i < p.line; i++) o += ls[i].length + 1
    return o + l.slice(0, p.character).join("").length
}

function fromOffset(text, o) {
    const before = text.slice(0, o)
    const i = before.lastIndexOf("\n") + 1
    return {line: before.split("\n").length - 1, character: chars(before.slice(i)).length}
}

function applyDelta(text, delta) {
    const es = delta.map((d) => [toOffset(text, d.range.start), toOffset(text, d.range.end), d.replacement])
    for (const [a, b] of es) if (b < a) throw new Error("reversed range")
    es.sort((x, y) => y[0] - x[0] || y[1] - x[1])
    for (const [a, b, r] of es) text = text.slice(0, a) + r + text.slice(b)
    return text
}

class Session {
    constructor(key, dir) {
        this.r = random(key)
        this.dir = dir
        this.trace = []
        this.acts = []
        this.counts = {}
        this.fast = this.r.pick([0.2, 0.5, 0.8, 0.95])
        this.typing = this.r.pick([0.1, 0.3, 0.5, 0.8])
        // Channels.
        this.toExt = []
        this.toEditor = []
        this.toDaemon = []
        this.toExtFromDaemon = []
        this.replies = []
        // The editor: uri -> {text, version, dirty, uri}
        this.models = new Map()
        // The daemon: uri -> {text, k, applied, pending}
        this.shared = new Map()
        this.disk = new Map()
        this.refused = new Set()
        this.handlers = {}
        // Cursors of others: userid -> {uri, ranges} or {maybe: uris}.
        this.users = new Map()
        // Own cursors: uri -> ranges
        this.selected = new Map()
        this.reported = new Map()
        this.setup()
    }
    log(...a) { this.trace.push(a.map((x) => (typeof x === "string" ? x : JSON.stringify(x))).join(" ")) }
    did(...a) {
        this.acts.push(a)
        this.log(...a)
    }
    count(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n }

    setup() {
        const s = this
        const emitters = {}
        const ev = (name) => {
            emitters[name] = new EventEmitter()
            emitters[name].onError = (e) => s.log("  a listener failed:", String(e))
            return emitters[name].event
        }
        this.emitters = emitters
        this.docs = []
        this.visible = []
        const window = {
            showErrorMessage: (m) => { s.log("  error shown:", m); s.count("errors shown"); return Promise.resolve(undefined) },
            showInformationMessage: () => Promise.resolve(undefined),
            showWarningMessage: () => Promise.resolve(undefined),
            setStatusBarMessage: () => new stub.Disposable(() => {}),
            createTextEditorDecorationType() {
                const t = {key: s.types = (s.types || 0) + 1, dispose() { for (const e of s.visible) e.decorations.delete(t) }}
                return t
            },
            createOutputChannel: () => ({appendLine() {}, append() {}, show() {}, dispose() {}}),
            createStatusBarItem: () => ({show() {}, hide() {}, dispose() {}}),
            get visibleTextEditors() { return [...s.visible] },
            get activeTextEditor() { return s.visible[0] },
            onDidChangeTextEditorSelection: ev("selection"),
            onDidChangeActiveTextEditor: ev("active"),
            onDidChangeVisibleTextEditors: ev("visible"),
        }
        const workspace = {
            get textDocuments() { return [...s.docs] },
            workspaceFolders: [{uri: Uri.file(s.dir), name: "p", index: 0}],
            getWorkspaceFolder: () => workspace.workspaceFolders[0],
            getConfiguration: () => ({get: (_k, d) => d, has: () => false, update: async () => {}}),
            onDidChangeTextDocument: ev("change"),
            onDidOpenTextDocument: ev("open"),
            onDidCloseTextDocument: ev("close"),
            onDidSaveTextDocument: ev("save"),
            onWillSaveTextDocument: ev("willsave"),
            onDidChangeConfiguration: ev("configuration"),
            applyEdit(we) {
                // The version is looked up now, the edit is applied later, and only if the document is still the same.
                const parts = we.entries().map(([uri, edits]) => {
                    const d = s.docs.find((d) => d.uri.toString() === uri.toString())
                    return {uri: uri.toString(), edits: edits.map((e) => ({range: e.range, newText: e.newText})), version: d?.version}
                })
                return new Promise((resolve) => s.toEditor.push({kind: "apply", parts, resolve}))
            },
        }
        this.vscode = {
            ...stub, window, workspace,
            commands: {registerCommand: () => new stub.Disposable(() => {}), executeCommand: async () => undefined},
            languages: {}, env: {}, extensions: {}, Uri,
            DecorationRangeBehavior: {OpenOpen: 0, ClosedClosed: 1, OpenClosed: 2, ClosedOpen: 3},
            TextEditorRevealType: {Default: 0, InCenter: 1, InCenterIfOutsideViewport: 2, AtTop: 3},
            OverviewRulerLane: {Left: 1, Center: 2, Right: 4, Full: 7},
            TextDocumentChangeReason: {Undo: 1, Redo: 2}, EndOfLine: {LF: 1, CRLF: 2}, StatusBarAlignment: {Left: 1, Right: 2},
            ThemeColor: class { constructor(id) { this.id = id } },
            ThemeIcon: class { constructor(id) { this.id = id } },
            MarkdownString: class { constructor(v) { this.value = v } },
        }
        const method = (t) => (typeof t === "string" ? t : t.method)
        const connection = {
            sendRequest(t, params) {
                return new Promise((resolve, reject) => s.send(method(t), params, {resolve, reject}))
            },
            sendNotification(t, params) {
                s.send(method(t), params, {})
                return Promise.resolve()
            },
            onNotification(t, f) { s.handlers[method(t)] = f; return new stub.Disposable(() => {}) },
            onRequest(t, f) { s.handlers[method(t)] = f; return new stub.Disposable(() => {}) },
            onClose() {}, onError() {}, onDispose() {}, listen() { s.listening = true }, end() {}, dispose() {}, trace: async () => {},
        }
        class Type { constructor(m) { this.method = m } }
        const rpc = {
            createMessageConnection: () => connection,
            StreamMessageReader: class {}, StreamMessageWriter: class {},
            RequestType: Type, RequestType0: Type, RequestType1: Type, NotificationType: Type, NotificationType0: Type, NotificationType1: Type,
            ParameterStructures: {auto: "auto", byName: "byName", byPosition: "byPosition"},
            ResponseError: class extends Error {}, ErrorCodes: {}, Trace: {Off: 0},
        }
        const child = () => {
            const c = new NodeEmitter()
            Object.assign(c, {stdin: new PassThrough(), stdout: new PassThrough(), stderr: new PassThrough(), pid: 1, kill() {}})
            return c
        }
        const req = (m) => {
            if (m === "vscode") return this.vscode
            if (m === "vscode-jsonrpc/node" || m === "vscode-jsonrpc") return rpc
            if (m === "child_process" || m === "node:child_process") return {spawn: child}
            return require(m)
        }
        const module = {exports: {}}
        const quiet = {log() {}, error(...a) { s.log("  console:", a.map(String).join(" ")) }, warn() {}, info() {}, debug() {}}
        script.runInThisContext()(req, module, module.exports, process, Buffer, setTimeout, clearTimeout, setImmediate, quiet)
        this.extension = module.exports
    }

    send(method, params, rest) {
        if (method === "open") this.refused.delete(params.uri)
        this.toDaemon.push({method, params: structuredClone(params), afterRefusal: this.refused.has(params.uri), ...rest})
    }

    save(doc) {
        return new Promise((resolve) => this.toEditor.push({kind: "save", uri: doc.uri.toString(), resolve}))
    }

    // --- the editor ---

    show(doc) {
        const s = this
        const e = {
            document: doc, selections: [], decorations: new Map(), get selection() { return this.selections[0] },
            revealRange() {}, options: {}, viewColumn: 1, visibleRanges: [],
            setDecorations(type, ranges) {
                if (!s.visible.includes(e)) return
                e.decorations.set(type, ranges.map((r) => {
                    r = r.range ?? r
                    return [offsetAt(doc.text, r.start), offsetAt(doc.text, r.end)]
                }))
            },
        }
        // Cursors of others that are in it might be drawn now, or when they move again.
        this.unsure("file://" + doc.uri.path)
        this.visible.splice(this.r.int(this.visible.length + 1), 0, e)
        this.emitters.visible.fire([...this.visible])
    }
    hide(e) {
        this.visible.splice(this.visible.indexOf(e), 1)
        this.emitters.visible.fire([...this.visible])
    }
    unsure(uri) {
        for (const [u, c] of this.users) {
            if (c.uri === uri) this.users.set(u, {maybe: [uri]})
        }
    }
    select(doc, selections) {
        const uri = "file://" + doc.uri.path
        const e = this.visible.find((e) => e.document === doc) ?? {document: doc}
        e.selections = selections
        if (doc.uri.scheme === "file") {
            this.reported.delete(uri)
            if (this.told.has(uri)) this.selected.set(uri, selections.map((x) => [x.anchor, x.active].map((p) => fromOffset(doc.text, offsetAt(doc.text, p)))))
            else this.selected.delete(uri)
        }
        this.emitters.selection.fire({textEditor: {...e, selection: selections[0], selections}, selections, kind: 1})
    }

    open(uri, text) {
        const key = uri.toString()
        this.models.set(key, {uri, text, version: 1, dirty: false})
        this.toExt.push({kind: "open", uri, text})
        if (CURSORS && this.extension && this.r.chance(0.8)) this.toExt.push({kind: "show", key})
    }
    closeModel(key) {
        this.models.delete(key)
        this.toExt.push({kind: "close", key})
    }
    // Edits do not overlap. Ranges refer to the text before.
    change(m, edits) {
        edits = edits.filter((e) => e.text !== "" || e.a !== e.b)
        if (!edits.length) return
        edits.sort((x, y) => y.a - x.a || y.b - x.b)
        const changes = edits.map((e) => ({range: new Range(positionAt(m.text, e.a), positionAt(m.text, e.b)), rangeOffset: e.a, rangeLength: e.b - e.a, text: e.text}))
        for (const e of edits) m.text = m.text.slice(0, e.a) + e.text + m.text.slice(e.b)
        m.version++
        const dirty = !m.dirty && m.uri.scheme === "file"
        m.dirty = true
        const key = m.uri.toString()
        if (dirty && this.r.chance(0.5)) this.toExt.push({kind: "dirty", key, dirty: true})
        this.toExt.push({kind: "change", key, changes, version: m.version})
        if (dirty && this.r.chance(0.5)) this.toExt.push({kind: "dirty", key, dirty: true})
    }
    editorStep() {
        const c = this.toEditor.shift()
        if (c.kind === "save") {
            const m = this.models.get(c.uri)
            if (m && m.dirty) {
                m.dirty = false
                this.toExt.push({kind: "dirty", key: c.uri, dirty: false})
                this.toExt.push({kind: "saved", key: c.uri})
            }
            this.replies.push([c.resolve, !!m])
            return
        }
        let ok = true
        for (const p of c.parts) {
            const m = this.models.get(p.uri)
            if (!m || (p.version !== undefined && p.version !== m.version)) ok = false
        }
        if (ok) {
            for (const p of c.parts) {
                const m = this.models.get(p.uri)
                const edits = p.edits.map((e) => ({a: offsetAt(m.text, e.range.start), b: offsetAt(m.text, e.range.end), text: e.newText}))
                const sorted = [...edits].sort((x, y) => x.a - y.a || x.b - y.b)
                if (sorted.some((e, i) => i && e.a < sorted[i - 1].b)) {
                    ok = false
                    continue
                }
                this.change(m, edits)
            }
        }
        this.log("  editor:", ok ? "applied" : "rejected")
        this.count(ok ? "remote edits applied by the editor" : "remote edits rejected by the editor")
        this.replies.push([c.resolve, ok])
    }
    replyStep() {
        const [resolve, v] = this.replies.shift()
        this.toExt.push({kind: "reply", resolve, v})
    }
    extStep() {
        const c = this.toExt.shift()
        const doc = c.key && this.docs.find((d) => d.uri.toString() === c.key)
        if (c.kind === "open") {
            const d = new Document(c.uri, c.text, this)
            this.docs.push(d)
            this.emitters.open.fire(d)
        } else if (c.kind === "reply") {
            c.resolve(c.v)
        } else if (!doc) {
            return
        } else if (c.kind === "show") {
            if (this.visible.length < 4) this.show(doc)
        } else if (c.kind === "hide") {
            const e = this.visible.find((e) => e.document === doc)
            if (e) this.hide(e)
        } else if (c.kind === "select") {
            this.select(doc, c.selections.map(([a, b]) => new stub.Selection(doc.positionAt(a), doc.positionAt(b))))
        } else if (c.kind === "close") {
            for (const e of this.visible.filter((e) => e.document === doc)) this.hide(e)
            if (doc.uri.scheme === "file") {
                this.told.delete("file://" + doc.uri.path)
                this.selected.delete("file://" + doc.uri.path)
                this.unsure("file://" + doc.uri.path)
            }
            doc.isClosed = true
            this.docs.splice(this.docs.indexOf(doc), 1)
            this.emitters.close.fire(doc)
        } else if (c.kind === "change") {
            for (const ch of c.changes) doc.text = doc.text.slice(0, offsetAt(doc.text, ch.range.start)) + ch.text + doc.text.slice(offsetAt(doc.text, ch.range.end))
            doc.version = c.version
            // How marks move with the text is up to the editor.
            this.unsure("file://" + doc.uri.path)
            this.emitters.change.fire({document: doc, contentChanges: c.changes, reason: undefined})
            if (this.r.chance(0.3)) {
                const p = doc.positionAt(this.around(doc.text, this.r.int(doc.text.length + 1)))
                this.select(doc, [new stub.Selection(p, p)])
            }
        } else if (c.kind === "dirty") {
            doc.isDirty = c.dirty
            this.emitters.change.fire({document: doc, contentChanges: [], reason: undefined})
        } else if (c.kind === "saved") {
            this.emitters.save.fire(doc)
        }
    }

    // --- the daemon ---

    daemonStep() {
        const m = this.toDaemon.shift()
        const p = m.params
        const answer = (ok) => this.toExtFromDaemon.push({answer: m, ok})
        if (m.method === "cursor") {
            const f = this.shared.get(p.uri)
            if (f) this.count("cursors reported")
            if (CURSORS) this.log("  to daemon:", m.method, p)
            this.reported.set(p.uri, p.ranges)
            return
        }
        this.log("  to daemon:", m.method, p)
        const known = [...this.disk.keys()].includes(p.uri)
        if (!known) {
            if (p.uri.startsWith("file://")) throw new Violation("uri", `the plugin sends ${m.method} for ${p.uri}, there is no such file; there are ${JSON.stringify([...this.disk.keys()])}`)
            if (m.method === "edit" && m.afterRefusal) throw new Violation("refused", `the daemon refused to open ${p.uri}, but later an ${m.method} was sent`)
            answer(false)
            return
        }
        if (m.method === "open") {
            if (this.refusedFiles.has(p.uri)) {
                answer(false)
                return
            }
            if (this.shared.has(p.uri)) throw new Violation("protocol", `${p.uri} is opened again without having been closed`)
            this.shared.set(p.uri, {text: this.disk.get(p.uri), k: 0, applied: 0, pending: []})
            this.count("files opened")
            answer(true)
            return
        }
        const f = this.shared.get(p.uri)
        if (m.method === "close") {
            if (this.refusedFiles.has(p.uri)) {
                answer(false)
                return
            }
            if (!f) throw new Violation("protocol", `${p.uri} is closed, but it is not open`)
            this.settle(f)
            this.disk.set(p.uri, f.text)
            this.shared.delete(p.uri)
            this.count("files closed")
            answer(true)
            return
        }
        if (m.method !== "edit") throw new Violation("protocol", `unknown message ${m.method}`)
        if (!f) {
            if (this.refusedFiles.has(p.uri)) {
                if (m.afterRefusal) throw new Violation("refused", `the daemon refused to open ${p.uri}, but later an edit was sent`)
            } else if (p.delta.length) {
                throw new Violation("protocol", `an edit for ${p.uri}, which is not open`)
            }
            answer(false)
            return
        }
        // Which of our edits has it seen before this one?
        const mine = f.pending.filter((e) => e.revision === f.k)
        const n = p.revision - f.applied
        if (!(n >= 0 && n <= mine.filter((e) => e.delivered).length))
            throw new Violation("revision", `the edit ${JSON.stringify(p)} says that ${p.revision} edits of the daemon were applied before. ${f.applied} were known to be, ${mine.length} more are possible`)
        for (const e of mine.slice(0, n)) f.text = applyDelta(f.text, e.delta)
        f.applied += n
        f.pending = []
        const before = f.text
        try {
            f.text = applyDelta(f.text, p.delta)
        } catch (e) {
            throw new Violation("reported", `the reported edit ${JSON.stringify(p.delta)} does not fit to ${JSON.stringify(before)}: ${e.message}`)
        }
        f.k++
        this.count(p.delta.length ? "edits reported" : "rejections reported")
        answer(true)
    }
    believed(f) {
        let t = f.text
        for (const e of f.pending) if (e.revision === f.k) t = applyDelta(t, e.delta)
        return t
    }
    settle(f) {
        const mine = f.pending.filter((e) => e.revision === f.k)
        for (const e of mine) f.text = applyDelta(f.text, e.delta)
        f.applied += mine.length
        f.pending = []
    }
    daemonEdit() {
        const uris = [...this.shared.keys()]
        if (!uris.length) return
        const uri = this.r.pick(uris)
        const f = this.shared.get(uri)
        const text = this.believed(f)
        // The daemon describes a replacement in two parts.
        const parts = this.randomEdits(text, true).flatMap((e) => (e.a < e.b && e.text && this.r.chance(0.5) ? [{a: e.a, b: e.a, text: e.text}, {a: e.a, b: e.b, text: ""}] : [e]))
        const delta = parts.map((e) => ({range: {start: fromOffset(text, e.a), end: fromOffset(text, e.b)}, replacement: e.text}))
        if (!delta.length && !this.r.chance(0.3)) return
        const stale = f.k > 0 && this.r.chance(0.1)
        const e = {revision: stale ? this.r.int(f.k) : f.k, delta, delivered: false}
        this.did("daemon edits", path.basename(uri), e.revision, delta)
        if (stale) this.count("outdated edits sent")
        else {
            f.pending.push(e)
            this.lastRemote = {uri, delta}
            this.count("edits sent by the daemon")
        }
        this.toExtFromDaemon.push({edit: e, uri})
    }
    fromDaemonStep() {
        const c = this.toExtFromDaemon.shift()
        if (c.answer) {
            if (!c.ok && c.answer.method === "open") this.refused.add(c.answer.params.uri)
            if (c.ok && c.answer.method === "open") this.told.add(c.answer.params.uri)
            if (c.ok) c.answer.resolve?.("success")
            else c.answer.reject?.(new Error("refused"))
            return
        }
        c.edit.delivered = true
        if (c.cursor) this.learn(c.cursor)
        const h = this.handlers[c.cursor ? "cursor" : "edit"]
        if (c.cursor) h?.(c.cursor)
        else h?.({uri: c.uri, revision: c.edit.revision, delta: structuredClone(c.edit.delta)})
    }

    // --- cursors ---

    // A cursor arrives: where has it to be from now on?
    learn(c) {
        const doc = this.docs.find((d) => d.uri.scheme === "file" && "file://" + d.uri.path === c.uri)
        let ranges
        try {
            ranges = doc && c.ranges.map((r) => [toOffset(doc.text, r.start), toOffset(doc.text, r.end)].sort((a, b) => a - b))
        } catch {
            // Not in the text: what to show is up to the plugin.
            const old = this.users.get(c.userid)
            this.users.set(c.userid, {maybe: [...(old?.maybe ?? []), ...(old?.uri ? [old.uri] : []), c.uri]})
            return
        }
        this.users.set(c.userid, {uri: c.uri, ranges: ranges ?? []})
        // Not shown now, but maybe later.
        if (!doc || !this.visible.some((e) => e.document === doc)) this.users.set(c.userid, {maybe: [c.uri]})
    }
    sendCursor() {
        const u = "file://" + path.join(this.dir, this.r.pick(this.names))
        const f = this.shared.get(u)
        const text = f ? this.believed(f) : "abc\n"
        const pos = () => (this.r.chance(0.03) ? {line: this.r.int(9), character: this.r.int(30)} : fromOffset(text, this.around(text, this.r.int(text.length + 1))))
        const ranges = []
        for (let i = this.r.pick([0, 1, 1, 1, 2, 3]); i > 0; i--) {
            const p = pos()
            ranges.push({start: p, end: this.r.chance(0.5) ? p : pos()})
        }
        const userid = this.r.pick(["x", "y", "z"])
        this.did("cursor of", userid, path.basename(u), ranges)
        this.count("cursors sent by the daemon")
        this.toExtFromDaemon.push({cursor: {userid, name: this.r.pick([userid, undefined, "ä"]), uri: u, ranges}, edit: {}})
    }
    userSelects() {
        const ms = [...this.models.values()]
        if (!ms.length) return
        const m = this.r.pick(ms)
        const key = m.uri.toString()
        const k = this.r.rnd()
        if (k < 0.2) {
            this.did("user", k < 0.12 ? "looks at" : "looks no longer at", path.basename(m.uri.path))
            this.toExt.push({kind: k < 0.12 ? "show" : "hide", key})
            return
        }
        const selections = []
        for (let i = this.r.pick([1, 1, 1, 2, 3]); i > 0; i--) {
            const a = this.around(m.text, this.r.int(m.text.length + 1))
            selections.push([a, this.r.chance(0.5) ? a : this.around(m.text, this.r.int(m.text.length + 1))])
        }
        this.did("user selects", path.basename(m.uri.path), selections)
        this.toExt.push({kind: "select", key, selections})
    }
    // Offsets never split a character.
    around(text, o) { return /[\uDC00-\uDFFF]/.test(text[o] || "") ? o - 1 : o }
    compareCursors() {
        const norm = (r) => JSON.stringify([[r[0].line, r[0].character], [r[1].line, r[1].character]].sort((a, b) => a[0] - b[0] || a[1] - b[1]))
        for (const [uri, want] of this.selected) {
            const got = this.reported.get(uri)
            this.count("own cursors compared")
            if (!got || JSON.stringify(got.map((r) => norm([r.start, r.end]))) !== JSON.stringify(want.map(norm)))
                throw new Violation("own cursor", `the user selected ${JSON.stringify(want)} in ${path.basename(uri)}, ${JSON.stringify(got)} was reported`)
        }
        for (const e of this.visible) {
            const uri = "file://" + e.document.uri.path
            const here = e.document.uri.scheme === "file"
            const left = [...e.decorations.values()].flat()
            const text = e.document.text
            const what = () => `in ${path.basename(uri)}, ${JSON.stringify(text)}, at ${JSON.stringify([...e.decorations.values()])}`
            for (const exact of [true, false]) {
                for (const [u, c] of this.users) {
                    if (!here || c.uri !== uri) continue
                    for (const [a, b] of c.ranges) {
                        // A cursor without an extent may be drawn as one character.
                        if ((a !== b) !== exact) continue
                        let i = left.findIndex((r) => r[0] === a && r[1] === b)
                        if (i < 0 && a === b) i = left.findIndex((r) => r[0] <= a && a <= r[1] && chars(text.slice(r[0], r[1])).length <= 1)
                        if (i < 0) throw new Violation("shown", `the cursor of ${u} at ${a}-${b} is not shown; cursors ${what()}`)
                        left.splice(i, 1)
                        this.count("shown cursors compared")
                    }
                }
            }
            if (left.length && !(here && [...this.users.values()].some((c) => c.maybe?.includes(uri))))
                throw new Violation("shown", `there is nobody at ${JSON.stringify(left)}; cursors ${what()}; known are ${JSON.stringify([...this.users])}`)
            this.count("editors compared")
        }
    }

    // --- the user ---

    word() {
        let t = ""
        for (let i = this.r.int(3); i >= 0; i--) t += this.r.pick(CHARS)
        return t
    }
    randomText() {
        const n = this.r.pick([0, 1, 2, 3, 6])
        let t = ""
        for (let i = 0; i < n; i++) t += (this.r.chance(0.8) ? this.word() : "") + (i + 1 < n || this.r.chance(0.7) ? "\n" : "")
        return t
    }
    // Offsets never split a character.
    randomEdits(text, remote) {
        const cs = chars(text)
        const offs = [0]
        for (const c of cs) offs.push(offs[offs.length - 1] + c.length)
        const n = this.r.pick([1, 1, 1, 2, 3])
        const cuts = []
        for (let i = 0; i < 2 * n; i++) cuts.push(this.r.chance(0.2) ? this.r.pick([0, offs.length - 1]) : this.r.int(offs.length))
        cuts.sort((a, b) => a - b)
        const edits = []
        let last = -1
        for (let i = 0; i < n; i++) {
            const a = cuts[2 * i]
            const b = this.r.chance(0.5) ? a : cuts[2 * i + 1]
            if (a <= last) continue
            const t = this.r.pick([this.word(), this.word(), "\n", "", "\n\n", this.word() + "\n" + this.word()])
            if (a === b && t === "") continue
            edits.push({a: offs[a], b: offs[b], text: t})
            last = b
        }
        return edits
    }
    userEdit() {
        const keys = [...this.models.keys()]
        if (!keys.length) return
        const m = this.models.get(this.r.pick(keys))
        if (m.uri.scheme === "git") return
        let edits = this.randomEdits(m.text, false)
        if (this.lastRemote && this.r.chance(0.15)) {
            // The same as somebody else does, or did before.
            try {
                edits = this.lastRemote.delta.map((d) => ({a: toOffset(m.text, d.range.start), b: toOffset(m.text, d.range.end), text: d.replacement}))
            } catch { /* not possible here */ }
        } else if (this.lastUser && this.r.chance(0.15)) {
            edits = this.lastUser.filter((e) => e.b <= m.text.length).map((e) => ({...e}))
        }
        if (edits.some((e) => /[\uDC00-\uDFFF]/.test(m.text[e.a] || "") || /[\uDC00-\uDFFF]/.test(m.text[e.b] || ""))) return
        this.lastUser = edits.map((e) => ({...e}))
        this.did("user edits", path.basename(m.uri.path), edits)
        this.count("user edits")
        this.change(m, edits)
    }
    userFiles() {
        const open = [...this.models.values()].filter((m) => m.uri.scheme === "file" || m.uri.scheme === "git")
        const closed = this.names.filter((n) => {
            const u = "file://" + path.join(this.dir, n)
            return !this.shared.has(u) && !open.some((m) => m.uri.scheme === "file" && m.uri.path === path.join(this.dir, n)) && this.quietFile(u)
        })
        if (open.length && this.r.chance(0.5)) {
            const m = this.r.pick(open)
            this.did("user closes", m.uri.scheme, path.basename(m.uri.path))
            this.closeModel(m.uri.toString())
        } else if (closed.length && this.r.chance(0.7)) {
            const n = this.r.pick(closed)
            this.did("user opens", n)
            this.open(Uri.file(path.join(this.dir, n)), this.disk.get("file://" + path.join(this.dir, n)))
        } else {
            // The version control view shows an older version of the same file.
            const n = this.r.pick(this.names)
            const u = new Uri("git", path.join(this.dir, n), JSON.stringify({ref: "HEAD"}))
            if (this.models.has(u.toString())) return
            this.did("user compares", n)
            this.open(u, "older\nversion")
        }
    }
    // Has everything about this file arrived?
    quietFile(u) {
        return !this.toDaemon.some((m) => m.params?.uri === u) && !this.toExt.length && !this.toExtFromDaemon.some((c) => c.answer?.method !== "close") && !this.toEditor.length && !this.replies.length
    }

    // --- all together ---

    transport() {
        const steps = []
        if (this.toExt.length) steps.push(() => this.extStep())
        if (this.toEditor.length) steps.push(() => this.editorStep())
        if (this.replies.length) steps.push(() => this.replyStep())
        if (this.toDaemon.length) steps.push(() => this.daemonStep())
        if (this.toExtFromDaemon.length) steps.push(() => this.fromDaemonStep())
        if (!steps.length) return false
        this.r.pick(steps)()
        return true
    }
    async flush() {
        // Continuations of what the extension waits for.
        for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r))
    }
    async drain() {
        for (let i = 0; ; i++) {
            await this.flush()
            if (!this.transport()) return
            if (i > 20000) throw new Violation("livelock", "messages are exchanged without end")
        }
    }
    compare() {
        for (const [uri, f] of this.shared) {
            this.settle(f)
            const m = [...this.models.values()].find((m) => m.uri.scheme === "file" && "file://" + m.uri.path === uri)
            if (!m) throw new Violation("protocol", `${uri} was closed in the editor, but the daemon was not told`)
            this.count("documents compared")
            if (m.text !== f.text) throw new Violation("content", `${path.basename(uri)} shows ${JSON.stringify(m.text)}, but the daemon knows ${JSON.stringify(f.text)}`)
        }
        for (const m of this.models.values()) {
            const u = "file://" + m.uri.path
            if (m.uri.scheme === "file" && !this.refusedFiles.has(u) && !this.shared.has(u)) throw new Violation("protocol", `${u} is open in the editor, but the daemon was not told`)
        }
    }
    async run() {
        const r = this.r
        this.names = []
        for (let i = r.pick([1, 1, 2, 3]); i > 0; i--) {
            const n = r.pick(NAMES)
            if (!this.names.includes(n)) this.names.push(n)
        }
        this.refusedFiles = new Set()
        this.told = new Set()
        for (const n of this.names) this.disk.set("file://" + path.join(this.dir, n), this.randomText())
        if (r.chance(0.2)) {
            const n = "ignored"
            this.names.push(n)
            this.disk.set("file://" + path.join(this.dir, n), "ignored\ntext\n")
            this.refusedFiles.add("file://" + path.join(this.dir, n))
        }
        this.log("files", Object.fromEntries(this.disk))
        // Some are open already.
        for (const n of this.names) {
            if (r.chance(0.5)) this.open(Uri.file(path.join(this.dir, n)), this.disk.get("file://" + path.join(this.dir, n)))
        }
        if (r.chance(0.2)) this.open(new Uri("untitled", "Untitled-1"), "")
        for (const c of this.toExt.splice(0).filter((c) => c.kind === "open")) this.docs.push(new Document(c.uri, c.text, this))
        this.extension.activate({subscriptions: [], extensionPath: "/", asAbsolutePath: (x) => x, globalState: {get() {}, update() {}}, workspaceState: {get() {}, update() {}}})
        if (CURSORS) for (const d of [...this.docs]) if (r.chance(0.8)) this.show(d)
        if (r.chance(0.7)) await this.drain()
        const steps = r.pick([20, 60, 150])
        for (let i = 0; i < steps; i++) {
            await this.flush()
            if (r.chance(this.fast) && this.transport()) continue
            if (CURSORS && r.chance(0.6)) {
                const k = r.rnd()
                if (k < 0.4) this.sendCursor()
                else if (k < 0.8) this.userSelects()
                else {
                    await this.drain()
                    this.compareCursors()
                }
                continue
            }
            const k = r.rnd()
            if (k < 0.85) {
                if (r.chance(this.typing)) this.userEdit()
                else this.daemonEdit()
            }
            else if (k < 0.9) this.userFiles()
            else if (k < 0.94) {
                const u = "file://" + path.join(this.dir, r.pick(this.names))
                const p = {line: r.int(3), character: r.int(3)}
                if (CURSORS) this.sendCursor()
                else this.toExtFromDaemon.push({cursor: {userid: "x", name: "x", uri: u, ranges: [{start: p, end: p}]}, edit: {}})
            } else if (k < 0.97) {
                await this.drain()
                CURSORS ? this.compareCursors() : this.compare()
            }
        }
        await this.drain()
        CURSORS ? this.compareCursors() : this.compare()
    }
}

async function main() {
    const dir = path.join(scratch, "p")
    fs.mkdirSync(path.join(dir, ".ethersync"), {recursive: true})
    const result = {sessions: 0, distinct: 0, counts: {}, violations: [], harness: [], samples: []}
    const seen = new Set()
    const t0 = Date.now()
    process.on("unhandledRejection", () => { result.counts["rejections nobody handled"] = (result.counts["rejections nobody handled"] || 0) + 1 })
    for (let i = Number(from); i < Number(to); i++) {
        if (Date.now() - t0 > Number(seconds) * 1000 || result.violations.length >= 3) break
        const s = new Session(`${seed}/${i}`, dir)
        try {
            await s.run()
        } catch (e) {
            if (e instanceof Violation && CURSORS && !["own cursor", "shown"].includes(e.sig)) {
                // Another property decides about that.
                result.counts["sessions with other problems"] = (result.counts["sessions with other problems"] || 0) + 1
            } else if (e instanceof Violation) result.violations.push({sig: e.sig, what: `session ${i}: ${e.message}`, trace: s.trace.slice(-200)})
            else {
                result.harness.push(`session ${i}: ${e.stack}`)
                if (result.harness.length > 20) break
                continue
            }
        }
        result.sessions++
        for (const [k, n] of Object.entries(s.counts)) result.counts[k] = (result.counts[k] || 0) + n
        const h = crypto.createHash("sha256").update(JSON.stringify(s.acts)).digest("hex")
        if (s.acts.length && !seen.has(h)) {
            seen.add(h)
            result.distinct++
            if (result.samples.length < 2) result.samples.push(s.trace.slice(0, 40))
        }
    }
    fs.writeFileSync(out, JSON.stringify(result))
}

main()
