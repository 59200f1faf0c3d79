// Stand-ins for the parts of VS Code an extension sees. The editor itself and the extension live in different
// processes: what happens in one of them reaches the other one later, in order.
"use strict"

class Position {
    constructor(line, character) {
        if (!(line >= 0) || !(character >= 0)) throw new Error("Invalid arguments")
        this.line = line
        this.character = character
    }
    compareTo(o) { return this.line - o.line || this.character - o.character }
    isEqual(o) { return this.compareTo(o) === 0 }
    isBefore(o) { return this.compareTo(o) < 0 }
    isBeforeOrEqual(o) { return this.compareTo(o) <= 0 }
    isAfter(o) { return this.compareTo(o) > 0 }
    isAfterOrEqual(o) { return this.compareTo(o) >= 0 }
    translate(l = 0, c = 0) {
        if (typeof l === "object") return new Position(this.line + (l.lineDelta || 0), this.character + (l.characterDelta || 0))
        return new Position(this.line + l, this.character + c)
    }
    with(l = this.line, c = this.character) {
        if (typeof l === "object") return new Position(l.line ?? this.line, l.character ?? this.character)
        return new Position(l, c)
    }
}

class Range {
    constructor(a, b, c, d) {
        let [s, e] = a instanceof Position || typeof a === "object" ? [a, b] : [new Position(a, b), new Position(c, d)]
        s = new Position(s.line, s.character)
        e = new Position(e.line, e.character)
        if (s.isAfter(e)) [s, e] = [e, s]
        this.start = s
        this.end = e
    }
    get isEmpty() { return this.start.isEqual(this.end) }
    get isSingleLine() { return this.start.line === this.end.line }
    isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end) }
    contains(o) { return o instanceof Range ? this.contains(o.start) && this.contains(o.end) : !o.isBefore(this.start) && !o.isAfter(this.end) }
    intersection(o) {
        const s = this.start.isAfter(o.start) ? this.start : o.start
        const e = this.end.isBefore(o.end) ? this.end : o.end
        return s.isAfter(e) ? undefined : new Range(s, e)
    }
    union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end) }
    with(s = this.start, e = this.end) { return new Range(s, e) }
}

class Selection extends Range {
    constructor(a, b, c, d) {
        super(a, b, c, d)
        if (typeof a === "object") {
            this.anchor = a
            this.active = b
        } else {
            this.anchor = new Position(a, b)
            this.active = new Position(c, d)
        }
    }
    get isReversed() { return this.anchor.isAfter(this.active) }
}

class TextEdit {
    constructor(range, newText) {
        this.range = range
        this.newText = newText
    }
    static replace(r, t) { return new TextEdit(r, t) }
    static insert(p, t) { return new TextEdit(new Range(p, p), t) }
    static delete(r) { return new TextEdit(r, "") }
}

class Uri {
    constructor(scheme, p, query = "", fragment = "") {
        Object.assign(this, {scheme, authority: "", path: p, query, fragment})
    }
    get fsPath() { return this.path }
    static file(p) { return new Uri("file", p) }
    static parse(s) {
        const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/.exec(s)
        const dec = (x) => { try { return decodeURIComponent(x) } catch { return x } }
        return new Uri(m[2] || "file", dec(m[5] || ""), dec(m[7] || ""), dec(m[9] || ""))
    }
    static from(c) { return new Uri(c.scheme, c.path, c.query, c.fragment) }
    with(c) { return new Uri(c.scheme ?? this.scheme, c.path ?? this.path, c.query ?? this.query, c.fragment ?? this.fragment) }
    // Like VS Code does it: everything but these and slashes is encoded.
    static encode(s) { return s.replace(/[^a-zA-Z0-9\-._~/]/gu, (c) => encodeURIComponent(c).replace(/[!'()*]/g, (d) => "%" + d.charCodeAt(0).toString(16).toUpperCase())) }
    toString(skipEncoding) {
        const enc = skipEncoding ? (x) => x : Uri.encode
        return this.scheme + (this.scheme === "file" ? "://" : ":") + enc(this.path) + (this.query ? "?" + enc(this.query) : "") + (this.fragment ? "#" + enc(this.fragment) : "")
    }
    toJSON() { return {scheme: this.scheme, path: this.path, fsPath: this.fsPath, external: this.toString()} }
}

class WorkspaceEdit {
    constructor() { this.map = new Map() }
    set(uri, edits) {
        if (edits) this.map.set(uri.toString(), {uri, edits: [...edits]})
        else this.map.delete(uri.toString())
    }
    get(uri) { return this.map.get(uri.toString())?.edits ?? [] }
    has(uri) { return this.map.has(uri.toString()) }
    add(uri, edit) {
        if (!this.has(uri)) this.set(uri, [])
        this.map.get(uri.toString()).edits.push(edit)
    }
    replace(uri, range, text) { this.add(uri, new TextEdit(range, text)) }
    insert(uri, pos, text) { this.add(uri, TextEdit.insert(pos, text)) }
    delete(uri, range) { this.add(uri, TextEdit.delete(range)) }
    entries() { return [...this.map.values()].map((e) => [e.uri, e.edits]) }
    get size() { return this.map.size }
}

class EventEmitter {
    constructor() {
        this.listeners = []
        this.event = (f, self) => {
            const g = self ? f.bind(self) : f
            this.listeners.push(g)
            return new Disposable(() => this.listeners.splice(this.listeners.indexOf(g), 1))
        }
    }
    fire(e) {
        // An error in one of them is reported, nothing more.
        for (const f of [...this.listeners]) {
            try { f(e) } catch (err) { this.onError?.(err) }
        }
    }
}

class Disposable {
    constructor(f) { this.dispose = f }
}

const lines = (text) => text.split("\n")

function offsetAt(text, pos) {
    const ls = lines(text)
    const line = Math.min(pos.line, ls.length - 1)
    let o = 0
    for (let i = 0; i < line; i++) o += ls[i].length + 1
    return o + (pos.line > line ? ls[line].length : Math.min(pos.character, ls[line].length))
}

function positionAt(text, offset) {
    const before = text.slice(0, offset)
    const line = before.split("\n").length - 1
    return new Position(line, offset - (before.lastIndexOf("\n") + 1))
}

// What an extension knows about a document.
class Document {
    constructor(uri, text, host) {
        this.uri = uri
        this.text = text
        this.host = host
        this.version = 1
        this.isDirty = false
        this.isClosed = false
        this.isUntitled = uri.scheme === "untitled"
        this.eol = 1
        this.languageId = "plaintext"
    }
    get fileName() { return this.uri.fsPath }
    get lineCount() { return lines(this.text).length }
    lineAt(l) {
        if (typeof l === "object") l = l.line
        const ls = lines(this.text)
        if (!Number.isInteger(l) || l < 0 || l >= ls.length) throw new Error("Illegal value for `line`")
        const text = ls[l]
        return {lineNumber: l, text, range: new Range(l, 0, l, text.length), isEmptyOrWhitespace: !text.trim(),
                rangeIncludingLineBreak: l + 1 < ls.length ? new Range(l, 0, l + 1, 0) : new Range(l, 0, l, text.length),
                firstNonWhitespaceCharacterIndex: text.length - text.trimStart().length}
    }
    getText(range) { return range ? this.text.slice(offsetAt(this.text, range.start), offsetAt(this.text, range.end)) : this.text }
    offsetAt(p) { return offsetAt(this.text, p) }
    positionAt(o) { return positionAt(this.text, Math.max(0, Math.min(o, this.text.length))) }
    validatePosition(p) { return this.positionAt(this.offsetAt(p)) }
    validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)) }
    save() { return this.host.save(this) }
}

module.exports = {Position, Range, Selection, TextEdit, Uri, WorkspaceEdit, EventEmitter, Disposable, Document, offsetAt, positionAt}
