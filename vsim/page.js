// Browsers for the simulator: the page's own scripts run in a small stand-in for DOM and jQuery.
// One JSON request per line on stdin, one JSON answer per line on stdout.  Nothing happens on its own: network answers, timers
// and the user's hands are requests.
'use strict';
const vm = require('vm');

class Unsupported extends Error {}
const VOID = new Set(['meta', 'link', 'input', 'br', 'img', 'hr']);
const ENT = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = s => s.replace(/&(#x[0-9a-fA-F]+|#\d+|\w+);/g, (m, e) => e[0] == '#' ? String.fromCodePoint(e[1] == 'x' ? parseInt(e.slice(2), 16) : Number(e.slice(1)))
    : e in ENT ? ENT[e] : m);
const encode = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');

class Text { constructor(s) { this.data = s; this.parentNode = null; } get textContent() { return this.data; } get outerHTML() { return encode(this.data); } }

class El {
    constructor(page, tag) {
        this.page = page; this.tag = tag.toLowerCase(); this.attrs = {}; this.childNodes = []; this.parentNode = null;
        this.style = { setProperty(k, v) { this[k] = v; } }; this.listeners = {}; this.inSvg = false; this._checked = undefined; this._value = undefined; this.scrollTop = 0;
        this.dataset = {};
        const self = this;
        this.classList = {
            set() { return new Set((self.attrs['class'] || '').split(/\s+/).filter(x => x)); },
            put(s) { self.attrs['class'] = [...s].join(' '); },
            add(...c) { const s = this.set(); c.forEach(x => s.add(x)); this.put(s); },
            remove(...c) { const s = this.set(); c.forEach(x => s.delete(x)); this.put(s); },
            toggle(c, on) { const s = this.set(); if (on === undefined ? !s.has(c) : on) s.add(c); else s.delete(c); this.put(s); },
            contains(c) { return this.set().has(c); },
        };
    }
    get tagName() { return this.inSvg ? this.tag : this.tag.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get id() { return this.attrs.id || ''; }
    set id(v) { this.attrs.id = v; }
    get className() { return this.attrs['class'] || ''; }
    set className(v) { this.attrs['class'] = v; }
    get children() { return this.childNodes.filter(c => c instanceof El); }
    get firstElementChild() { return this.children[0] || null; }
    get parentElement() { return this.parentNode; }
    get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
    set textContent(v) { this.childNodes = []; const t = new Text(String(v)); t.parentNode = this; this.childNodes.push(t); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.childNodes.map(c => c.outerHTML).join(''); }
    set innerHTML(v) { this.childNodes.forEach(c => { c.parentNode = null; }); this.childNodes = []; parse(this.page, String(v), this); }
    get outerHTML() {
        const a = Object.entries(this.attrs).map(([k, v]) => ` ${k}="${encode(v)}"`).join('');
        return `<${this.tag}${a}>${this.innerHTML}</${this.tag}>`;
    }
    get value() { return this._value !== undefined ? this._value : this.attrs.value !== undefined ? this.attrs.value : ''; }
    set value(v) { this._value = String(v); }
    get checked() { return this._checked !== undefined ? this._checked : 'checked' in this.attrs; }
    set checked(v) { this._checked = Boolean(v); }
    get width() { return Number(this.attrs.width || 0); }
    set width(v) { this.attrs.width = String(v); }
    get height() { return Number(this.attrs.height || 0); }
    set height(v) { this.attrs.height = String(v); }
    get offsetHeight() { return this.tag == 'tr' ? 20 : 300; }
    get clientHeight() { return this.offsetHeight; }
    get offsetTop() { return this.tag == 'tr' ? 20 * this.parentNode.children.indexOf(this) : 0; }
    get rowIndex() { return this.parentNode.children.indexOf(this); }
    get sectionRowIndex() { return this.rowIndex; }
    get nextElementSibling() { const c = this.parentNode.children; return c[c.indexOf(this) + 1] || null; }
    get previousElementSibling() { const c = this.parentNode.children; return c[c.indexOf(this) - 1] || null; }
    get rows() { return all(this, 'tr'); }
    get cells() { return all(this, 'td'); }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
    getAttributeNS(ns, k) { return this.getAttribute('xlink:' + k) || this.getAttribute(k); }
    setAttribute(k, v) { this.attrs[k] = String(v); }
    removeAttribute(k) { delete this.attrs[k]; }
    hasAttribute(k) { return k in this.attrs; }
    appendChild(c) { if (c.parentNode) c.remove(); c.parentNode = this; this.childNodes.push(c); return c; }
    append(...cs) { cs.forEach(c => this.appendChild(typeof c == 'string' ? new Text(c) : c)); }
    replaceChildren(...cs) { this.childNodes = []; this.append(...cs); }
    insertAdjacentHTML(where, s) { if (where != 'beforeend') throw new Unsupported('insertAdjacentHTML ' + where); parse(this.page, s, this); }
    removeChild(c) { this.childNodes = this.childNodes.filter(x => x !== c); c.parentNode = null; return c; }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    contains(e) { for (; e; e = e.parentNode) if (e === this) return true; return false; }
    querySelector(s) { return all(this, s)[0] || null; }
    querySelectorAll(s) { return all(this, s); }
    getElementsByTagName(s) { return all(this, s); }
    getElementsByClassName(s) { return all(this, '.' + s); }
    matches(s) { return matches(this, s); }
    closest(s) { for (let e = this; e instanceof El; e = e.parentNode) if (matches(e, s)) return e; return null; }
    addEventListener(t, f, o) { const l = this.listeners[t] = this.listeners[t] || []; if (!l.some(x => x.f === f)) l.push({ f, once: o && o.once }); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(x => x.f !== f); }
    dispatchEvent(ev) { fire(this, ev); return true; }
    click() { fire(this, event('click')); }
    focus() {} blur() {}
    scrollIntoView() {} scrollTo() {}
    getBoundingClientRect() { return { left: 0, top: 0, right: 10, bottom: 10, x: 0, y: 0, width: 10, height: 10 }; }
    getContext() {
        const rec = this.canvas = this.canvas || [];
        const state = {};
        return new Proxy(state, {
            get: (t, k) => k in t ? t[k] : k == 'measureText' ? () => ({ width: 8 }) : (...a) => { rec.push([k, ...a, { ...t }]); },
            set: (t, k, v) => { t[k] = v; return true; },
        });
    }
}

function event(type, more) {
    return Object.assign({ type, bubbles: true, button: 0, shiftKey: false, defaultPrevented: false, stopped: false,
        preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; } }, more);
}

function fire(el, ev) {
    ev.target = ev.target || el;
    for (let e = el; e; e = ev.bubbles ? e.parentNode : null) {
        ev.currentTarget = e;
        for (const l of [...((e.listeners || {})[ev.type] || [])]) {
            if (!e.listeners[ev.type].includes(l)) continue;
            if (l.once) e.listeners[ev.type] = e.listeners[ev.type].filter(x => x !== l);
            if (typeof l.f == 'function') l.f.call(e, ev); else l.f.handleEvent(ev);
        }
        if (typeof e['on' + ev.type] == 'function') e['on' + ev.type].call(e, ev);
        if (ev.stopped) break;
    }
}

function parse(page, s, into) {
    const re = /<!--[\s\S]*?-->|<!\w[^>]*>|<\/([\w:-]+)\s*>|<([\w:-]+)((?:\s+[\w:.-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|[^<]+|</g;
    let cur = into, m;
    while ((m = re.exec(s))) {
        const t = m[0];
        if (m[1]) {
            let e = cur;
            while (e && e !== into && e.tag != m[1].toLowerCase()) e = e.parentNode;
            if (e && e !== into) cur = e.parentNode;
        } else if (m[2]) {
            const e = new El(page, m[2]);
            e.inSvg = e.tag == 'svg' || cur.inSvg;
            if (e.inSvg) e.tag = m[2];
            for (const a of m[3].matchAll(/([\w:.-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attrs[a[1]] = decode(a[2] ?? a[3] ?? a[4] ?? '');
            for (const st of (e.attrs.style || '').split(';')) { const [k, v] = st.split(':'); if (v) e.style[k.trim()] = v.trim(); }
            e.parentNode = cur;
            cur.childNodes.push(e);
            if (e.tag == 'script') {
                const end = s.indexOf('</script>', re.lastIndex);
                const x = new Text(s.slice(re.lastIndex, end)); x.parentNode = e; e.childNodes.push(x);
                re.lastIndex = end + 9;
            } else if (!VOID.has(e.tag) && !(m[4] && e.inSvg)) cur = e;
        } else if (t[0] != '<' || t == '<') {
            const x = new Text(decode(t)); x.parentNode = cur; cur.childNodes.push(x);
        }
    }
}

function compound(s) {
    const out = { tag: null, id: null, cls: [], at: [], ps: [] };
    const re = /^(\*|[\w-]+)|#([\w-]+)|\.([\w-]+)|\[([\w:-]+)(?:([~^$*]?)=["']?([^"'\]]*)["']?)?\]|:([\w-]+)(?:\((.*?)\))?/y;
    let i = 0;
    while (i < s.length) {
        const r = i ? /#([\w-]+)|\.([\w-]+)|\[([\w:-]+)(?:([~^$*]?)=["']?([^"'\]]*)["']?)?\]|:([\w-]+)(?:\((.*?)\))?/y : re;
        r.lastIndex = i;
        let m = r.exec(s);
        if (!m) throw new Unsupported('selector ' + s);
        if (r === re) { if (m[1]) out.tag = m[1].toLowerCase(); m = m.slice(1); }
        if (m[1]) out.id = m[1]; if (m[2]) out.cls.push(m[2]); if (m[3]) out.at.push([m[3], m[4], m[5]]); if (m[6]) out.ps.push([m[6], m[7]]);
        i = r.lastIndex;
    }
    return out;
}

function matches1(e, c) {
    if (c.tag && c.tag != '*' && e.tag != c.tag) return false;
    if (c.id && e.attrs.id != c.id) return false;
    for (const k of c.cls) if (!e.classList.contains(k)) return false;
    for (const [k, op, v] of c.at) {
        const a = e.attrs[k];
        if (a === undefined) return false;
        if (v !== undefined && !(op == '^' ? a.startsWith(v) : op == '$' ? a.endsWith(v) : op == '*' ? a.includes(v) : a == v)) return false;
    }
    for (const [p, v] of c.ps) {
        const sib = e.parentNode ? e.parentNode.children : [];
        if (p == 'checked') { if (!e.checked) return false; }
        else if (p == 'first-child') { if (sib[0] !== e) return false; }
        else if (p == 'last-child') { if (sib[sib.length - 1] !== e) return false; }
        else if (p == 'nth-child' && /^\d+$/.test(v)) { if (sib[Number(v) - 1] !== e) return false; }
        else throw new Unsupported('selector :' + p);
    }
    return true;
}

function matches(e, sel) {
    return sel.split(',').some(s => {
        const parts = s.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/);
        const rec = (e, i) => {
            if (!matches1(e, compound(parts[i]))) return false;
            if (i == 0) return true;
            if (parts[i - 1] == '>') return e.parentNode instanceof El && rec(e.parentNode, i - 2);
            for (let p = e.parentNode; p instanceof El; p = p.parentNode) if (rec(p, i - 1)) return true;
            return false;
        };
        return rec(e, parts.length - 1);
    });
}

function all(root, sel) {
    const out = [];
    const walk = e => { for (const c of e.children) { if (matches(c, sel)) out.push(c); walk(c); } };
    walk(root);
    return out;
}

// -- jQuery ------------------------------------------------------------------------------------
function makeJQuery(page) {
    const guard = (o, what) => new Proxy(o, {
        get: (t, k, r) => {
            if (k in t || typeof k == 'symbol' || /^\d+$/.test(k) || k == 'then' || k == 'toJSON') return Reflect.get(t, k, r);
            throw new Unsupported(what + '.' + String(k));
        }
    });
    const px = v => typeof v == 'number' ? v : parseFloat(v);
    class J {
        constructor(els) { this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
        list() { return Array.from({ length: this.length }, (_, i) => this[i]); }
        toArray() { return this.list(); }
        [Symbol.iterator]() { return this.list()[Symbol.iterator](); }
        get(i) { return i === undefined ? this.list() : this[i < 0 ? this.length + i : i]; }
        each(f) { this.list().every((e, i) => f.call(e, i, e) !== false); return me(this); }
        map(f) { return wrap(this.list().map((e, i) => f.call(e, i, e))); }
        eq(i) { const e = this[i < 0 ? this.length + i : i]; return wrap(e ? [e] : []); }
        first() { return wrap(this.list().slice(0, 1)); }
        last() { return wrap(this.list().slice(-1)); }
        slice(a, b) { return wrap(this.list().slice(a, b)); }
        filter(s) { return wrap(this.list().filter((e, i) => typeof s == 'function' ? s.call(e, i, e) : matches(e, s))); }
        not(s) { return wrap(this.list().filter(e => !matches(e, s))); }
        is(s) { return this.list().some(e => matches(e, s)); }
        find(s) { return wrap([...new Set(this.list().flatMap(e => all(e, s)))]); }
        children(s) { return wrap(this.list().flatMap(e => e.children).filter(e => !s || matches(e, s))); }
        parent() { return wrap([...new Set(this.list().map(e => e.parentNode).filter(e => e))]); }
        closest(s) { return wrap(this.list().map(e => e.closest(s)).filter(e => e)); }
        siblings(s) { return wrap(this.list().flatMap(e => e.parentNode.children.filter(c => c !== e && (!s || matches(c, s))))); }
        next() { return wrap(this.list().map(e => e.nextElementSibling).filter(e => e)); }
        prev() { return wrap(this.list().map(e => e.previousElementSibling).filter(e => e)); }
        index(x) { if (x !== undefined) throw new Unsupported('index(x)'); return this.length ? this[0].parentNode.children.indexOf(this[0]) : -1; }
        html(v) { if (v === undefined) return this.length ? this[0].innerHTML : undefined; this.list().forEach(e => { e.innerHTML = v; }); return me(this); }
        text(v) { if (v === undefined) return this.list().map(e => e.textContent).join(''); this.list().forEach(e => { e.textContent = v; }); return me(this); }
        val(v) { if (v === undefined) return this.length ? this[0].value : undefined; this.list().forEach(e => { e.value = v; }); return me(this); }
        attr(k, v) { if (v === undefined && typeof k == 'string') return this.length ? this[0].attrs[k] : undefined;
            const o = typeof k == 'string' ? { [k]: v } : k; this.list().forEach(e => Object.entries(o).forEach(([a, b]) => e.setAttribute(a, b))); return me(this); }
        removeAttr(k) { this.list().forEach(e => e.removeAttribute(k)); return me(this); }
        prop(k, v) { if (v === undefined) return this.length ? this[0][k] : undefined; this.list().forEach(e => { e[k] = v; }); return me(this); }
        data(k, v) { if (v === undefined) return this.length ? this[0].dataset[k] : undefined; this.list().forEach(e => { e.dataset[k] = v; }); return me(this); }
        css(k, v) { if (v === undefined && typeof k == 'string') return this.length ? this[0].style[k] : undefined;
            const o = typeof k == 'string' ? { [k]: v } : k; this.list().forEach(e => Object.assign(e.style, o)); return me(this); }
        addClass(c) { this.list().forEach(e => e.classList.add(...c.split(/\s+/))); return me(this); }
        removeClass(c) { this.list().forEach(e => c === undefined ? e.attrs['class'] = '' : e.classList.remove(...c.split(/\s+/))); return me(this); }
        toggleClass(c, on) { this.list().forEach(e => e.classList.toggle(c, on)); return me(this); }
        hasClass(c) { return this.list().some(e => e.classList.contains(c)); }
        show() { this.list().forEach(e => { e.style.display = ''; }); return me(this); }
        hide() { this.list().forEach(e => { e.style.display = 'none'; }); return me(this); }
        toggle(on) { this.list().forEach(e => { e.style.display = on ? '' : 'none'; }); return me(this); }
        scrollTop(v) { if (v === undefined) return this.length ? this[0].scrollTop : undefined; this.list().forEach(e => { e.scrollTop = px(v); }); return me(this); }
        height() { return this.length ? this[0].offsetHeight : undefined; }
        outerHeight() { return this.height(); }
        width() { return this.length ? 100 : undefined; }
        append(...cs) { this.list().forEach(e => cs.flat().forEach(c => typeof c == 'string' ? parse(page, c, e) : c instanceof El ? e.appendChild(c) : [...c].forEach(x => e.appendChild(x)))); return me(this); }
        appendTo(t) { $(t).append(this); return me(this); }
        empty() { this.list().forEach(e => { e.innerHTML = ''; }); return me(this); }
        remove() { this.list().forEach(e => e.remove()); return me(this); }
        on(types, sel, f) {
            if (typeof sel == 'function') { f = sel; sel = null; }
            this.list().forEach(e => types.split(/\s+/).forEach(t => {
                const h = ev => {
                    if (!sel) { if (f.call(e, ev) === false) { ev.preventDefault(); ev.stopPropagation(); } return; }
                    for (let x = ev.target; x && x !== e; x = x.parentNode) if (matches(x, sel)) f.call(x, ev);
                };
                (e.jq = e.jq || []).push([t, f, h]);
                e.addEventListener(t.split('.')[0], h);
            }));
            return me(this);
        }
        one(t, f) { const self = this; const g = function (ev) { self.off(t, g); return f.call(this, ev); }; return this.on(t, g); }
        bind(t, f) { return this.on(t, f); }
        off(t, f) { this.list().forEach(e => { e.jq = (e.jq || []).filter(([a, b, h]) => { const hit = (!t || a == t) && (!f || b === f); if (hit) e.removeEventListener(a.split('.')[0], h); return !hit; }); }); return me(this); }
        trigger(t) { this.list().forEach(e => fire(e, event(t))); return me(this); }
        ready(f) { page.readies.push(f); return me(this); }
        focus() { return me(this); }
    }
    for (const t of ['click', 'change', 'mousedown', 'mouseup', 'mousemove', 'keydown', 'keyup', 'input', 'submit', 'dblclick'])
        J.prototype[t] = function (f) { return f ? this.on(t, f) : this.trigger(t); };
    const me = j => guard(j, '$()');
    const wrap = els => me(new J(els));
    const ajax = (o, more) => {
        if (typeof o == 'string') o = Object.assign({ url: o }, more);
        const cbs = { done: [], fail: [], always: [] };
        const call = { o, done(...f) { cbs.done.push(...f); return g; }, fail(...f) { cbs.fail.push(...f); return g; }, always(...f) { cbs.always.push(...f); return g; },
            then(f, h) { if (f) cbs.done.push(f); if (h) cbs.fail.push(h); return g; }, catch(h) { cbs.fail.push(h); return g; }, abort() { call.aborted = true; } };
        const g = guard(call, 'jqXHR');
        if (o.success) cbs.done.push(...[o.success].flat());
        if (o.error) cbs.fail.push(...[o.error].flat());
        if (o.complete) cbs.always.push(...[o.complete].flat());
        page.request(o.url, o.data, (ok, data, status) => {
            if (call.aborted) return;
            if (ok && typeof data == 'string' && o.dataType == 'json') { try { data = JSON.parse(data); } catch (e) { ok = false; } }
            if (ok) cbs.done.forEach(f => f(data, 'success', g)); else cbs.fail.forEach(f => f(g, status === undefined ? 'error' : String(status), ''));
            cbs.always.forEach(f => f());
        }, o.timeout);
        return g;
    };
    const $ = function (x) {
        if (typeof x == 'function') { page.readies.push(x); return; }
        if (typeof x == 'string') {
            if (x.trim()[0] == '<') { const e = new El(page, 'div'); parse(page, x, e); return wrap(e.children); }
            return wrap(all(page.root, x));
        }
        if (x instanceof J) return x;
        if (x === page.document) { return wrap([page.root]); }
        if (Array.isArray(x)) return wrap(x);
        return wrap(x ? [x] : []);
    };
    Object.assign($, {
        fn: J.prototype, ajax, get: (u, d, f) => ajax({ url: u, data: typeof d == 'function' ? undefined : d, success: typeof d == 'function' ? d : f }),
        getJSON: (u, d, f) => ajax({ url: u, data: typeof d == 'function' ? undefined : d, success: typeof d == 'function' ? d : f, dataType: 'json' }),
        each: (o, f) => { if (Array.isArray(o)) o.forEach((v, i) => f.call(v, i, v)); else Object.entries(o).forEach(([k, v]) => f.call(v, k, v)); return o; },
        map: (o, f) => o.map((v, i) => f(v, i)), extend: Object.assign, inArray: (v, a) => a.indexOf(v), isNumeric: v => !isNaN(parseFloat(v)), trim: s => s.trim(), noop() {},
        confirm: o => { page.dialogs.push(o); page.fx.push(['dialog', Object.keys(o.buttons || {})]); },
        alert: () => {},
    });
    return guard($, '$');
}

// -- a page -----------------------------------------------------------------------------------
class Page {
    constructor(html, scripts) {
        this.fx = []; this.readies = []; this.dialogs = []; this.timers = new Map(); this.net = new Map(); this.n = 0; this.point = null; this.now = 0;
        this.root = new El(this, '#document');
        parse(this, html, this.root);
        const page = this;
        const doc = this.document = {
            body: this.root.querySelector('body'), documentElement: this.root.querySelector('html'), readyState: 'loading',
            getElementById: id => all(page.root, '#' + id)[0] || null, querySelector: s => page.root.querySelector(s), querySelectorAll: s => all(page.root, s),
            getElementsByTagName: s => all(page.root, s), getElementsByClassName: s => all(page.root, '.' + s),
            createElement: t => new El(page, t), createElementNS: (ns, t) => { const e = new El(page, t); e.inSvg = true; e.tag = t; return e; }, createTextNode: s => new Text(s),
            createDocumentFragment: () => new El(page, 'div'),
            elementFromPoint: () => page.point,
            addEventListener(t, f) { if (t == 'DOMContentLoaded') page.readies.push(f); else page.root.addEventListener(t, f); },
            removeEventListener(t, f) { page.root.removeEventListener(t, f); },
        };
        const win = {
            console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
            setTimeout: (f, ms, ...a) => this.timer(f, ms, false, a), setInterval: (f, ms, ...a) => this.timer(f, ms, true, a),
            clearTimeout: id => this.clear(id), clearInterval: id => this.clear(id), requestAnimationFrame: f => this.timer(f, 16, false, []),
            alert() {}, addEventListener(t, f) { if (t == 'load') page.readies.push(f); else if (t == 'DOMContentLoaded') page.readies.push(f); }, removeEventListener() {},
            location: { href: 'http://localhost:8000/', origin: 'http://localhost:8000', pathname: '/', search: '', reload() { page.fx.push(['reload']); } },
            performance: { now: () => page.now }, URLSearchParams, encodeURIComponent, navigator: { language: 'ja' },
            localStorage: { getItem: () => null, setItem() {}, removeItem() {} },
            fetch: (u, o) => new Promise((res, rej) => page.request(String(u), undefined, (ok, data, status) => ok ? res({
                ok: true, status: 200, json: async () => typeof data == 'string' ? JSON.parse(data) : data, text: async () => typeof data == 'string' ? data : JSON.stringify(data) })
                : status ? res({ ok: false, status, json: async () => { throw new Error('no json'); }, text: async () => '' }) : rej(new TypeError('network')))),
        };
        this.ctx = vm.createContext(Object.assign(win, { document: new Proxy(doc, { get: (t, k) => { if (k in t || typeof k == 'symbol') return t[k]; throw new Unsupported('document.' + k); } }) }));
        win.window = win.self = win.globalThis = this.ctx;
        win.$ = win.jQuery = makeJQuery(this);
        vm.runInContext("Math.random = () => 0.5; Date.now = () => 0;", this.ctx);
        for (const s of all(this.root, 'script')) {
            const src = s.getAttribute('src');
            if (src === null) this.run(s.textContent);
            else if (/\/static\//.test(src)) { const f = src.replace(/^.*\/static\//, '').replace(/\?.*$/, ''); if (!(f in scripts)) throw new Error('the page asks for ' + src + ', which does not exist'); this.run(scripts[f]); }
            else if (!/jquery|bootstrap/i.test(src)) throw new Unsupported('script ' + src);
        }
        doc.readyState = 'complete';
        while (this.readies.length) this.readies.shift().call(doc, win.$);
    }
    run(text) { vm.runInContext(text.replace(/^\ufeff/, ''), this.ctx, { timeout: 5000 }); }
    timer(f, ms, again, a) { const id = ++this.n; this.timers.set(id, { f, again, a }); this.fx.push(['timer', id, Number(ms) || 0, again]); return id; }
    clear(id) { if (this.timers.delete(id)) this.fx.push(['clear', id]); }
    request(url, data, cb, timeout) {
        const id = ++this.n;
        let u = url;
        const args = {};
        const i = u.indexOf('?');
        if (i >= 0) { for (const [k, v] of new URLSearchParams(u.slice(i + 1))) args[k] = v; u = u.slice(0, i); }
        if (typeof data == 'string') for (const [k, v] of new URLSearchParams(data)) args[k] = v;
        else if (data) for (const [k, v] of Object.entries(data)) args[k] = v === null || v === undefined ? '' : String(v);
        this.net.set(id, cb);
        this.fx.push(['request', id, u.replace(/^https?:\/\/[^/]*/, ''), args, timeout || 0]);
    }
    el(q) {
        if (q.id !== undefined) return all(this.root, '#board').flatMap(b => all(b, q.tag || '*')).find(e => e.attrs.id === q.id) || null;
        if (q.row !== undefined) return all(this.root, '#table-moves tr')[q.row] || null;
        return all(this.root, q.sel)[q.nth || 0] || null;
    }
    act(q) {
        this.now = q.now || 0;
        if (q.op == 'answer') { const cb = this.net.get(q.id); this.net.delete(q.id); if (cb) cb(q.ok, q.data, q.status); }
        else if (q.op == 'timer') { const t = this.timers.get(q.id); if (t) { if (!t.again) this.timers.delete(q.id); t.f.apply(this.ctx, t.a); } }
        else if (q.op == 'dialog') {
            const o = this.dialogs.shift(); const names = Object.keys(o.buttons);
            const b = o.buttons[names[q.which]]; if (b) { const f = typeof b == 'function' ? b : b.action; if (f) f.call(o); }
        } else if (q.op == 'mouse') {
            const e = this.el(q);
            if (!e) return { missing: true };
            this.point = e;
            for (const t of ['mousedown', 'mouseup', 'click']) fire(e, event(t, { clientX: 5, clientY: 5, pageX: 5, pageY: 5, offsetX: 5, offsetY: 5, button: q.button || 0, shiftKey: !!q.shift, which: (q.button || 0) + 1 }));
        } else if (q.op == 'click') {
            const e = this.el(q);
            if (!e) return { missing: true };
            if (e.attrs.type == 'checkbox') { e.checked = !e.checked; fire(e, event('click')); fire(e, event('input')); fire(e, event('change')); }
            else { fire(e, event('mousedown')); fire(e, event('mouseup')); fire(e, event('click')); }
        } else if (q.op == 'type') {
            const e = this.el(q);
            if (!e) return { missing: true };
            e.value = q.text; fire(e, event('input')); fire(e, event('change'));
        }
        return {};
    }
    view() {
        const txt = s => { const e = all(this.root, s)[0]; return e ? e.textContent : null; };
        const one = s => all(this.root, s)[0];
        const b = one('#board');
        const use = b ? all(b, 'use').map(e => [e.attrs.id || null, e.attrs['xlink:href'] || e.attrs.href, e.attrs.x, e.attrs.y]) : [];
        const rects = b ? all(b, 'rect').filter(e => !e.attrs.id && e.attrs.width == '20').map(e => [e.attrs.x, e.attrs.y]) : [];
        const free = b ? all(b, 'rect').filter(e => e.attrs.id).map(e => e.attrs.id) : [];
        const texts = b ? all(b, 'text').filter(e => e.attrs['text-anchor'] === undefined && e.attrs.x != '203.5').map(e => [e.attrs.id || null, e.textContent, Number(e.attrs.y), e.attrs.transform || '']) : [];
        const rows = all(this.root, '#table-moves tr');
        const num = one('#move-number'), auto = one('#autoupdate');
        const cm = id => { const e = one(id); return e ? [all(e, 'td').map(t => t.textContent), e.classList.contains('text-body')] : null; };
        return { use, rects, free, texts, rows: rows.map(r => all(r, 'td').map(t => t.textContent)), active: rows.map((r, i) => r.classList.contains('table-active') ? i : -1).filter(i => i >= 0),
            number: num ? num.value : null, auto: auto ? auto.checked : null, hidden: one('#update') ? one('#update').classList.contains('d-none') : null,
            black: cm('#black-comment'), white: cm('#white-comment'), names: txt('#names') };
    }
}

// -- the wire ---------------------------------------------------------------------------------
let pages = new Map();
let lost = null;
process.on('unhandledRejection', e => { lost = e; });
const bad = e => e instanceof Unsupported || (e && e.constructor && e.constructor.name == 'Unsupported') ? { unsupported: String(e.message) } : { error: String(e && e.stack || e).slice(0, 800) };
function handle(q) {
    if (q.op == 'reset') { pages = new Map(); return {}; }
    try {
        if (q.op == 'load') { pages.delete(q.page); pages.set(q.page, new Page(q.html, q.scripts)); return {}; }
        return pages.get(q.page).act(q);
    } catch (e) { return bad(e); }
}
let buf = '';
const queue = [];
let busy = false;
function next() {
    if (busy || !queue.length) return;
    busy = true;
    const q = JSON.parse(queue.shift());
    lost = null;
    const r = handle(q);
    setImmediate(() => setImmediate(() => {
        if (lost && !r.error && !r.unsupported) Object.assign(r, bad(lost));
        const p = pages.get(q.page);
        if (p) { r.fx = p.fx; p.fx = []; if (!r.error && !r.unsupported && !q.noview) r.view = p.view(); }
        process.stdout.write(JSON.stringify(r) + '\n');
        busy = false;
        next();
    }));
}
process.stdin.setEncoding('utf8');
process.stdin.on('data', d => {
    buf += d;
    let i;
    while ((i = buf.indexOf('\n')) >= 0) { queue.push(buf.slice(0, i)); buf = buf.slice(i + 1); }
    next();
});
process.stdin.on('end', () => process.exit(0));
