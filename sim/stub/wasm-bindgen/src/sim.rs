//! The simulated browser: object heap, DOM tree, events, timers, microtasks,
//! `<select>` semantics, box layout and IntersectionObserver.
//!
//! One `World` per thread. Nothing in here reads a clock or real randomness.
//! No borrow of the world is ever held while a callback into Rust runs.
use crate::closure::RawFn;
use crate::rt::Kind;
use crate::value::Repr;
use crate::JsValue;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type Id = u32;

#[derive(Clone)]
pub struct Listener {
    pub ty: String,
    pub cb: JsValue,
    pub capture: bool,
    pub passive: bool,
    pub once: bool,
    pub uid: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NodeType {
    Element,
    Text,
    Comment,
    Document,
    Fragment,
}

pub struct NodeData {
    pub ty: NodeType,
    pub name: String,
    pub data: String,
    pub parent: Option<Id>,
    pub children: Vec<Id>,
    pub attrs: BTreeMap<String, String>,
    pub selected: bool,
}

pub enum Body {
    Plain,
    Function(Option<RawFn>),
    Array(Vec<JsValue>),
    Node(NodeData),
    TokenList(Id),
    Style,
    Observer { cb: JsValue, root: Option<Id>, margin: f64, targets: Vec<(Id, Option<bool>)> },
    Promise { state: Option<Result<JsValue, JsValue>>, then: Vec<(JsValue, JsValue, Id)> },
}

pub struct Obj {
    pub class: String,
    pub props: BTreeMap<String, JsValue>,
    pub listeners: Vec<Listener>,
    pub body: Body,
}

#[derive(Clone)]
pub struct Timer {
    pub id: u64,
    pub cb: JsValue,
    pub due: u64,
    pub seq: u64,
    pub interval: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Rect {
    pub left: f64,
    pub top: f64,
    pub width: f64,
    pub height: f64,
}

/// Called before (true) and after (false) every listener invocation with the
/// listener's uid and the event.
pub type ListenerHook = std::rc::Rc<dyn Fn(u64, &JsValue, bool)>;
pub type LayoutFn = std::rc::Rc<dyn Fn(Id) -> Rect>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub dom_ops: u64,
    pub inserts: u64,
    pub removes: u64,
    pub timers_set: u64,
    pub timers_fired: u64,
    pub microtasks: u64,
    pub events: u64,
    pub listener_calls: u64,
    pub listeners_added: u64,
    pub listeners_removed: u64,
    pub intersections: u64,
    pub prevented_passive: u64,
    pub console_errors: u64,
}

pub struct World {
    pub objs: Vec<Obj>,
    pub window: Id,
    pub document: Id,
    pub html: Id,
    pub head: Id,
    pub body: Id,
    pub timers: Vec<Timer>,
    pub next_timer: u64,
    pub seq: u64,
    pub now: u64,
    pub micro: VecDeque<(JsValue, Vec<JsValue>)>,
    pub layout: Option<LayoutFn>,
    pub on_listener: Option<ListenerHook>,
    pub stats: Stats,
    pub log_hash: u64,
    pub trace: Option<Vec<String>>,
    pub active_element: Option<Id>,
    pub dispatch_depth: u32,
    pub rng: u64,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

thread_local! {
    static BUCKET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Is memory allocated right now the simulator's own? (for the allocator)
pub fn own_memory() -> bool {
    BUCKET.try_with(|b| b.get()).unwrap_or(true)
}
/// While alive, allocations count as the simulator's (true) or the program's.
pub struct Owner(bool);
pub fn memory_owner(simulator: bool) -> Owner {
    Owner(BUCKET.try_with(|b| b.replace(simulator)).unwrap_or(true))
}
impl Drop for Owner {
    fn drop(&mut self) {
        let _ = BUCKET.try_with(|b| b.set(self.0));
    }
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _o = memory_owner(true);
    WORLD.with(|c| {
        let mut b = c.borrow_mut();
        if b.is_none() {
            *b = Some(World::new());
        }
        f(b.as_mut().unwrap())
    })
}

/// Harness access to the world. `f` must not call back into Rust under test.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    w(f)
}
pub fn reset(trace: bool, seed: u64) {
    WORLD.with(|c| {
        let mut nw = World::new();
        nw.rng = seed | 1;
        if trace {
            nw.trace = Some(vec![]);
        }
        let old = c.borrow_mut().replace(nw);
        drop(old);
    });
}

fn val(id: Id) -> JsValue {
    JsValue::from_obj_id(id)
}
fn exc(name: &str, msg: &str) -> JsValue {
    w(|w| {
        let id = w.alloc("DOMException", Body::Plain);
        w.objs[id as usize].props.insert("name".into(), JsValue::from_str(name));
        w.objs[id as usize].props.insert("message".into(), JsValue::from_str(msg));
        val(id)
    })
}
fn type_error(msg: &str) -> JsValue {
    exc("TypeError", msg)
}

impl World {
    fn new() -> World {
        let mut w = World {
            objs: Vec::with_capacity(256),
            window: 0,
            document: 0,
            html: 0,
            head: 0,
            body: 0,
            timers: vec![],
            next_timer: 1,
            seq: 0,
            now: 0,
            micro: VecDeque::new(),
            layout: None,
            on_listener: None,
            stats: Stats::default(),
            log_hash: 0xcbf29ce484222325,
            trace: None,
            active_element: None,
            dispatch_depth: 0,
            rng: 0x9e3779b97f4a7c15,
        };
        w.window = w.alloc("Window", Body::Plain);
        w.document = w.alloc_node("HTMLDocument", NodeType::Document, "#document", "");
        w.html = w.alloc_element("html");
        w.head = w.alloc_element("head");
        w.body = w.alloc_element("body");
        let (d, h, he, b) = (w.document, w.html, w.head, w.body);
        w.raw_insert(d, h, None);
        w.raw_insert(h, he, None);
        w.raw_insert(h, b, None);
        w.stats = Stats::default();
        w
    }
    pub fn log(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        for b in s.bytes().chain(std::iter::once(b'\n')) {
            self.log_hash = (self.log_hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if let Some(t) = &mut self.trace {
            t.push(s.to_string());
        }
    }
    fn alloc(&mut self, class: &str, body: Body) -> Id {
        self.objs.push(Obj { class: class.to_string(), props: BTreeMap::new(), listeners: vec![], body });
        (self.objs.len() - 1) as Id
    }
    fn alloc_node(&mut self, class: &str, ty: NodeType, name: &str, data: &str) -> Id {
        self.alloc(
            class,
            Body::Node(NodeData {
                ty,
                name: name.to_string(),
                data: data.to_string(),
                parent: None,
                children: vec![],
                attrs: BTreeMap::new(),
                selected: false,
            }),
        )
    }
    fn alloc_element(&mut self, tag: &str) -> Id {
        let tag = tag.to_ascii_lowercase();
        self.alloc_node(class_of_tag(&tag), NodeType::Element, &tag, "")
    }
    pub fn node(&self, id: Id) -> Option<&NodeData> {
        match &self.objs.get(id as usize)?.body {
            Body::Node(n) => Some(n),
            _ => None,
        }
    }
    fn n(&self, id: Id) -> &NodeData {
        self.node(id).expect("not a node")
    }
    fn nm(&mut self, id: Id) -> &mut NodeData {
        match &mut self.objs[id as usize].body {
            Body::Node(n) => n,
            _ => panic!("not a node"),
        }
    }
    pub fn is_inclusive_ancestor(&self, a: Id, of: Id) -> bool {
        let mut c = Some(of);
        while let Some(x) = c {
            if x == a {
                return true;
            }
            c = self.n(x).parent;
        }
        false
    }
    pub fn connected(&self, id: Id) -> bool {
        self.is_inclusive_ancestor(self.document, id)
    }
    fn index_in_parent(&self, id: Id) -> Option<(Id, usize)> {
        let p = self.n(id).parent?;
        let i = self.n(p).children.iter().position(|c| *c == id).expect("dom tree corrupt");
        Some((p, i))
    }
    fn raw_remove(&mut self, id: Id) {
        if let Some((p, i)) = self.index_in_parent(id) {
            self.nm(p).children.remove(i);
            self.nm(id).parent = None;
            self.stats.removes += 1;
            self.log(format!("rm {id} from {p}"));
            if self.n(id).name == "option" {
                if let Some(s) = self.select_of(p) {
                    self.select_ask_reset(s);
                }
            }
        }
    }
    fn raw_insert(&mut self, parent: Id, id: Id, before: Option<Id>) {
        let i = match before {
            Some(b) => self.n(parent).children.iter().position(|c| *c == b).expect("dom tree corrupt"),
            None => self.n(parent).children.len(),
        };
        self.nm(parent).children.insert(i, id);
        self.nm(id).parent = Some(parent);
        self.stats.inserts += 1;
        self.log(format!("ins {id} into {parent} before {before:?}"));
        if self.n(id).name == "option" {
            if let Some(s) = self.select_of(parent) {
                self.select_normalize(s);
            }
        }
    }
    fn select_of(&self, p: Id) -> Option<Id> {
        match self.n(p).name.as_str() {
            "select" => Some(p),
            "optgroup" => self.n(p).parent.filter(|g| self.n(*g).name == "select"),
            _ => None,
        }
    }
    pub fn options(&self, sel: Id) -> Vec<Id> {
        let mut out = vec![];
        for c in &self.n(sel).children {
            match self.n(*c).name.as_str() {
                "option" => out.push(*c),
                "optgroup" => out.extend(self.n(*c).children.iter().filter(|o| self.n(**o).name == "option")),
                _ => {}
            }
        }
        out
    }
    fn select_is_single(&self, sel: Id) -> bool {
        !self.n(sel).attrs.contains_key("multiple")
    }
    /// HTML "selectedness setting algorithm".
    fn select_normalize(&mut self, sel: Id) {
        if !self.select_is_single(sel) {
            return;
        }
        let opts = self.options(sel);
        let on: Vec<Id> = opts.iter().copied().filter(|o| self.n(*o).selected).collect();
        if on.is_empty() {
            let size1 = self.n(sel).attrs.get("size").map(|s| s == "0" || s == "1").unwrap_or(true);
            if size1 {
                if let Some(f) = opts.iter().copied().find(|o| !self.n(*o).attrs.contains_key("disabled")) {
                    self.nm(f).selected = true;
                }
            }
        } else if on.len() > 1 {
            let last = *on.last().unwrap();
            for o in on {
                if o != last {
                    self.nm(o).selected = false;
                }
            }
        }
    }
    fn select_ask_reset(&mut self, sel: Id) {
        self.select_normalize(sel);
    }
    fn option_text(&self, o: Id) -> String {
        self.text_content(o).split_ascii_whitespace().collect::<Vec<_>>().join(" ")
    }
    fn option_value(&self, o: Id) -> String {
        self.n(o).attrs.get("value").cloned().unwrap_or_else(|| self.option_text(o))
    }
    pub fn text_content(&self, id: Id) -> String {
        let n = self.n(id);
        match n.ty {
            NodeType::Text | NodeType::Comment => n.data.clone(),
            _ => n.children.iter().filter(|c| self.n(**c).ty != NodeType::Comment).map(|c| self.text_content(*c)).collect(),
        }
    }
    /// Serialise for oracles: comments are dropped, elements are
    /// `tag[children]`, text nodes are quoted.
    pub fn render(&self, id: Id) -> String {
        let n = self.n(id);
        match n.ty {
            NodeType::Comment => String::new(),
            NodeType::Text => format!("\"{}\"", n.data),
            _ => {
                let inner: Vec<String> = n.children.iter().map(|c| self.render(*c)).filter(|s| !s.is_empty()).collect();
                let id_attr = n.attrs.get("id").map(|i| format!("#{i}")).unwrap_or_default();
                format!("{}{}[{}]", n.name, id_attr, inner.join(" "))
            }
        }
    }
    pub fn children_of(&self, id: Id) -> Vec<Id> {
        self.n(id).children.clone()
    }
    pub fn parent_of(&self, id: Id) -> Option<Id> {
        self.n(id).parent
    }
    /// Every node reachable from `id` (inclusive), pre-order.
    pub fn descendants(&self, id: Id) -> Vec<Id> {
        let mut out = vec![id];
        for c in &self.n(id).children {
            out.extend(self.descendants(*c));
        }
        out
    }
    pub fn listener_count(&self) -> usize {
        self.objs.iter().map(|o| o.listeners.len()).sum()
    }
    pub fn live_functions(&self) -> usize {
        self.objs.iter().filter(|o| matches!(o.body, Body::Function(Some(_)))).count()
    }
    pub fn next_rand(&mut self) -> f64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng >> 11) as f64 / (1u64 << 53) as f64
    }
}

fn class_of_tag(tag: &str) -> &'static str {
    match tag {
        "a" => "HTMLAnchorElement",
        "area" => "HTMLAreaElement",
        "audio" => "HTMLAudioElement",
        "video" => "HTMLVideoElement",
        "br" => "HTMLBRElement",
        "base" => "HTMLBaseElement",
        "body" => "HTMLBodyElement",
        "button" => "HTMLButtonElement",
        "canvas" => "HTMLCanvasElement",
        "dl" => "HTMLDListElement",
        "data" => "HTMLDataElement",
        "datalist" => "HTMLDataListElement",
        "details" => "HTMLDetailsElement",
        "dialog" => "HTMLDialogElement",
        "div" => "HTMLDivElement",
        "embed" => "HTMLEmbedElement",
        "fieldset" => "HTMLFieldSetElement",
        "form" => "HTMLFormElement",
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => "HTMLHeadingElement",
        "head" => "HTMLHeadElement",
        "hr" => "HTMLHRElement",
        "html" => "HTMLHtmlElement",
        "iframe" => "HTMLIFrameElement",
        "img" => "HTMLImageElement",
        "input" => "HTMLInputElement",
        "label" => "HTMLLabelElement",
        "legend" => "HTMLLegendElement",
        "li" => "HTMLLIElement",
        "link" => "HTMLLinkElement",
        "ol" => "HTMLOListElement",
        "optgroup" => "HTMLOptGroupElement",
        "option" => "HTMLOptionElement",
        "p" => "HTMLParagraphElement",
        "pre" => "HTMLPreElement",
        "progress" => "HTMLProgressElement",
        "select" => "HTMLSelectElement",
        "span" => "HTMLSpanElement",
        "table" => "HTMLTableElement",
        "tbody" | "thead" | "tfoot" => "HTMLTableSectionElement",
        "td" | "th" => "HTMLTableCellElement",
        "tr" => "HTMLTableRowElement",
        "textarea" => "HTMLTextAreaElement",
        "ul" => "HTMLUListElement",
        "option_" => "HTMLElement",
        _ => "HTMLElement",
    }
}

fn class_parent(c: &str) -> &'static str {
    match c {
        "Window" | "Node" => "EventTarget",
        "EventTarget" | "Event" | "DOMTokenList" | "CSSStyleDeclaration" | "NodeList" | "HTMLCollection" | "DOMRect" | "IntersectionObserver"
        | "IntersectionObserverEntry" | "DOMException" | "Array" | "Function" | "Promise" => "Object",
        "Error" => "Object",
        "HTMLDocument" => "Document",
        "Document" | "DocumentFragment" | "Element" | "CharacterData" => "Node",
        "Text" | "Comment" => "CharacterData",
        "HTMLElement" => "Element",
        "HTMLMediaElement" => "HTMLElement",
        "HTMLAudioElement" | "HTMLVideoElement" => "HTMLMediaElement",
        "UIEvent" | "ClipboardEvent" | "CustomEvent" | "AnimationEvent" | "TransitionEvent" | "SubmitEvent" => "Event",
        "MouseEvent" | "KeyboardEvent" | "FocusEvent" | "InputEvent" | "CompositionEvent" | "TouchEvent" => "UIEvent",
        "WheelEvent" | "DragEvent" | "PointerEvent" => "MouseEvent",
        "Object" => "",
        x if x.starts_with("HTML") => "HTMLElement",
        _ => "Object",
    }
}
fn class_is(mut c: &str, want: &str) -> bool {
    loop {
        if c == want {
            return true;
        }
        if c.is_empty() {
            return false;
        }
        c = class_parent(c);
    }
}

pub fn instance_of(v: &JsValue, class: &str) -> bool {
    match v.obj_id() {
        Some(id) => w(|w| class_is(&w.objs[id as usize].class, class)),
        None => false,
    }
}
pub fn is_function(v: &JsValue) -> bool {
    v.obj_id().map(|id| w(|w| matches!(w.objs[id as usize].body, Body::Function(_)))).unwrap_or(false)
}
pub fn is_array(v: &JsValue) -> bool {
    v.obj_id().map(|id| w(|w| matches!(w.objs[id as usize].body, Body::Array(_)))).unwrap_or(false)
}
pub fn describe(v: &JsValue) -> String {
    match &v.r {
        Repr::Obj(h) => WORLD.with(|c| match c.try_borrow() {
            Ok(b) => match &*b {
                Some(w) => {
                    let id = &h.id();
                    let o = &w.objs[*id as usize];
                    match &o.body {
                        Body::Node(n) => format!("{}#{id}<{} {:?}>", o.class, n.name, n.data),
                        _ if o.class == "DOMException" => format!(
                            "{}: {}",
                            o.props.get("name").and_then(|v| v.as_string()).unwrap_or_default(),
                            o.props.get("message").and_then(|v| v.as_string()).unwrap_or_default()
                        ),
                        _ => format!("{}#{id}", o.class),
                    }
                }
                None => format!("obj#{}", h.id()),
            },
            Err(_) => format!("obj#{}", h.id()),
        }),
        Repr::Str(s) => format!("{s:?}"),
        Repr::Undefined => "undefined".into(),
        Repr::Null => "null".into(),
        Repr::Bool(b) => b.to_string(),
        Repr::Num(n) => n.to_string(),
    }
}
pub fn describe_exception(v: &JsValue) -> String {
    describe(v)
}

// ---------------------------------------------------------------- functions
pub fn new_function(f: RawFn) -> JsValue {
    let _o = memory_owner(true);
    w(|w| {
        let id = w.alloc("Function", Body::Function(Some(f)));
        val(id)
    })
}
pub fn invalidate_function(v: &JsValue) {
    // May run during thread teardown, when the world is already gone.
    let f = WORLD.try_with(|c| {
        let mut b = c.try_borrow_mut().ok()?;
        let w = b.as_mut()?;
        let id = v.obj_id()?;
        match w.objs.get_mut(id as usize).map(|o| &mut o.body) {
            Some(Body::Function(f)) => f.take(),
            _ => None,
        }
    });
    drop(f);
}
pub fn call_function(f: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let _o = memory_owner(false);
    let raw = match f.obj_id() {
        Some(id) => w(|w| match &w.objs[id as usize].body {
            Body::Function(Some(f)) => Ok(f.clone()),
            Body::Function(None) => Err("closure invoked recursively or after being dropped"),
            _ => Err("not a function"),
        }),
        None => Err("not a function"),
    };
    match raw {
        Ok(r) => r(args),
        Err(e) => Err(type_error(e)),
    }
}
pub fn new_array(v: Vec<JsValue>) -> JsValue {
    w(|w| {
        // copied: `v` is the caller's memory
        let id = w.alloc("Array", Body::Array(v.as_slice().to_vec()));
        val(id)
    })
}
pub fn array_elements(v: &JsValue) -> Vec<JsValue> {
    v.obj_id()
        .map(|id| {
            w(|w| match &w.objs[id as usize].body {
                Body::Array(a) => a.clone(),
                _ => vec![],
            })
        })
        .unwrap_or_default()
}
pub fn array_push(v: &JsValue, x: JsValue) {
    if let Some(id) = v.obj_id() {
        w(|w| {
            if let Body::Array(a) = &mut w.objs[id as usize].body {
                a.push(x)
            }
        })
    }
}
pub fn array_set(v: &JsValue, i: usize, x: JsValue) {
    if let Some(id) = v.obj_id() {
        w(|w| {
            if let Body::Array(a) = &mut w.objs[id as usize].body {
                while a.len() <= i {
                    a.push(JsValue::UNDEFINED);
                }
                a[i] = x
            }
        })
    }
}
pub fn new_object(class: &str) -> JsValue {
    w(|w| {
        let id = w.alloc(class, Body::Plain);
        val(id)
    })
}
pub fn get_prop(v: &JsValue, k: &str) -> JsValue {
    v.obj_id().and_then(|id| w(|w| w.objs[id as usize].props.get(k).cloned())).unwrap_or(JsValue::UNDEFINED)
}
pub fn set_prop(v: &JsValue, k: &str, x: JsValue) {
    if let Some(id) = v.obj_id() {
        w(|w| {
            w.objs[id as usize].props.insert(k.to_string(), x);
        })
    }
}
pub fn prop_keys(v: &JsValue) -> Vec<String> {
    v.obj_id().map(|id| w(|w| w.objs[id as usize].props.keys().cloned().collect())).unwrap_or_default()
}
pub fn global() -> JsValue {
    w(|w| val(w.window))
}
pub fn rand() -> f64 {
    w(|w| w.next_rand())
}
pub fn now() -> f64 {
    w(|w| w.now as f64)
}

// ---------------------------------------------------------------- microtasks & timers
pub fn queue_microtask(f: JsValue, args: Vec<JsValue>) {
    w(|w| w.micro.push_back((f, args)))
}
/// Run the microtask queue to exhaustion (bounded).
pub fn run_microtasks() {
    let _o = memory_owner(true);
    let mut n = 0;
    while let Some((f, a)) = w(|w| w.micro.pop_front()) {
        w(|w| w.stats.microtasks += 1);
        if let Err(e) = call_function(&f, &a) {
            crate::throw_val(e);
        }
        n += 1;
        if n > 100_000 {
            panic!("microtask queue does not drain");
        }
    }
}
pub fn pending_timers() -> Vec<Timer> {
    w(|w| {
        let mut t = w.timers.clone();
        t.sort_by_key(|t| (t.due, t.seq));
        t
    })
}
/// Run one pending timer now (the simulated clock jumps to its due time, or
/// stays if the clock is already later).
pub fn fire_timer(id: u64) -> bool {
    let _o = memory_owner(true);
    let t = w(|w| {
        let i = w.timers.iter().position(|t| t.id == id)?;
        let t = if w.timers[i].interval.is_some() {
            let iv = w.timers[i].interval.unwrap().max(1);
            let now = w.now.max(w.timers[i].due);
            w.seq += 1;
            let s = w.seq;
            let old = w.timers[i].clone();
            w.timers[i].due = now + iv;
            w.timers[i].seq = s;
            old
        } else {
            w.timers.remove(i)
        };
        w.now = w.now.max(t.due);
        w.stats.timers_fired += 1;
        w.log(format!("timer {}", t.id));
        Some(t)
    });
    match t {
        Some(t) => {
            if let Err(e) = call_function(&t.cb, &[]) {
                crate::throw_val(e);
            }
            run_microtasks();
            true
        }
        None => false,
    }
}
fn set_timer(cb: JsValue, delay: f64, interval: bool) -> JsValue {
    w(|w| {
        let id = w.next_timer;
        w.next_timer += 1;
        w.seq += 1;
        let delay = if delay.is_finite() && delay > 0.0 { delay as u64 } else { 0 };
        let seq = w.seq;
        w.timers.push(Timer { id, cb, due: w.now + delay, seq, interval: interval.then_some(delay) });
        w.stats.timers_set += 1;
        w.log(format!("settimer {id}"));
        JsValue::from_f64(id as f64)
    })
}

// ---------------------------------------------------------------- events
pub fn new_event(class: &str, ty: &str, bubbles: bool, cancelable: bool) -> JsValue {
    let _o = memory_owner(true);
    w(|w| {
        let id = w.alloc(class, Body::Plain);
        let p = &mut w.objs[id as usize].props;
        p.insert("type".into(), JsValue::from_str(ty));
        p.insert("bubbles".into(), JsValue::from_bool(bubbles));
        p.insert("cancelable".into(), JsValue::from_bool(cancelable));
        p.insert("defaultPrevented".into(), JsValue::FALSE);
        p.insert("eventPhase".into(), JsValue::from_f64(0.0));
        p.insert("isTrusted".into(), JsValue::TRUE);
        p.insert("timeStamp".into(), JsValue::from_f64(w.now as f64));
        val(id)
    })
}
fn flag(ev: &JsValue, k: &str) -> bool {
    get_prop(ev, k).is_truthy()
}
/// Dispatch per the DOM standard (capture, target, bubble). Returns false iff
/// the default was prevented. Microtasks run after the outermost dispatch
/// done by the harness (`user_dispatch`), not here.
pub fn dispatch(target: Id, ev: &JsValue) -> bool {
    let _o = memory_owner(true);
    let ty = get_prop(ev, "type").to_js_string();
    let bubbles = flag(ev, "bubbles");
    set_prop(ev, "target", val(target));
    let path: Vec<Id> = w(|w| {
        w.stats.events += 1;
        w.dispatch_depth += 1;
        w.log(format!("event {ty} at {target}"));
        let mut p = vec![target];
        if w.node(target).is_some() {
            let mut c = target;
            while let Some(x) = w.n(c).parent {
                p.push(x);
                c = x;
            }
            if *p.last().unwrap() == w.document && ty != "load" {
                p.push(w.window);
            }
        }
        p
    });
    let call = |id: Id, phase: u8, capture: Option<bool>| {
        if flag(ev, "__stop") {
            return;
        }
        set_prop(ev, "currentTarget", val(id));
        set_prop(ev, "eventPhase", JsValue::from_f64(phase as f64));
        let ls: Vec<Listener> = w(|w| w.objs[id as usize].listeners.clone());
        for l in ls {
            if l.ty != ty || capture.map(|c| c != l.capture).unwrap_or(false) {
                continue;
            }
            let still = w(|w| w.objs[id as usize].listeners.iter().any(|x| x.uid == l.uid));
            if !still {
                continue;
            }
            if l.once {
                w(|w| w.objs[id as usize].listeners.retain(|x| x.uid != l.uid));
            }
            w(|w| w.stats.listener_calls += 1);
            set_prop(ev, "__passive", JsValue::from_bool(l.passive));
            let hook = w(|w| w.on_listener.clone());
            if let Some(h) = &hook {
                h(l.uid, ev, true);
            }
            let r = call_function(&l.cb, &[ev.clone()]);
            if let Some(h) = &hook {
                h(l.uid, ev, false);
            }
            set_prop(ev, "__passive", JsValue::FALSE);
            if let Err(e) = r {
                crate::throw_val(e);
            }
            if flag(ev, "__stopimm") {
                return;
            }
        }
    };
    for id in path.iter().skip(1).rev() {
        call(*id, 1, Some(true));
    }
    call(target, 2, Some(true));
    call(target, 2, Some(false));
    if bubbles {
        for id in path.iter().skip(1) {
            call(*id, 3, Some(false));
        }
    }
    set_prop(ev, "currentTarget", JsValue::NULL);
    set_prop(ev, "eventPhase", JsValue::from_f64(0.0));
    set_prop(ev, "__stop", JsValue::FALSE);
    set_prop(ev, "__stopimm", JsValue::FALSE);
    w(|w| w.dispatch_depth -= 1);
    !flag(ev, "defaultPrevented")
}
/// A user-originated dispatch: a browser task of its own.
pub fn user_dispatch(target: Id, ev: &JsValue) -> bool {
    let _o = memory_owner(true);
    let r = dispatch(target, ev);
    run_microtasks();
    r
}

// ---------------------------------------------------------------- layout
fn rect_of(id: Id) -> Rect {
    let f = w(|w| w.layout.clone());
    match f {
        Some(f) => f(id),
        None => Rect::default(),
    }
}
fn mk_rect(r: Rect) -> JsValue {
    let o = new_object("DOMRect");
    for (k, v) in [
        ("x", r.left),
        ("y", r.top),
        ("left", r.left),
        ("top", r.top),
        ("width", r.width),
        ("height", r.height),
        ("right", r.left + r.width),
        ("bottom", r.top + r.height),
    ] {
        set_prop(&o, k, JsValue::from_f64(v));
    }
    o
}
/// Number of observers that still observe something.
pub fn live_observers() -> usize {
    w(|w| w.objs.iter().filter(|o| matches!(&o.body, Body::Observer { targets, .. } if !targets.is_empty())).count())
}
/// Observers whose intersection state changed since their last delivery.
pub fn pending_intersections() -> Vec<Id> {
    let obs: Vec<(Id, Option<Id>, f64, Vec<(Id, Option<bool>)>)> = w(|w| {
        w.objs
            .iter()
            .enumerate()
            .filter_map(|(i, o)| match &o.body {
                Body::Observer { root, margin, targets, .. } => Some((i as Id, *root, *margin, targets.clone())),
                _ => None,
            })
            .collect()
    });
    obs.into_iter()
        .filter(|(_, root, margin, targets)| targets.iter().any(|(t, last)| Some(intersects(*t, *root, *margin)) != *last))
        .map(|o| o.0)
        .collect()
}
fn intersects(t: Id, root: Option<Id>, margin: f64) -> bool {
    let (conn, rid) = w(|w| (w.connected(t), root.unwrap_or(w.html)));
    if !conn {
        return false;
    }
    let (a, b) = (rect_of(t), rect_of(rid));
    let (mh, mv) = (b.width * margin, b.height * margin);
    a.left <= b.left + b.width + mh && a.left + a.width >= b.left - mh && a.top <= b.top + b.height + mv && a.top + a.height >= b.top - mv
}
pub fn deliver_intersection(obs: Id) -> bool {
    let _o = memory_owner(true);
    let d = w(|w| match &w.objs[obs as usize].body {
        Body::Observer { cb, root, margin, targets } => Some((cb.clone(), *root, *margin, targets.clone())),
        _ => None,
    });
    let Some((cb, root, margin, mut targets)) = d else { return false };
    let mut entries = vec![];
    for (t, last) in targets.iter_mut() {
        let now = intersects(*t, root, margin);
        if *last != Some(now) {
            *last = Some(now);
            let e = new_object("IntersectionObserverEntry");
            set_prop(&e, "isIntersecting", JsValue::from_bool(now));
            set_prop(&e, "target", val(*t));
            entries.push(e);
        }
    }
    if entries.is_empty() {
        return false;
    }
    w(|w| {
        w.stats.intersections += 1;
        w.log("intersection");
        if let Body::Observer { targets: t, .. } = &mut w.objs[obs as usize].body {
            *t = targets;
        }
    });
    let arr = new_array(entries);
    if let Err(e) = call_function(&cb, &[arr, val(obs)]) {
        crate::throw_val(e);
    }
    run_microtasks();
    true
}

// ---------------------------------------------------------------- promises
pub fn new_promise(state: Option<Result<JsValue, JsValue>>) -> JsValue {
    w(|w| {
        let id = w.alloc("Promise", Body::Promise { state, then: vec![] });
        val(id)
    })
}
pub fn promise_then(p: &JsValue, ok: JsValue, err: JsValue) -> JsValue {
    let next = new_promise(None);
    let nid = next.obj_id().unwrap();
    let pid = p.obj_id().unwrap();
    let st = w(|w| match &mut w.objs[pid as usize].body {
        Body::Promise { state, then } => {
            if state.is_none() {
                then.push((ok.clone(), err.clone(), nid));
            }
            state.clone()
        }
        _ => Some(Ok(JsValue::UNDEFINED)),
    });
    if let Some(s) = st {
        promise_job(s, ok, err, nid);
    }
    next
}
fn promise_job(s: Result<JsValue, JsValue>, ok: JsValue, err: JsValue, next: Id) {
    let f = new_function(std::rc::Rc::new(move |_: &[JsValue]| {
        let (h, v) = match &s {
            Ok(v) => (&ok, v.clone()),
            Err(v) => (&err, v.clone()),
        };
        let r = if is_function(h) { call_function(h, &[v]) } else { s.clone() };
        promise_settle(&val(next), r);
        Ok(JsValue::UNDEFINED)
    }));
    queue_microtask(f, vec![]);
}
pub fn promise_settle(p: &JsValue, r: Result<JsValue, JsValue>) {
    let pid = p.obj_id().unwrap();
    let subs = w(|w| match &mut w.objs[pid as usize].body {
        Body::Promise { state, then } => {
            if state.is_none() {
                *state = Some(r.clone());
            }
            std::mem::take(then)
        }
        _ => vec![],
    });
    for (a, b, n) in subs {
        promise_job(r.clone(), a, b, n);
    }
}

// ---------------------------------------------------------------- invoke
pub fn unimplemented_api(kind: Kind, class: &str, name: &str) -> ! {
    panic!("SIM-UNIMPLEMENTED: {kind:?} {class}.{name}")
}

fn node_arg(v: &JsValue) -> Result<Id, JsValue> {
    match v.obj_id() {
        Some(id) if w(|w| w.node(id).is_some()) => Ok(id),
        _ => Err(type_error("parameter is not of type 'Node'")),
    }
}
fn opt_node_arg(v: Option<&JsValue>) -> Result<Option<Id>, JsValue> {
    match v {
        None => Ok(None),
        Some(v) if v.is_null_or_undefined() => Ok(None),
        Some(v) => node_arg(v).map(Some),
    }
}
/// DOM "pre-insert".
fn pre_insert(parent: Id, node: Id, child: Option<Id>) -> Result<(), JsValue> {
    let r = w(|w| -> Result<(), (&'static str, &'static str)> {
        if !matches!(w.n(parent).ty, NodeType::Element | NodeType::Document | NodeType::Fragment) {
            return Err(("HierarchyRequestError", "this node type does not support this method"));
        }
        if w.is_inclusive_ancestor(node, parent) {
            return Err(("HierarchyRequestError", "The new child element contains the parent"));
        }
        if let Some(c) = child {
            if w.n(c).parent != Some(parent) {
                return Err(("NotFoundError", "The node before which the new node is to be inserted is not a child of this node"));
            }
        }
        if w.n(node).ty == NodeType::Document {
            return Err(("HierarchyRequestError", "cannot insert a document"));
        }
        w.stats.dom_ops += 1;
        let mut reference = child;
        if reference == Some(node) {
            let (p, i) = w.index_in_parent(node).unwrap();
            reference = w.n(p).children.get(i + 1).copied();
        }
        if w.n(node).ty == NodeType::Fragment {
            let kids = w.children_of(node);
            for k in &kids {
                w.raw_remove(*k);
            }
            for k in kids {
                w.raw_insert(parent, k, reference);
            }
        } else {
            w.raw_remove(node);
            w.raw_insert(parent, node, reference);
        }
        Ok(())
    });
    r.map_err(|(n, m)| exc(n, m))
}
fn remove_child(parent: Id, node: Id) -> Result<(), JsValue> {
    let ok = w(|w| {
        if w.n(node).parent == Some(parent) {
            w.stats.dom_ops += 1;
            w.raw_remove(node);
            true
        } else {
            false
        }
    });
    if ok {
        Ok(())
    } else {
        Err(exc("NotFoundError", "The node to be removed is not a child of this node"))
    }
}
/// Variadic (Node or string)* arguments converted to a single node.
fn nodes_arg(args: &[JsValue]) -> Result<Id, JsValue> {
    let mut ids = vec![];
    for a in args {
        ids.push(match a.obj_id() {
            Some(_) => node_arg(a)?,
            None => {
                let s = a.to_js_string();
                w(|w| w.alloc_node("Text", NodeType::Text, "#text", &s))
            }
        });
    }
    if ids.len() == 1 {
        return Ok(ids[0]);
    }
    let f = w(|w| w.alloc_node("DocumentFragment", NodeType::Fragment, "#document-fragment", ""));
    for i in ids {
        pre_insert(f, i, None)?;
    }
    Ok(f)
}
fn onode(o: Option<Id>) -> JsValue {
    o.map(val).unwrap_or(JsValue::NULL)
}
fn is_element(w: &World, id: Id) -> bool {
    w.n(id).ty == NodeType::Element
}

pub fn invoke(kind: Kind, class: &str, name: &str, this: Option<&JsValue>, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    let _o = memory_owner(true);
    let a = |i: usize| args.get(i).cloned().unwrap_or(JsValue::UNDEFINED);
    match kind {
        Kind::Ctor => return construct(class, &args),
        Kind::Static => return static_call(class, name, &args),
        _ => {}
    }
    let Some(tid) = this.and_then(|t| t.obj_id()) else {
        return Err(type_error(&format!("cannot access {name} of {}", this.map(describe).unwrap_or_default())));
    };
    let this = this.unwrap();
    match kind {
        Kind::IndexGet => {
            let k = a(0);
            return Ok(match k.as_f64() {
                Some(i) => index_get(tid, i as usize),
                None => get_prop(this, &k.to_js_string()),
            });
        }
        Kind::IndexSet => {
            set_prop(this, &a(0).to_js_string(), a(1));
            return Ok(JsValue::UNDEFINED);
        }
        Kind::Getter => return getter(tid, class, name),
        Kind::Setter => return setter(tid, class, name, a(0)).map(|_| JsValue::UNDEFINED),
        _ => {}
    }
    // ---- methods
    let is_node = w(|w| w.node(tid).is_some());
    match name {
        "addEventListener" => {
            let (ty, cb) = (a(0).to_js_string(), a(1));
            if cb.is_null_or_undefined() {
                return Ok(JsValue::UNDEFINED);
            }
            let o = a(2);
            let (capture, passive, once) = if o.obj_id().is_some() { (flag(&o, "capture"), flag(&o, "passive"), flag(&o, "once")) } else { (o.is_truthy(), false, false) };
            w(|w| {
                w.seq += 1;
                let uid = w.seq;
                if !w.objs[tid as usize].listeners.iter().any(|l| l.ty == ty && l.cb == cb && l.capture == capture) {
                    w.stats.listeners_added += 1;
                    w.log(format!("listen {ty} on {tid} capture={capture}"));
                    w.objs[tid as usize].listeners.push(Listener { ty, cb, capture, passive, once, uid });
                }
            });
            return Ok(JsValue::UNDEFINED);
        }
        "removeEventListener" => {
            let (ty, cb) = (a(0).to_js_string(), a(1));
            let o = a(2);
            let capture = if o.obj_id().is_some() { flag(&o, "capture") } else { o.is_truthy() };
            w(|w| {
                let ls = &mut w.objs[tid as usize].listeners;
                let n = ls.len();
                ls.retain(|l| !(l.ty == ty && l.cb == cb && l.capture == capture));
                let d = (n - ls.len()) as u64;
                w.stats.listeners_removed += d;
                w.log(format!("unlisten {ty} on {tid} capture={capture} -> {d}"));
            });
            return Ok(JsValue::UNDEFINED);
        }
        "dispatchEvent" => return Ok(JsValue::from_bool(dispatch(tid, &a(0)))),
        "preventDefault" => {
            if flag(this, "__passive") {
                w(|w| w.stats.prevented_passive += 1);
            } else if flag(this, "cancelable") {
                set_prop(this, "defaultPrevented", JsValue::TRUE);
            }
            return Ok(JsValue::UNDEFINED);
        }
        "stopPropagation" => {
            set_prop(this, "__stop", JsValue::TRUE);
            return Ok(JsValue::UNDEFINED);
        }
        "stopImmediatePropagation" => {
            set_prop(this, "__stop", JsValue::TRUE);
            set_prop(this, "__stopimm", JsValue::TRUE);
            return Ok(JsValue::UNDEFINED);
        }
        _ => {}
    }
    if is_node {
        if let Some(r) = node_method(tid, name, &args) {
            return r;
        }
    }
    match (class, name) {
        ("Window", "setTimeout") => return Ok(set_timer(a(0), a(1).to_num(), false)),
        ("Window", "setInterval") => return Ok(set_timer(a(0), a(1).to_num(), true)),
        ("Window", "requestAnimationFrame") => return Ok(set_timer(a(0), 16.0, false)),
        ("Window", "requestIdleCallback") => return Ok(set_timer(a(0), 1.0, false)),
        ("Window", "clearTimeout" | "clearInterval" | "cancelAnimationFrame") => {
            let id = a(0).to_num();
            w(|w| w.timers.retain(|t| t.id as f64 != id));
            return Ok(JsValue::UNDEFINED);
        }
        ("Window", "queueMicrotask") => {
            queue_microtask(a(0), vec![]);
            return Ok(JsValue::UNDEFINED);
        }
        ("DOMTokenList", _) => return token_list(tid, name, &args),
        ("CSSStyleDeclaration", "setProperty") => {
            let (k, v) = (a(0).to_js_string(), a(1).to_js_string());
            w(|w| w.log(format!("style {tid} {k}={v}")));
            set_prop(this, &k, JsValue::from_str(&v));
            return Ok(JsValue::UNDEFINED);
        }
        ("CSSStyleDeclaration", "getPropertyValue") => return Ok(JsValue::from_str(&get_prop(this, &a(0).to_js_string()).as_string().unwrap_or_default())),
        ("CSSStyleDeclaration", "removeProperty") => {
            let k = a(0).to_js_string();
            let old = get_prop(this, &k).as_string().unwrap_or_default();
            w(|w| {
                w.objs[tid as usize].props.remove(&k);
            });
            return Ok(JsValue::from_str(&old));
        }
        ("IntersectionObserver", "observe") => {
            let t = node_arg(&a(0))?;
            w(|w| {
                if let Body::Observer { targets, .. } = &mut w.objs[tid as usize].body {
                    if !targets.iter().any(|x| x.0 == t) {
                        targets.push((t, None));
                    }
                }
            });
            return Ok(JsValue::UNDEFINED);
        }
        ("IntersectionObserver", "unobserve") => {
            let t = node_arg(&a(0))?;
            w(|w| {
                if let Body::Observer { targets, .. } = &mut w.objs[tid as usize].body {
                    targets.retain(|x| x.0 != t);
                }
            });
            return Ok(JsValue::UNDEFINED);
        }
        ("IntersectionObserver", "disconnect") => {
            w(|w| {
                if let Body::Observer { targets, .. } = &mut w.objs[tid as usize].body {
                    targets.clear();
                }
            });
            return Ok(JsValue::UNDEFINED);
        }
        ("NodeList" | "HTMLCollection" | "HTMLOptionsCollection", "item" | "get") => return Ok(index_get(tid, a(0).to_num() as usize)),
        _ => {}
    }
    unimplemented_api(kind, class, name)
}

fn index_get(tid: Id, i: usize) -> JsValue {
    w(|w| match &w.objs[tid as usize].body {
        Body::Array(v) => v.get(i).cloned().unwrap_or(JsValue::UNDEFINED),
        _ => JsValue::UNDEFINED,
    })
}

fn node_method(t: Id, name: &str, args: &[JsValue]) -> Option<Result<JsValue, JsValue>> {
    let a = |i: usize| args.get(i).cloned().unwrap_or(JsValue::UNDEFINED);
    let r: Result<JsValue, JsValue> = (|| {
        Ok(match name {
            "appendChild" => {
                let n = node_arg(&a(0))?;
                pre_insert(t, n, None)?;
                val(n)
            }
            "insertBefore" => {
                let n = node_arg(&a(0))?;
                let c = opt_node_arg(args.get(1))?;
                pre_insert(t, n, c)?;
                val(n)
            }
            "removeChild" => {
                let n = node_arg(&a(0))?;
                remove_child(t, n)?;
                val(n)
            }
            "replaceChild" => {
                let (n, old) = (node_arg(&a(0))?, node_arg(&a(1))?);
                if w(|w| w.n(old).parent != Some(t)) {
                    return Err(exc("NotFoundError", "The node to be replaced is not a child of this node"));
                }
                if n != old {
                    pre_insert(t, n, Some(old))?;
                    remove_child(t, old)?;
                }
                val(old)
            }
            "remove" if w(|w| w.n(t).name == "select") && !args.is_empty() => {
                let i = a(0).to_num();
                let o = w(|w| w.options(t).get(i as usize).copied());
                if let Some(o) = o {
                    w(|w| w.raw_remove(o));
                }
                JsValue::UNDEFINED
            }
            "remove" => {
                w(|w| {
                    w.stats.dom_ops += 1;
                    w.raw_remove(t)
                });
                JsValue::UNDEFINED
            }
            "before" | "after" | "replaceWith" => {
                let Some((p, i)) = w(|w| w.index_in_parent(t)) else { return Ok(JsValue::UNDEFINED) };
                let argids: Vec<Id> = args.iter().filter_map(|x| x.obj_id()).collect();
                let viable_next = w(|w| w.n(p).children[i + 1..].iter().copied().find(|c| !argids.contains(c)));
                let viable_prev = w(|w| w.n(p).children[..i].iter().rev().copied().find(|c| !argids.contains(c)));
                let n = nodes_arg(args)?;
                match name {
                    "after" => pre_insert(p, n, viable_next)?,
                    "before" => {
                        let reference = w(|w| match viable_prev {
                            Some(v) => {
                                let (_, i) = w.index_in_parent(v).unwrap();
                                w.n(p).children.get(i + 1).copied()
                            }
                            None => w.n(p).children.first().copied(),
                        });
                        pre_insert(p, n, reference)?
                    }
                    _ => {
                        if w(|w| w.n(t).parent == Some(p)) {
                            pre_insert(p, n, Some(t))?;
                            if n != t {
                                remove_child(p, t)?;
                            }
                        } else {
                            pre_insert(p, n, viable_next)?
                        }
                    }
                }
                JsValue::UNDEFINED
            }
            "append" => {
                let n = nodes_arg(args)?;
                pre_insert(t, n, None)?;
                JsValue::UNDEFINED
            }
            "prepend" => {
                let n = nodes_arg(args)?;
                let f = w(|w| w.n(t).children.first().copied());
                pre_insert(t, n, f)?;
                JsValue::UNDEFINED
            }
            "replaceChildren" => {
                let n = nodes_arg(args)?;
                for c in w(|w| w.children_of(t)) {
                    w(|w| w.raw_remove(c));
                }
                pre_insert(t, n, None)?;
                JsValue::UNDEFINED
            }
            "insertAdjacentElement" => {
                let n = node_arg(&a(1))?;
                let place = a(0).to_js_string();
                let pi = w(|w| w.index_in_parent(t));
                match (place.as_str(), pi) {
                    ("beforebegin", Some((p, _))) => pre_insert(p, n, Some(t))?,
                    ("afterend", Some((p, i))) => {
                        let nx = w(|w| w.n(p).children.get(i + 1).copied());
                        pre_insert(p, n, nx)?
                    }
                    ("afterbegin", _) => {
                        let f = w(|w| w.n(t).children.first().copied());
                        pre_insert(t, n, f)?
                    }
                    ("beforeend", _) => pre_insert(t, n, None)?,
                    _ => return Ok(JsValue::NULL),
                }
                val(n)
            }
            "contains" => match opt_node_arg(args.first())? {
                Some(n) => JsValue::from_bool(w(|w| w.is_inclusive_ancestor(t, n))),
                None => JsValue::FALSE,
            },
            "isSameNode" => JsValue::from_bool(a(0).obj_id() == Some(t)),
            "isEqualNode" => JsValue::from_bool(a(0).obj_id().map(|o| w(|w| w.render(o) == w.render(t))).unwrap_or(false)),
            "hasChildNodes" => JsValue::from_bool(w(|w| !w.n(t).children.is_empty())),
            "normalize" => JsValue::UNDEFINED,
            "getRootNode" => {
                let mut c = t;
                while let Some(p) = w(|w| w.n(c).parent) {
                    c = p;
                }
                val(c)
            }
            "compareDocumentPosition" => {
                let o = node_arg(&a(0))?;
                JsValue::from_f64(w(|w| {
                    let path = |mut x: Id| {
                        let mut p = vec![x];
                        while let Some(q) = w.n(x).parent {
                            p.push(q);
                            x = q;
                        }
                        p.reverse();
                        p
                    };
                    if o == t {
                        return 0.0;
                    }
                    let (pt, po) = (path(t), path(o));
                    if pt[0] != po[0] {
                        return 1.0 + 32.0 + if o < t { 2.0 } else { 4.0 };
                    }
                    let k = pt.iter().zip(&po).take_while(|(a, b)| a == b).count();
                    if k == pt.len() {
                        return 16.0 + 4.0;
                    }
                    if k == po.len() {
                        return 8.0 + 2.0;
                    }
                    let kids = &w.n(pt[k - 1]).children;
                    let (it, io) = (kids.iter().position(|c| *c == pt[k]), kids.iter().position(|c| *c == po[k]));
                    if io < it {
                        2.0
                    } else {
                        4.0
                    }
                }))
            }
            "cloneNode" => {
                fn cl(w: &mut World, t: Id, deep: bool) -> Id {
                    let (class, ty, nm, data, attrs, kids) = {
                        let n = w.n(t);
                        (w.objs[t as usize].class.clone(), n.ty, n.name.clone(), n.data.clone(), n.attrs.clone(), n.children.clone())
                    };
                    let id = w.alloc_node(&class, ty, &nm, &data);
                    w.nm(id).attrs = attrs;
                    if deep {
                        for k in kids {
                            let c = cl(w, k, true);
                            w.raw_insert(id, c, None);
                        }
                    }
                    id
                }
                let deep = a(0).is_truthy();
                val(w(|w| cl(w, t, deep)))
            }
            "getAttribute" => {
                let k = a(0).to_js_string().to_ascii_lowercase();
                w(|w| w.n(t).attrs.get(&k).map(|s| JsValue::from_str(s)).unwrap_or(JsValue::NULL))
            }
            "hasAttribute" => {
                let k = a(0).to_js_string().to_ascii_lowercase();
                JsValue::from_bool(w(|w| w.n(t).attrs.contains_key(&k)))
            }
            "setAttribute" => {
                let (k, v) = (a(0).to_js_string().to_ascii_lowercase(), a(1).to_js_string());
                w(|w| {
                    w.log(format!("attr {t} {k}={v}"));
                    w.nm(t).attrs.insert(k, v);
                });
                JsValue::UNDEFINED
            }
            "removeAttribute" => {
                let k = a(0).to_js_string().to_ascii_lowercase();
                w(|w| w.nm(t).attrs.remove(&k));
                JsValue::UNDEFINED
            }
            "toggleAttribute" => {
                let k = a(0).to_js_string().to_ascii_lowercase();
                w(|w| {
                    if w.nm(t).attrs.remove(&k).is_none() {
                        w.nm(t).attrs.insert(k, String::new());
                        JsValue::TRUE
                    } else {
                        JsValue::FALSE
                    }
                })
            }
            "getBoundingClientRect" => mk_rect(rect_of(t)),
            "appendData" => {
                let s = a(0).to_js_string();
                w(|w| w.nm(t).data.push_str(&s));
                JsValue::UNDEFINED
            }
            "createElement" | "createElementNS" => {
                let tag = if name == "createElement" { a(0) } else { a(1) }.to_js_string();
                if tag.is_empty() || tag.contains(char::is_whitespace) {
                    return Err(exc("InvalidCharacterError", "invalid tag name"));
                }
                val(w(|w| w.alloc_element(&tag)))
            }
            "createTextNode" => {
                let s = a(0).to_js_string();
                val(w(|w| w.alloc_node("Text", NodeType::Text, "#text", &s)))
            }
            "createComment" => {
                let s = a(0).to_js_string();
                val(w(|w| w.alloc_node("Comment", NodeType::Comment, "#comment", &s)))
            }
            "createDocumentFragment" => val(w(|w| w.alloc_node("DocumentFragment", NodeType::Fragment, "#document-fragment", ""))),
            "getElementById" => {
                let s = a(0).to_js_string();
                w(|w| {
                    let d = w.document;
                    let f = w.descendants(d).into_iter().find(|n| w.n(*n).attrs.get("id") == Some(&s));
                    onode(f)
                })
            }
            "item" if w(|w| w.n(t).name == "select") => {
                let i = a(0).to_num() as usize;
                w(|w| onode(w.options(t).get(i).copied()))
            }
            "add" if w(|w| w.n(t).name == "select") => {
                let n = node_arg(&a(0))?;
                let before = if let Some(i) = a(1).as_f64() { w(|w| w.options(t).get(i as usize).copied()) } else { opt_node_arg(args.get(1))? };
                pre_insert(t, n, before)?;
                JsValue::UNDEFINED
            }
            "click" => {
                let ev = new_event("MouseEvent", "click", true, true);
                dispatch(t, &ev);
                JsValue::UNDEFINED
            }
            "focus" | "blur" => {
                let on = name == "focus";
                w(|w| w.active_element = on.then_some(t));
                let ev = new_event("FocusEvent", name, false, false);
                dispatch(t, &ev);
                JsValue::UNDEFINED
            }
            "scrollTo" | "scrollIntoView" | "scroll" | "scrollBy" | "reset" | "showModal" | "show" | "close" => JsValue::UNDEFINED,
            _ => return Err(JsValue::from_str("\u{0}nomethod")),
        })
    })();
    match r {
        Err(e) if e == "\u{0}nomethod" => None,
        r => Some(r),
    }
}

fn token_list(tid: Id, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let el = w(|w| match w.objs[tid as usize].body {
        Body::TokenList(e) => e,
        _ => panic!("not a token list"),
    });
    let mut toks: Vec<String> = w(|w| w.n(el).attrs.get("class").cloned().unwrap_or_default().split_ascii_whitespace().map(|s| s.to_string()).collect());
    let check = |s: &str| -> Result<(), JsValue> {
        if s.is_empty() {
            return Err(exc("SyntaxError", "The token provided must not be empty."));
        }
        if s.contains(char::is_whitespace) {
            return Err(exc("InvalidCharacterError", "The token contains whitespace."));
        }
        Ok(())
    };
    let mut ret = JsValue::UNDEFINED;
    let s0 = args.first().map(|a| a.to_js_string()).unwrap_or_default();
    match name {
        "contains" => return Ok(JsValue::from_bool(toks.contains(&s0))),
        "add" => {
            for a in args {
                let s = a.to_js_string();
                check(&s)?;
                if !toks.contains(&s) {
                    toks.push(s)
                }
            }
        }
        "remove" => {
            for a in args {
                let s = a.to_js_string();
                check(&s)?;
                toks.retain(|t| *t != s);
            }
        }
        "toggle" => {
            check(&s0)?;
            let want = match args.get(1) {
                Some(f) if !f.is_undefined() => f.is_truthy(),
                _ => !toks.contains(&s0),
            };
            if !want {
                toks.retain(|t| *t != s0);
            } else if !toks.contains(&s0) {
                toks.push(s0);
            }
            ret = JsValue::from_bool(want);
        }
        "replace" => {
            let s1 = args.get(1).map(|a| a.to_js_string()).unwrap_or_default();
            check(&s0)?;
            check(&s1)?;
            if let Some(i) = toks.iter().position(|t| *t == s0) {
                toks[i] = s1;
                ret = JsValue::TRUE;
            } else {
                ret = JsValue::FALSE;
            }
        }
        "item" => return Ok(toks.get(s0.parse::<usize>().unwrap_or(usize::MAX)).map(|s| JsValue::from_str(s)).unwrap_or(JsValue::NULL)),
        _ => unimplemented_api(Kind::Method, "DOMTokenList", name),
    }
    let joined = toks.join(" ");
    w(|w| {
        w.log(format!("class {el} {joined}"));
        w.nm(el).attrs.insert("class".into(), joined);
    });
    Ok(ret)
}

fn list_of(class: &str, ids: Vec<Id>) -> JsValue {
    w(|w| {
        let n = ids.len();
        let id = w.alloc(class, Body::Array(ids.into_iter().map(val).collect()));
        w.objs[id as usize].props.insert("length".into(), JsValue::from_f64(n as f64));
        val(id)
    })
}

fn getter(t: Id, _class: &str, name: &str) -> Result<JsValue, JsValue> {
    let (is_node, own) = w(|w| (w.node(t).is_some(), w.objs[t as usize].class.clone()));
    if is_node {
        let sib = |w: &World, d: isize, el: bool| -> Option<Id> {
            let (p, i) = w.index_in_parent(t)?;
            let kids = &w.n(p).children;
            let mut j = i as isize + d;
            while j >= 0 && (j as usize) < kids.len() {
                if !el || is_element(w, kids[j as usize]) {
                    return Some(kids[j as usize]);
                }
                j += d;
            }
            None
        };
        let r = match name {
            "parentNode" => w(|w| onode(w.n(t).parent)),
            "parentElement" => w(|w| onode(w.n(t).parent.filter(|p| is_element(w, *p)))),
            "firstChild" => w(|w| onode(w.n(t).children.first().copied())),
            "lastChild" => w(|w| onode(w.n(t).children.last().copied())),
            "nextSibling" => w(|w| onode(sib(w, 1, false))),
            "previousSibling" => w(|w| onode(sib(w, -1, false))),
            "nextElementSibling" => w(|w| onode(sib(w, 1, true))),
            "previousElementSibling" => w(|w| onode(sib(w, -1, true))),
            "firstElementChild" => w(|w| onode(w.n(t).children.iter().copied().find(|c| is_element(w, *c)))),
            "lastElementChild" => w(|w| onode(w.n(t).children.iter().rev().copied().find(|c| is_element(w, *c)))),
            "childElementCount" => w(|w| JsValue::from_f64(w.n(t).children.iter().filter(|c| is_element(w, **c)).count() as f64)),
            "childNodes" => {
                let k = w(|w| w.children_of(t));
                list_of("NodeList", k)
            }
            "children" => {
                let k = w(|w| w.children_of(t).into_iter().filter(|c| is_element(w, *c)).collect());
                list_of("HTMLCollection", k)
            }
            "nodeType" => JsValue::from_f64(w(|w| match w.n(t).ty {
                NodeType::Element => 1.0,
                NodeType::Text => 3.0,
                NodeType::Comment => 8.0,
                NodeType::Document => 9.0,
                NodeType::Fragment => 11.0,
            })),
            "nodeName" | "tagName" => w(|w| {
                let n = w.n(t);
                JsValue::from_str(&if n.ty == NodeType::Element { n.name.to_ascii_uppercase() } else { n.name.clone() })
            }),
            "localName" => w(|w| JsValue::from_str(&w.n(t).name)),
            "nodeValue" | "data" => w(|w| match w.n(t).ty {
                NodeType::Text | NodeType::Comment => JsValue::from_str(&w.n(t).data),
                _ => JsValue::NULL,
            }),
            "length" if matches!(own.as_str(), "Text" | "Comment") => w(|w| JsValue::from_f64(w.n(t).data.encode_utf16().count() as f64)),
            "textContent" | "innerText" => w(|w| if w.n(t).ty == NodeType::Document { JsValue::NULL } else { JsValue::from_str(&w.text_content(t)) }),
            "innerHTML" => w(|w| JsValue::from_str(&w.n(t).children.iter().map(|c| w.render(*c)).collect::<String>())),
            "isConnected" => JsValue::from_bool(w(|w| w.connected(t))),
            "ownerDocument" => w(|w| if t == w.document { JsValue::NULL } else { val(w.document) }),
            "className" => w(|w| JsValue::from_str(w.n(t).attrs.get("class").map(|s| s.as_str()).unwrap_or(""))),
            "id" => w(|w| JsValue::from_str(w.n(t).attrs.get("id").map(|s| s.as_str()).unwrap_or(""))),
            "classList" => w(|w| {
                let id = w.alloc("DOMTokenList", Body::TokenList(t));
                val(id)
            }),
            "style" => {
                let s = get_prop(&val(t), "__style");
                if s.is_undefined() {
                    let s = w(|w| val(w.alloc("CSSStyleDeclaration", Body::Style)));
                    set_prop(&val(t), "__style", s.clone());
                    s
                } else {
                    s
                }
            }
            "body" if t == w(|w| w.document) => w(|w| val(w.body)),
            "head" if t == w(|w| w.document) => w(|w| val(w.head)),
            "documentElement" if t == w(|w| w.document) => w(|w| val(w.html)),
            "activeElement" => w(|w| onode(w.active_element.or(Some(w.body)))),
            "defaultView" => w(|w| val(w.window)),
            // <select> / <option>
            "selectedIndex" if own == "HTMLSelectElement" => w(|w| {
                let i = w.options(t).iter().position(|o| w.n(*o).selected);
                JsValue::from_f64(i.map(|i| i as f64).unwrap_or(-1.0))
            }),
            "value" if own == "HTMLSelectElement" => w(|w| {
                let o = w.options(t).into_iter().find(|o| w.n(*o).selected);
                JsValue::from_str(&o.map(|o| w.option_value(o)).unwrap_or_default())
            }),
            "length" if own == "HTMLSelectElement" => w(|w| JsValue::from_f64(w.options(t).len() as f64)),
            "options" if own == "HTMLSelectElement" => {
                let k = w(|w| w.options(t));
                list_of("HTMLOptionsCollection", k)
            }
            "selectedOptions" if own == "HTMLSelectElement" => {
                let k = w(|w| w.options(t).into_iter().filter(|o| w.n(*o).selected).collect());
                list_of("HTMLCollection", k)
            }
            "selected" if own == "HTMLOptionElement" => JsValue::from_bool(w(|w| w.n(t).selected)),
            "value" if own == "HTMLOptionElement" => w(|w| JsValue::from_str(&w.option_value(t))),
            "text" if own == "HTMLOptionElement" => w(|w| JsValue::from_str(&w.option_text(t))),
            "index" if own == "HTMLOptionElement" => w(|w| {
                let i = w.n(t).parent.and_then(|p| w.select_of(p)).and_then(|s| w.options(s).iter().position(|o| *o == t));
                JsValue::from_f64(i.unwrap_or(0) as f64)
            }),
            "multiple" | "disabled" | "hidden" => w(|w| JsValue::from_bool(w.n(t).attrs.contains_key(name))),
            "offsetWidth" | "clientWidth" => JsValue::from_f64(rect_of(t).width),
            "offsetHeight" | "clientHeight" => JsValue::from_f64(rect_of(t).height),
            _ => get_prop(&val(t), name),
        };
        return Ok(r);
    }
    Ok(match (own.as_str(), name) {
        ("Window", "document") => w(|w| val(w.document)),
        ("Window", "window" | "self" | "top" | "parent") => w(|w| val(w.window)),
        ("Array", "length") => w(|w| match &w.objs[t as usize].body {
            Body::Array(a) => JsValue::from_f64(a.len() as f64),
            _ => JsValue::UNDEFINED,
        }),
        ("DOMTokenList", "value") => {
            let e = w(|w| match w.objs[t as usize].body {
                Body::TokenList(e) => e,
                _ => 0,
            });
            getter(e, "", "className")?
        }
        ("DOMTokenList", "length") => {
            let e = w(|w| match w.objs[t as usize].body {
                Body::TokenList(e) => e,
                _ => 0,
            });
            let s = getter(e, "", "className")?.as_string().unwrap_or_default();
            JsValue::from_f64(s.split_ascii_whitespace().count() as f64)
        }
        _ => get_prop(&val(t), name),
    })
}

fn setter(t: Id, _class: &str, name: &str, v: JsValue) -> Result<(), JsValue> {
    let (is_node, own) = w(|w| (w.node(t).is_some(), w.objs[t as usize].class.clone()));
    if is_node {
        match name {
            "data" | "nodeValue" if matches!(own.as_str(), "Text" | "Comment") => {
                let s = if v.is_null_or_undefined() { String::new() } else { v.to_js_string() };
                w(|w| {
                    w.log(format!("data {t} {s:?}"));
                    w.nm(t).data = s
                });
                return Ok(());
            }
            "textContent" | "innerText" | "innerHTML" => {
                let s = if v.is_null_or_undefined() { String::new() } else { v.to_js_string() };
                if name == "innerHTML" && s.contains('<') {
                    unimplemented_api(Kind::Setter, "Element", "innerHTML (markup)");
                }
                w(|w| match w.n(t).ty {
                    NodeType::Text | NodeType::Comment => w.nm(t).data = s,
                    NodeType::Document => {}
                    _ => {
                        for c in w.children_of(t) {
                            w.raw_remove(c);
                        }
                        if !s.is_empty() {
                            let tx = w.alloc_node("Text", NodeType::Text, "#text", &s);
                            w.raw_insert(t, tx, None);
                        }
                    }
                });
                return Ok(());
            }
            "className" | "id" => {
                let k = if name == "id" { "id" } else { "class" };
                let s = v.to_js_string();
                w(|w| {
                    w.nm(t).attrs.insert(k.into(), s);
                });
                return Ok(());
            }
            "multiple" | "disabled" | "hidden" => {
                let on = v.is_truthy();
                w(|w| {
                    if on {
                        w.nm(t).attrs.insert(name.into(), String::new());
                    } else {
                        w.nm(t).attrs.remove(name);
                    }
                });
                return Ok(());
            }
            "value" if own == "HTMLOptionElement" => {
                let s = v.to_js_string();
                w(|w| {
                    w.nm(t).attrs.insert("value".into(), s);
                });
                return Ok(());
            }
            "value" if own == "HTMLSelectElement" => {
                let s = v.to_js_string();
                w(|w| {
                    w.log(format!("select {t} value={s:?}"));
                    let opts = w.options(t);
                    let pick = opts.iter().copied().find(|o| w.option_value(*o) == s);
                    for o in opts {
                        w.nm(o).selected = Some(o) == pick;
                    }
                });
                return Ok(());
            }
            "selectedIndex" if own == "HTMLSelectElement" => {
                let i = v.to_num();
                w(|w| {
                    w.log(format!("select {t} index={i}"));
                    for (k, o) in w.options(t).into_iter().enumerate() {
                        w.nm(o).selected = k as f64 == i;
                    }
                });
                return Ok(());
            }
            "selected" if own == "HTMLOptionElement" => {
                let on = v.is_truthy();
                w(|w| {
                    w.log(format!("option {t} selected={on}"));
                    w.nm(t).selected = on;
                    if let Some(s) = w.n(t).parent.and_then(|p| w.select_of(p)) {
                        if w.select_is_single(s) {
                            if on {
                                for o in w.options(s) {
                                    if o != t {
                                        w.nm(o).selected = false;
                                    }
                                }
                            } else {
                                w.select_normalize(s);
                            }
                        }
                    }
                });
                return Ok(());
            }
            "text" if own == "HTMLOptionElement" => return setter(t, "", "textContent", v),
            _ => {}
        }
    }
    set_prop(&val(t), name, v);
    Ok(())
}

fn construct(class: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let a = |i: usize| args.get(i).cloned().unwrap_or(JsValue::UNDEFINED);
    let s0 = || a(0).as_string().unwrap_or_default();
    Ok(match class {
        "Comment" => val(w(|w| w.alloc_node("Comment", NodeType::Comment, "#comment", &s0()))),
        "Text" => val(w(|w| w.alloc_node("Text", NodeType::Text, "#text", &s0()))),
        "DocumentFragment" => val(w(|w| w.alloc_node("DocumentFragment", NodeType::Fragment, "#document-fragment", ""))),
        "EventTarget" => new_object("EventTarget"),
        "Object" => new_object("Object"),
        "Option" => {
            let o = w(|w| w.alloc_element("option"));
            setter(o, "", "textContent", a(0))?;
            val(o)
        }
        "Image" => val(w(|w| w.alloc_element("img"))),
        "Audio" => val(w(|w| w.alloc_element("audio"))),
        "IntersectionObserver" => {
            let init = a(1);
            let root = get_prop(&init, "root").obj_id();
            let m = get_prop(&init, "rootMargin").as_string().unwrap_or_default();
            let margin = m.split_ascii_whitespace().next().and_then(|x| x.strip_suffix('%')).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 100.0;
            val(w(|w| w.alloc("IntersectionObserver", Body::Observer { cb: a(0), root, margin, targets: vec![] })))
        }
        "AbortController" => new_object("AbortController"),
        c if class_is(c, "Event") => {
            let o = a(1);
            new_event(c, &s0(), flag(&o, "bubbles"), flag(&o, "cancelable"))
        }
        c => unimplemented_api(Kind::Ctor, c, "constructor"),
    })
}

fn static_call(class: &str, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    match (class, name) {
        ("console", "error" | "warn" | "log" | "debug" | "info" | "trace" | "assert") => {
            let s: Vec<String> = args.iter().map(|a| a.as_string().unwrap_or_else(|| describe(a))).collect();
            w(|w| {
                if name == "error" {
                    w.stats.console_errors += 1;
                }
                w.log(format!("console.{name} {}", s.join(" ")))
            });
            Ok(JsValue::UNDEFINED)
        }
        ("console", _) => Ok(JsValue::UNDEFINED),
        _ => unimplemented_api(Kind::Static, class, name),
    }
}

/// Nodes that are not in the document but still have listeners etc. are fine;
/// this is only the set of interesting ids for oracles.
pub fn ids_under(root: Id) -> BTreeSet<Id> {
    w(|w| w.descendants(root).into_iter().collect())
}
