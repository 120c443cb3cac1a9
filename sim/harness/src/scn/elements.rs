//! Element components, input types, text and class shortcuts (C24).
use super::ui::settle;
use crate::ctx::*;
use async_ui_web::html::{self, CustomElement, Input, Text};
use async_ui_web::lists::DynamicList;
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at};
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Poll, Waker};
use wasm_bindgen::{sim, JsValue};
use web_sys::Element;

type Num = Pin<Box<dyn Future<Output = u32>>>;
type Fut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Debug)]
enum Cls {
    Add(String),
    AddMany(Vec<String>),
    Del(String),
    DelMany(Vec<String>),
    Set(String, bool),
    With(String, String),
    WithMany(Vec<String>, String),
}
impl Cls {
    fn apply<T: AsRef<Element>>(&self, t: &T) {
        let e: &Element = t.as_ref();
        let strs = |v: &'_ Vec<String>| -> Vec<String> { v.clone() };
        match self {
            Cls::Add(c) => e.add_class(c),
            Cls::AddMany(v) => e.add_classes(strs(v).iter().map(|s| s.as_str())),
            Cls::Del(c) => e.del_class(c),
            Cls::DelMany(v) => e.del_classes(strs(v).iter().map(|s| s.as_str())),
            Cls::Set(c, b) => e.set_class(c, *b),
            Cls::With(a, b) => {
                t.with_class(a).with_class(b);
            }
            Cls::WithMany(v, b) => {
                let r = t.with_classes(strs(v).iter().map(|s| s.as_str()));
                check!(std::ptr::eq(r, t), "builder-identity", "with_classes returned another object");
                r.with_class(b);
            }
        }
    }
    fn model(&self, m: &mut Vec<String>) {
        let add = |m: &mut Vec<String>, c: &String| {
            if !m.contains(c) {
                m.push(c.clone())
            }
        };
        match self {
            Cls::Add(c) | Cls::Set(c, true) => add(m, c),
            Cls::AddMany(v) => v.iter().for_each(|c| add(m, c)),
            Cls::Del(c) | Cls::Set(c, false) => m.retain(|x| x != c),
            Cls::DelMany(v) => m.retain(|x| !v.contains(x)),
            Cls::With(a, b) => {
                add(m, a);
                add(m, b)
            }
            Cls::WithMany(v, b) => {
                v.iter().for_each(|c| add(m, c));
                add(m, b)
            }
        }
    }
}
struct Made {
    el: Element,
    classes: Box<dyn Fn(&Cls)>,
    fut: Num,
    childed: bool,
}
type Mk = fn(Num, bool) -> Made;
macro_rules! comps { ($($t:ident $tag:literal $k:ident)*) => { &[$(($tag, comps!(@$k $t))),*] };
    (@childed $t:ident) => { |child: Num, def: bool| {
        let c = Rc::new(if def { html::$t::default() } else { html::$t::new() });
        let c2 = c.clone();
        Made { el: AsRef::<Element>::as_ref(&*c).clone(), classes: Box::new(move |o| o.apply(&*c2)), fut: Box::pin(async move { c.render(child).await }), childed: true }
    } };
    (@childless $t:ident) => { |_child: Num, def: bool| {
        let c = Rc::new(if def { html::$t::default() } else { html::$t::new() });
        let c2 = c.clone();
        Made { el: AsRef::<Element>::as_ref(&*c).clone(), classes: Box::new(move |o| o.apply(&*c2)), fut: Box::pin(async move { c.render().await; 0 }), childed: false }
    } };
}
/// Every component with the HTML tag it stands for.
static COMPS: &[(&str, Mk)] = comps! {
    Anchor "a" childed Area "area" childless Audio "audio" childed Bold "b" childed Br "br" childless
    Base "base" childless Button "button" childed Canvas "canvas" childed Dl "dl" childed Data "data" childed
    DataList "datalist" childed Dialog "dialog" childed Div "div" childed Embed "embed" childless
    FieldSet "fieldset" childed Form "form" childed FrameSet "frameset" childed Hr "hr" childless
    H1 "h1" childed H2 "h2" childed H3 "h3" childed H4 "h4" childed H5 "h5" childed H6 "h6" childed
    Italic "i" childed IFrame "iframe" childed Img "img" childed Input "input" childless Li "li" childed
    Label "label" childed Legend "legend" childed Link "link" childless Map "map" childed Meta "meta" childless
    Meter "meter" childed Ol "ol" childed Object "object" childed OptGroup "optgroup" childed
    Option "option" childed Output "output" childed Paragraph "p" childed Picture "picture" childed
    Pre "pre" childed Progress "progress" childed Quote "q" childed Select "select" childed
    Source "source" childless Span "span" childed Style "style" childed Th "th" childed Td "td" childed
    Col "col" childed ColGroup "colgroup" childed Table "table" childed Tr "tr" childed THead "thead" childed
    TFoot "tfoot" childed TBody "tbody" childed Template "template" childed TextArea "textarea" childed
    Time "time" childed Track "track" childless Ul "ul" childed Video "video" childed
};
macro_rules! inputs { ($($f:ident $t:literal)*) => { &[$(($t, Input::$f as fn() -> Input)),*] } }
static INPUTS: &[(&str, fn() -> Input)] = inputs! {
    new_button "button" new_checkbox "checkbox" new_color "color" new_date "date" new_email "email"
    new_file "file" new_hidden "hidden" new_image "image" new_month "month" new_number "number"
    new_password "password" new_radio "radio" new_range "range" new_reset "reset" new_search "search"
    new_submit "submit" new_tel "tel" new_text "text" new_time "time" new_url "url" new_week "week"
};
const TAGS: [&str; 4] = ["article", "my-thing", "section", "details"];
const CLASSES: [&str; 6] = ["a", "ab", "b", "-x", "a_b", "ü"];

#[derive(Default)]
struct Gate {
    open: Cell<Option<u32>>,
    w: RefCell<Option<Waker>>,
}
enum Kind {
    El { el: Element, classes: Box<dyn Fn(&Cls)>, model: Vec<String>, tag: String, ty: Option<&'static str>, texts: Vec<String> },
    Text(Option<Rc<Text>>, String),
}
struct Item {
    key: u32,
    kind: Kind,
    gate: Rc<Gate>,
    childed: bool,
    shown: bool,
    done: Rc<Cell<Option<u32>>>,
    completed: bool,
}
fn words() -> String {
    if chance(1, 12) {
        let c = ["\0", " ", "\r\n", "\u{2028}", "\u{feff}", "🦀", "e\u{301}", "\"'", "\\n", "\u{202e}"];
        return (0..range(1, 4)).map(|_| c[choose(c.len())]).collect();
    }
    if chance(1, 60) {
        return ["long ", "ö"][choose(2)].repeat([100, 1000, 20_000][choose(3)]);
    }
    ["", "one", "two words", "<b>&amp;</b>", "ünïcode", "a\nb"][choose(6)].to_string()
}
fn cls() -> Cls {
    let c = || CLASSES[choose(CLASSES.len())].to_string();
    let many = || -> Vec<String> {
        if chance(1, 10) {
            // a long list of them
            let from = choose(6);
            return (0..4 + choose(40)).map(|i| format!("c{}", from + i)).collect();
        }
        (0..choose(4)).map(|_| c()).collect()
    };
    match weighted(&[4, 3, 3, 3, 4, 2, 2]) {
        0 => Cls::Add(c()),
        1 => Cls::AddMany(many()),
        2 => Cls::Del(c()),
        3 => Cls::DelMany(many()),
        4 => Cls::Set(c(), chance(1, 2)),
        5 => Cls::With(c(), c()),
        _ => Cls::WithMany(many(), c()),
    }
}
fn show(id: u32) -> String {
    sim::with(|w| {
        let n = w.node(id).unwrap();
        match n.ty {
            sim::NodeType::Comment => String::new(),
            sim::NodeType::Text => format!("{:?}", n.data),
            _ => {
                let kids = n.children.clone();
                let (name, cl) = (n.name.clone(), n.attrs.get("class").cloned().unwrap_or_default());
                let ty = n.attrs.get("type").cloned().unwrap_or_default();
                let ty = if name == "input" { w.objs[id as usize].props.get("type").map(|t| t.to_js_string()).unwrap_or(ty) } else { String::new() };
                format!("{name}.{}:{ty}[{}]", cl.trim(), kids.iter().map(|k| show_in(w, *k)).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" "))
            }
        }
    })
}
fn show_in(w: &sim::World, id: u32) -> String {
    let n = w.node(id).unwrap();
    match n.ty {
        sim::NodeType::Text => format!("{:?}", n.data),
        _ => String::new(),
    }
}
fn dom(e: &impl AsRef<JsValue>) -> u32 {
    e.as_ref().obj_id().unwrap()
}
impl Item {
    fn expected(&self) -> String {
        match &self.kind {
            Kind::Text(_, s) => format!("{s:?}"),
            Kind::El { model, tag, ty, texts, .. } => {
                let inner = if self.shown { texts.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" ") } else { String::new() };
                format!("{tag}.{}:{}[{inner}]", model.join(" "), ty.unwrap_or(""))
            }
        }
    }
}
pub fn elements() {
    let list: Rc<DynamicList<'static, u32, Fut>> = Rc::new(DynamicList::new());
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    let l2 = list.clone();
    let host = mount_at(async move { l2.render().await }, main.clone().into());
    settle(50);
    let mut items: Vec<Item> = vec![];
    let mut gone: Vec<Item> = vec![];
    let mut pool: Vec<(Item, Fut)> = vec![];
    let mut next = 0;
    for _ in 0..range(3, 24) {
        span(|| {
            step();
            match weighted(&[6, 5, 8, 2, 3, 3, 4]) {
                0 => {
                    // Make something, to be shown now or later.
                    let gate = Rc::new(Gate::default());
                    let done: Rc<Cell<Option<u32>>> = Rc::default();
                    let (mut childed, mut texts) = (true, vec![]);
                    let key = next;
                    next += 1;
                    let g2 = gate.clone();
                    let mut child = |texts: &Vec<String>| -> Num {
                        let ts = texts.clone();
                        let g2 = g2.clone();
                        Box::pin(async move {
                            let t: Vec<_> = ts.iter().map(|t| t.as_str().render()).collect();
                            let wait = poll_fn(move |cx| {
                                *g2.w.borrow_mut() = Some(cx.waker().clone());
                                match g2.open.get() {
                                    Some(v) => Poll::Ready(v),
                                    None => Poll::Pending,
                                }
                            });
                            async_ui_web::race((join(t).pend_after(), wait)).await
                        })
                    };
                    let some_texts = || -> Vec<String> { (0..choose(3)).map(|_| words()).collect() };
                    let (kind, fut): (Kind, Num) = match weighted(&[8, 3, 2, 2, 2]) {
                        0 => {
                            let (tag, mk) = COMPS[choose(COMPS.len())];
                            let t = some_texts();
                            let m = mk(child(&t), chance(1, 3));
                            childed = m.childed;
                            if childed {
                                texts = t;
                            }
                            let ty = if tag == "input" { Some("text") } else { None };
                            (Kind::El { el: m.el, classes: m.classes, model: vec![], tag: tag.into(), ty: ty.filter(|_| false), texts }, m.fut)
                        }
                        1 => {
                            childed = false;
                            let (ty, mk) = INPUTS[choose(INPUTS.len())];
                            let c = Rc::new(mk());
                            let c2 = c.clone();
                            let el = AsRef::<Element>::as_ref(&*c).clone();
                            let fut: Num = Box::pin(async move {
                                c.render().await;
                                0
                            });
                            (Kind::El { el, classes: Box::new(move |o| o.apply(&*c2)), model: vec![], tag: "input".into(), ty: Some(ty), texts }, fut)
                        }
                        2 => {
                            let tag = TAGS[choose(4)];
                            texts = some_texts();
                            let c = Rc::new(CustomElement::new(tag.into()));
                            let el = AsRef::<Element>::as_ref(&c.element).clone();
                            let (ch, e2) = (child(&texts), el.clone());
                            (Kind::El { el, classes: Box::new(move |o| o.apply(&e2)), model: vec![], tag: tag.into(), ty: None, texts }, Box::pin(async move { c.render(ch).await }))
                        }
                        3 => {
                            childed = false;
                            let t = Rc::new(if chance(1, 2) { Text::new() } else { Text::default() });
                            let t2 = t.clone();
                            (
                                Kind::Text(Some(t), String::new()),
                                Box::pin(async move {
                                    t2.render().await;
                                    0
                                }),
                            )
                        }
                        _ => {
                            childed = false;
                            let s = words();
                            let s2 = s.clone();
                            (
                                Kind::Text(None, s),
                                Box::pin(async move {
                                    s2.as_str().render().await;
                                    0
                                }),
                            )
                        }
                    };
                    let d2 = done.clone();
                    let item = Item { key, kind, gate, childed, shown: false, done, completed: false };
                    log(format!("make {key}: {}", item.expected()));
                    pool.push((
                        item,
                        Box::pin(async move {
                            let v = fut.await;
                            d2.set(Some(v));
                        }),
                    ));
                }
                1 if !pool.is_empty() => {
                    let (mut item, fut) = pool.remove(choose(pool.len()));
                    let at = choose(items.len() + 1);
                    log(format!("show {} at {at}", item.key));
                    list.insert(item.key, fut, items.get(at).map(|i| &i.key));
                    item.shown = true;
                    items.insert(at, item);
                    settle(50);
                }
                2 | 1 => {
                    // Class changes, on screen or off.
                    let n = items.len() + pool.len() + gone.len();
                    if n > 0 {
                        let i = choose(n);
                        let it = if i < items.len() {
                            &mut items[i]
                        } else if i < items.len() + pool.len() {
                            &mut pool[i - items.len()].0
                        } else {
                            &mut gone[i - items.len() - pool.len()]
                        };
                        let key = it.key;
                        match &mut it.kind {
                            Kind::El { classes, model, .. } => {
                                let op = cls();
                                log(format!("{key}: {op:?}"));
                                fault("class changed");
                                classes(&op);
                                op.model(model);
                            }
                            Kind::Text(Some(t), s) => {
                                *s = words();
                                log(format!("{key}: text {s:?}"));
                                fault("text changed");
                                t.set_data(s);
                            }
                            _ => {}
                        }
                    }
                }
                3 if !items.is_empty() => {
                    let i = choose(items.len());
                    fault("element removed");
                    let mut it = items.remove(i);
                    log(format!("remove {}", it.key));
                    list.remove(&it.key);
                    it.shown = false;
                    gone.push(it);
                    settle(50);
                }
                4 => {
                    // The content of an element finishes.
                    let open: Vec<usize> = (0..items.len()).filter(|i| items[*i].gate.open.get().is_none() && items[*i].childed).collect();
                    if !open.is_empty() {
                        let it = &mut items[open[choose(open.len())]];
                        let v = 1 + choose(1000) as u32;
                        log(format!("finish {} with {v}", it.key));
                        fault("content finished");
                        it.gate.open.set(Some(v));
                        if let Some(w) = it.gate.w.borrow_mut().take() {
                            w.wake();
                        }
                        settle(50);
                        check!(it.done.get() == Some(v), "wrong-output", "the content of element {} finished with {v}, its render() yielded {:?}", it.key, it.done.get());
                        it.completed = true;
                        let i = items.iter().position(|i| i.completed).unwrap();
                        let mut it = items.remove(i);
                        list.remove(&it.key);
                        it.shown = false;
                        gone.push(it);
                        settle(50);
                    }
                }
                5 if !gone.is_empty() => drop(gone.remove(choose(gone.len()))),
                _ => settle(50),
            }
            settle(50);
            // What each element is, wherever it is.
            for it in items.iter().chain(pool.iter().map(|p| &p.0)).chain(gone.iter()) {
                let id = match &it.kind {
                    Kind::El { el, .. } => dom(el),
                    Kind::Text(Some(t), _) => dom(&t.node),
                    _ => continue,
                };
                let (got, want) = (show(id), it.expected());
                let head = |s: &str| s.split('[').next().unwrap_or("").to_string();
                if it.shown {
                    check!(got == want, "wrong-element", "element {} is {got}, expected {want}", it.key);
                } else {
                    check!(head(&got) == head(&want), "wrong-element", "element {} (not shown) is {got}, expected {want}", it.key);
                }
                check!(it.completed || it.done.get().is_none(), "finished-early", "render() of element {} finished by itself", it.key);
            }
            let got: Vec<String> = sim::with(|w| w.children_of(dom(&main))).into_iter().map(show).filter(|s| !s.is_empty()).collect();
            let want: Vec<String> = items.iter().map(|i| i.expected()).collect();
            check!(got == want, "screen-differs", "the screen shows\n    {got:?}\n  expected\n    {want:?}");
            probe("screen_compared");
        });
    }
    drop(host);
    settle(50);
}
