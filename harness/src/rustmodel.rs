//! Well-formed Rust files whose items are recorded while they are printed.
use crate::gen::Gen;

pub type R = (usize, usize);

#[derive(Clone, Debug)]
pub struct Item {
    /// fn, struct, enum, trait, type, mod, impl
    pub kind: &'static str,
    pub name: String,
    pub range: R,
    /// the breadcrumb
    pub label: Option<String>,
    /// the enclosing items, outermost first (indices into `opened`)
    pub id: usize,
    /// generic parameter list as written, and as used
    pub params: Option<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Use {
    pub range: R,
    pub segment: R,
    pub alias: Option<R>,
    pub spec: bool,
    pub path: bool,
}

#[derive(Default)]
pub struct RustModel {
    pub text: String,
    /// in the order in which they end
    pub items: Vec<Item>,
    pub uses: Vec<Use>,
    /// ends of `X.pd`: (start of X, end of X, end)
    pub prints: Vec<(usize, usize, usize)>,
    ids: usize,
    lead: usize,
    fuel: usize,
}

pub const TYPES: &[&str] = &["T", "u32", "Vec<T>", "&'a str", "::std::fmt::Debug", "(A, B)", "Box<dyn F>", "\u{d6}l<A, B>"];
const NAMES: &[&str] = &["foo", "Foo", "bar", "Bar", "a", "FooBar", "baz_2", "HTTP", "\u{f6}l", "main", "test", "\u{e9}\u{436}o"];

impl RustModel {
    fn ws(&mut self, g: &mut Gen) {
        let s = *g.pick(&[" ", "\n", "\n\n    ", "\n// c\n\n", " /* { */ ", "\n  "]);
        self.text.push_str(s);
        // spaces directly before a struct belong to it, as line comments do
        let blank = if s.ends_with(' ') && !s.ends_with("\n  ") && !s.ends_with("\n    ") { 1 } else { 0 };
        self.lead = self.text.len() - blank;
    }
    fn p(&mut self, s: &str) {
        self.text.push_str(s);
    }
    fn generics(&mut self, g: &mut Gen) -> Option<(String, String)> {
        if g.bool() {
            return None;
        }
        let (mut full, mut short) = (Vec::new(), Vec::new());
        for i in 0..g.below(3) {
            let n = ["'a", "'b"][i];
            full.push(format!("{}{}", n, g.pick(&["", ": 'static", ":", ": 'c + 'd"])));
            short.push(n.to_string());
        }
        for i in 0..g.below(3) {
            let n = ["T", "Us"][i];
            full.push(format!("{}{}", n, g.pick(&["", ": Clone", ": Fn() -> X + 'a", ": A + ::b::B<C>", ": for<'x> De<'x>"])));
            short.push(n.to_string());
        }
        let sep = *g.pick(&[", ", ",", " , ", ",\n "]);
        let tail = if !full.is_empty() && g.chance(1, 5) { "," } else { "" };
        let t = format!("<{}{}>", full.join(sep), tail);
        self.p(&t);
        Some((t, format!("<{}>", short.join(", "))))
    }
    fn block(&mut self, g: &mut Gen, depth: usize) {
        self.p("{");
        for _ in 0..g.below(4) {
            self.ws(g);
            match g.weighted(&[3, 2, 2, 2]) {
                0 => self.p("let x = 1;"),
                1 => self.p("foo(x, |y| { y });"),
                2 if depth < 4 => self.item(g, depth + 1),
                _ => self.p("match x { _ => 1 }"),
            }
        }
        if g.chance(1, 4) {
            self.ws(g);
            let e = *g.pick(&["foo", "x.y(1)", "a::b", "x[0]", "(1, 2)", "a.b.c"]);
            let s = self.text.len();
            self.p(e);
            self.p(".pd");
            self.prints.push((s, s + e.len(), s + e.len() + 3));
        }
        self.ws(g);
        self.p("}");
    }
    fn items(&mut self, g: &mut Gen, depth: usize, max: usize) {
        for _ in 0..g.range(0, max) {
            self.ws(g);
            self.item(g, depth);
        }
        self.ws(g);
    }
    fn item(&mut self, g: &mut Gen, depth: usize) {
        self.fuel = self.fuel.saturating_sub(1);
        let kind = if self.fuel == 0 { 9 } else { g.weighted(&[5, 5, 4, 2, 2, if depth < 4 { 3 } else { 0 }, 3, 5, 1]) };
        let start = if kind == 1 { self.lead } else { self.text.len() };
        let id = self.ids;
        self.ids += 1;
        let name = g.pick(NAMES).to_string();
        if kind == 1 && g.chance(1, 4) {
            self.p(*g.pick(&["// doc\n", "/// doc\n  ", "// a\n// b\n"]));
        }
        if kind != 6 && kind != 7 {
            if g.chance(1, 5) {
                self.p(*g.pick(&["#[derive(Clone)] ", "#[inline]\n"]));
            }
            if g.chance(1, 3) {
                self.p("pub ");
            }
        }
        let mut params = None;
        let mut label = None;
        let kind = match kind {
            0 => {
                self.p("fn ");
                self.p(&name);
                self.generics(g);
                self.p(*g.pick(&["()", "(x: T)", "(&self, y: &'a mut U)"]));
                self.p(*g.pick(&["", " -> T", " -> Vec<X>"]));
                self.p(" ");
                self.block(g, depth);
                label = Some(format!("fn {}", name));
                "fn"
            }
            1 => {
                self.p(*g.pick(&["struct ", "struct ", "struct\n", "union "]));
                self.p(&name);
                params = self.generics(g);
                self.p(*g.pick(&[";", " {}", " { a: T, pub b: Vec<U> }", "(T, pub U);", "{ x: fn() -> T, }"]));
                label = Some(format!("struct {}", name));
                "struct"
            }
            2 => {
                self.p("enum ");
                self.p(&name);
                params = self.generics(g);
                self.p(*g.pick(&[" {}", " { A, B(T), }", " { A { x: T }, B = 1 }"]));
                label = Some(format!("enum {}", name));
                "enum"
            }
            3 => {
                self.p("trait ");
                self.p(&name);
                self.generics(g);
                self.p(" {");
                for _ in 0..g.below(3) {
                    self.ws(g);
                    let s = self.text.len();
                    let id = self.ids;
                    self.ids += 1;
                    let n = g.pick(NAMES).to_string();
                    let f = g.bool();
                    if f {
                        self.p(&format!("fn {}(&self);", n));
                    } else {
                        self.p(&format!("type {};", n));
                    }
                    let range = (s, self.text.len());
                    self.items.push(Item { kind: if f { "fn" } else { "type" }, label: if f { Some(format!("fn {}", n)) } else { None }, name: n, range, id, params: None });
                }
                self.ws(g);
                self.p("}");
                label = Some(format!("trait {}", name));
                "trait"
            }
            4 => {
                self.p("type ");
                self.p(&name);
                self.generics(g);
                self.p(" = ");
                self.p(*g.pick(TYPES));
                self.p(";");
                "type"
            }
            5 => {
                self.p("mod ");
                self.p(&name);
                if g.chance(1, 5) {
                    self.p(";");
                } else {
                    self.p(" {");
                    self.items(g, depth + 1, 4);
                    self.p("}");
                }
                "mod"
            }
            6 => {
                self.p("impl");
                self.generics(g);
                self.p(" ");
                let a = *g.pick(TYPES);
                self.p(a);
                label = Some(format!("impl {}", a));
                if g.bool() {
                    let b = *g.pick(TYPES);
                    self.p(" for ");
                    self.p(b);
                    label = Some(format!("impl {} for {}", a, b));
                }
                self.p(" {");
                for _ in 0..g.below(3) {
                    self.ws(g);
                    let s = self.text.len();
                    let id = self.ids;
                    self.ids += 1;
                    let n = g.pick(NAMES).to_string();
                    self.p(&format!("fn {}(&self) ", n));
                    self.block(g, depth + 1);
                    let range = (s, self.text.len());
                    self.items.push(Item { kind: "fn", label: Some(format!("fn {}", n)), name: n, range, id, params: None });
                }
                self.ws(g);
                self.p("}");
                "impl"
            }
            7 => {
                self.p("use ");
                if g.chance(1, 4) {
                    self.p("::");
                }
                let mut segment = (0, 0);
                let n = g.range(1, 3);
                for i in 0..n {
                    if i > 0 {
                        self.p(*g.pick(&["::", "::", " :: "]));
                    }
                    let s = self.text.len();
                    let w = if i == 0 { *g.pick(if n == 1 { &["a", "std", "foo"] } else { &["a", "self", "super", "foo", "std"] }) } else { *g.pick(&["b", "Bar", "foo", "\u{f6}l"]) };
                    self.p(w);
                    segment = (s, self.text.len());
                }
                let (mut alias, mut spec) = (None, false);
                match g.weighted(&[5, 2, 2, 2]) {
                    1 => {
                        self.p(" ");
                        let s = self.text.len();
                        self.p("as q");
                        alias = Some((s, self.text.len()));
                    }
                    2 => {
                        self.p(*g.pick(&["::{a, b as c}", "::{}", "::{self}"]));
                        spec = true;
                    }
                    3 => {
                        self.p("::*");
                        spec = true;
                    }
                    _ => {}
                }
                self.p(";");
                self.uses.push(Use { range: (start, self.text.len()), segment, alias, spec, path: true });
                return;
            }
            8 => {
                self.p("use {a, b};");
                self.uses.push(Use { range: (start, self.text.len()), segment: (0, 0), alias: None, spec: true, path: false });
                return;
            }
            _ => {
                self.p("const C: u32 = 1;");
                return;
            }
        };
        let range = (start, self.text.len());
        let name = if kind == "impl" { String::new() } else { name };
        self.items.push(Item { kind, name, range, label, id, params });
    }

    /// labels of the items around the byte at `at`, outermost first
    pub fn crumbs(&self, at: usize) -> Vec<String> {
        let mut v: Vec<&Item> = self.items.iter().filter(|i| i.range.0 <= at && at < i.range.1).collect();
        v.sort_by_key(|i| (i.range.0, std::cmp::Reverse(i.range.1)));
        v.iter().filter_map(|i| i.label.clone()).collect()
    }
}

pub fn generate(g: &mut Gen) -> RustModel {
    let mut m = RustModel { fuel: g.range(2, 14), ..RustModel::default() };
    m.items(g, 0, 5);
    m
}
