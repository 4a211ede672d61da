//! The mechanical source rewrites (documented in DESIGN.md).
use crate::spec::FnSpec;
use crate::Texts;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

// ---------------------------------------------------------------- use declarations

fn flat(t: &UseTree, pre: &str, out: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => flat(&p.tree, &format!("{}{}::", pre, p.ident), out),
        UseTree::Name(n) => {
            if n.ident == "self" {
                out.push(pre.trim_end_matches("::").to_string())
            } else {
                out.push(format!("{}{}", pre, n.ident))
            }
        }
        UseTree::Rename(r) => {
            if r.ident == "self" {
                out.push(format!("{} as {}", pre.trim_end_matches("::"), r.rename))
            } else {
                out.push(format!("{}{} as {}", pre, r.ident, r.rename))
            }
        }
        UseTree::Glob(_) => out.push(format!("{}*", pre)),
        UseTree::Group(g) => {
            for t in &g.items {
                flat(t, pre, out)
            }
        }
    }
}

pub fn map_std(p: &str) -> Option<String> {
    for (a, b) in [
        ("std::io", "crate::vp::io"),
        ("std::fmt", "crate::vp::fmt"),
        ("std::fs", "crate::vp::fs"),
        ("std::string", "crate::vp::string"),
        ("std::cmp", "crate::vp::cmp"),
        ("std::path", "crate::vp::path"),
    ] {
        if p == a || p.starts_with(&format!("{}::", a)) || p.starts_with(&format!("{} as", a)) {
            return Some(format!("{}{}", b, &p[a.len()..]));
        }
    }
    None
}

pub fn flatten_use(u: &ItemUse) -> Vec<String> {
    let mut v = vec![];
    flat(&u.tree, "", &mut v);
    let mut o = vec![];
    for p in v {
        if p.contains("prelude") || p == "std::error" {
            continue;
        }
        let p = map_std(&p).unwrap_or(p);
        o.push(format!("#[allow(unused_imports)] pub use {};", p));
    }
    o
}

// ---------------------------------------------------------------- names

pub fn param_names(s: &Signature) -> Vec<String> {
    s.inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_".into(),
            },
        })
        .collect()
}

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        let n = i.ident.to_string();
        // upper case identifiers are constants
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, i);
    }
}

pub fn local_names(b: &Block) -> Vec<String> {
    let mut l = Locals(vec![]);
    l.visit_block(b);
    l.0
}

struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr(&mut self, e: &'a Expr) {
        if let Some(n) = call_name(e) {
            self.0.push(n);
        }
        visit::visit_expr(self, e);
    }
}

pub fn call_names(b: &Block) -> Vec<String> {
    let mut l = Calls(vec![]);
    l.visit_block(b);
    l.0.sort();
    l.0.dedup();
    l.0
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}

// ---------------------------------------------------------------- loop normal form and shape

/// `loop { if C { break; } REST }` is `while !(C) { REST }`
pub struct NormLoops;
impl VisitMut for NormLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            let c = match l.body.stmts.first() {
                Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => {
                    match &i.then_branch.stmts[..] {
                        [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none() => Some((*i.cond).clone()),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(c) = c {
                let rest = &l.body.stmts[1..];
                let label = &l.label;
                *e = parse_quote!(#label while !(#c) { #(#rest)* });
            }
        }
    }
}

struct Shape(Vec<String>);
#[derive(Default)]
struct Exits(usize, usize, usize);
impl<'a> Visit<'a> for Exits {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Break(_) => self.0 += 1,
            Expr::Continue(_) => self.1 += 1,
            Expr::Return(_) => self.2 += 1,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        let (k, b) = match e {
            Expr::Loop(l) => ("loop", &l.body),
            Expr::While(l) => ("while", &l.body),
            Expr::ForLoop(l) => (if matches!(&*l.expr, Expr::Range(_)) { "range" } else { "for" }, &l.body),
            e => return visit::visit_expr(self, e),
        };
        let mut x = Exits::default();
        x.visit_block(b);
        self.0.push(format!("{k} break:{} continue:{} return:{}", x.0, x.1, x.2));
        visit::visit_expr(self, e);
    }
}

/// kind of each loop and how it is left
pub fn loop_shape(b: &Block) -> Vec<String> {
    let mut s = Shape(vec![]);
    s.visit_block(b);
    s.0
}

// ---------------------------------------------------------------- anchors for proof hints

struct NormArms;
impl VisitMut for NormArms {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if !matches!(&*a.body, Expr::Block(b) if b.label.is_none() && b.attrs.is_empty()) {
            let e = (*a.body).clone();
            let b: Expr = parse_quote!({ #e });
            *a.body = b;
        }
    }
}

#[derive(Default)]
struct Locate {
    nblock: usize,
    stack: Vec<(usize, usize)>,
    nloop: usize,
    calls: BTreeMap<String, Vec<(usize, usize)>>,
    loops: Vec<((usize, usize), usize)>,
}

impl<'a> Visit<'a> for Locate {
    fn visit_block(&mut self, b: &'a Block) {
        let n = self.nblock;
        self.nblock += 1;
        for (i, s) in b.stmts.iter().enumerate() {
            self.stack.push((n, i));
            self.visit_stmt(s);
            self.stack.pop();
        }
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        let here = self.stack.last().cloned().unwrap_or((0, 0));
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                // body block number: the next block visited inside; conditions contain no blocks here
                self.loops.push((here, usize::MAX));
                let li = self.loops.len() - 1;
                self.nloop += 1;
                match e {
                    Expr::Loop(l) => {
                        self.loops[li].1 = self.nblock;
                        self.visit_block(&l.body);
                    }
                    Expr::While(l) => {
                        self.visit_expr(&l.cond);
                        self.loops[li].1 = self.nblock;
                        self.visit_block(&l.body);
                    }
                    Expr::ForLoop(l) => {
                        self.visit_expr(&l.expr);
                        self.loops[li].1 = self.nblock;
                        self.visit_block(&l.body);
                    }
                    _ => {}
                }
                return;
            }
            _ => {}
        }
        if let Some(n) = call_name(e) {
            self.calls.entry(n).or_default().push(here);
        }
        visit::visit_expr(self, e);
    }
}

struct Insert {
    nblock: usize,
    before: BTreeMap<(usize, usize), Vec<Stmt>>,
    after: BTreeMap<(usize, usize), Vec<Stmt>>,
    bstart: BTreeMap<usize, Vec<Stmt>>,
    bend: BTreeMap<usize, Vec<Stmt>>,
}

fn is_unit_expr(e: &Expr) -> bool {
    match e {
        Expr::Assign(_) | Expr::While(_) | Expr::ForLoop(_) => true,
        Expr::Binary(b) => b.op.to_token_stream().to_string().ends_with('=')
            && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)),
        Expr::If(i) => i.else_branch.is_none(),
        _ => false,
    }
}

impl VisitMut for Insert {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.nblock;
        self.nblock += 1;
        let stmts = std::mem::take(&mut b.stmts);
        let len = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        out.extend(self.bstart.remove(&n).unwrap_or_default());
        let bend = self.bend.remove(&n).unwrap_or_default();
        for (i, mut s) in stmts.into_iter().enumerate() {
            self.visit_stmt_mut(&mut s);
            out.extend(self.before.remove(&(n, i)).unwrap_or_default());
            let mut aft = self.after.remove(&(n, i)).unwrap_or_default();
            let last = i + 1 == len;
            if last {
                aft.extend(bend.clone());
            }
            if aft.is_empty() {
                out.push(s);
                continue;
            }
            match s {
                Stmt::Expr(e, None) if last && is_unit_expr(&e) => {
                    out.push(Stmt::Expr(e, Some(Default::default())));
                    out.extend(aft);
                }
                Stmt::Expr(e, None) if last => {
                    out.push(parse_quote!(let __r = #e;));
                    out.extend(aft);
                    out.push(Stmt::Expr(parse_quote!(__r), None));
                }
                s => {
                    out.push(s);
                    out.extend(aft);
                }
            }
        }
        if len == 0 {
            out.extend(bend);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // same traversal order as `Locate`
        match e {
            Expr::While(l) => {
                self.visit_expr_mut(&mut l.cond);
                self.visit_block_mut(&mut l.body);
            }
            Expr::ForLoop(l) => {
                self.visit_expr_mut(&mut l.expr);
                self.visit_block_mut(&mut l.body);
            }
            Expr::Loop(l) => self.visit_block_mut(&mut l.body),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn anchors(b: &mut Block, sp: &FnSpec, texts: &mut Texts, lost: &mut Vec<String>) {
    if sp.at.is_empty() {
        return;
    }
    NormArms.visit_block_mut(b);
    let mut loc = Locate::default();
    loc.visit_block(b);
    let mut ins = Insert {
        nblock: 0,
        before: Default::default(),
        after: Default::default(),
        bstart: Default::default(),
        bend: Default::default(),
    };
    for (a, t) in &sp.at {
        let id = texts.add(t.clone());
        let st: Stmt = parse_quote!(#id;);
        let w: Vec<&str> = a.split_whitespace().collect();
        let ok = match &w[..] {
            ["start"] => {
                ins.bstart.entry(0).or_default().push(st);
                true
            }
            ["end"] => {
                ins.bend.entry(0).or_default().push(st);
                true
            }
            ["loop", k, p] => {
                let k: usize = k.parse().unwrap();
                match loc.loops.get(k) {
                    Some((_, blk)) => {
                        if *p == "start" {
                            ins.bstart.entry(*blk).or_default().push(st);
                        } else {
                            ins.bend.entry(*blk).or_default().push(st);
                        }
                        true
                    }
                    None => false,
                }
            }
            [p, "loop", k] => {
                let k: usize = k.parse().unwrap();
                match loc.loops.get(k) {
                    Some((at, _)) => {
                        let m = if *p == "before" { &mut ins.before } else { &mut ins.after };
                        m.entry(*at).or_default().push(st);
                        true
                    }
                    None => false,
                }
            }
            [p, "call", name, k] => {
                let k: usize = k.parse().unwrap();
                match loc.calls.get(*name).and_then(|v| v.get(k)) {
                    Some(at) => {
                        let m = if *p == "before" { &mut ins.before } else { &mut ins.after };
                        m.entry(*at).or_default().push(st);
                        true
                    }
                    None => false,
                }
            }
            _ => panic!("unknown anchor {}", a),
        };
        if !ok {
            lost.push(format!("anchor {}", a));
        }
    }
    ins.visit_block_mut(b);
}

// ---------------------------------------------------------------- rewriting

// ---------------------------------------------------------------- shared file handles

struct Toks(Vec<String>);
impl Toks {
    fn of(t: TokenStream) -> Vec<String> {
        fn go(t: TokenStream, o: &mut Vec<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                    proc_macro2::TokenTree::Ident(i) => o.push(i.to_string()),
                    _ => {}
                }
            }
        }
        let mut o = vec![];
        go(t, &mut o);
        o
    }
}

fn ctor_arg(e: &Expr, ty: &str) -> Option<Ident> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if path_str(&p.path).ends_with(&format!("{}::new", ty)) && c.args.len() == 1 {
                if let Expr::Path(a) = &c.args[0] {
                    return a.path.get_ident().cloned();
                }
            }
        }
    }
    None
}

/// `file: &File` with a `BufReader` and a `BufWriter` on top of it: the handle becomes an exclusive
/// one, and the reader is re-synchronised before every statement that uses it after the writer exists
pub fn file_model(sig: &mut Signature, b: &mut Block, lost: &mut Vec<String>) {
    let mut file = None;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Type::Reference(r) = &mut *t.ty {
                if r.elem.to_token_stream().to_string() == "File" && r.mutability.is_none() {
                    r.mutability = Some(Default::default());
                    if let Pat::Ident(i) = &*t.pat {
                        file = Some(i.ident.clone());
                    }
                }
            }
        }
    }
    let file = match file {
        Some(f) => f,
        None => return,
    };
    let (mut reader, mut writer): (Option<Ident>, Option<Ident>) = (None, None);
    let mut out = vec![];
    for mut s in std::mem::take(&mut b.stmts) {
        let mut handled = false;
        if let Stmt::Local(l) = &mut s {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &mut l.init) {
                let name = pi.ident.clone();
                if ctor_arg(&init.expr, "BufReader").as_ref() == Some(&file) {
                    if reader.is_some() || writer.is_some() {
                        lost.push("second reader over the file".into());
                    }
                    reader = Some(name.clone());
                    *init.expr = parse_quote!(crate::vp::io::BufReader::vp_over(&*#file));
                    handled = true;
                } else if ctor_arg(&init.expr, "BufWriter").as_ref() == Some(&file) {
                    if writer.is_some() {
                        lost.push("second writer over the file".into());
                    }
                    writer = Some(name.clone());
                    *init.expr = parse_quote!(crate::vp::io::BufWriter::vp_over(&mut *#file));
                    handled = true;
                } else if let (Expr::Reference(r), Some(rd)) = (&*init.expr, &reader) {
                    if r.mutability.is_some() && r.expr.to_token_stream().to_string() == rd.to_string() {
                        reader = Some(name.clone());
                    }
                }
            }
        }
        if !handled {
            if let (Some(r), Some(w)) = (&reader, &writer) {
                let t = Toks::of(s.to_token_stream());
                let (r_, w_) = (r.to_string(), w.to_string());
                if t.contains(&r_) {
                    if t.contains(&w_) || t.contains(&file.to_string()) {
                        lost.push("reader and writer used in one statement".into());
                    }
                    out.push(parse_quote!(crate::vp::io::vp_sync(&mut *#r, &mut #w);));
                }
            }
            if let Some(w) = &writer {
                struct L<'a>(&'a Ident, &'a Ident);
                impl VisitMut for L<'_> {
                    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                        visit_mut::visit_expr_method_call_mut(self, m);
                        if m.method == "set_len"
                            && m.receiver.to_token_stream().to_string() == self.0.to_string()
                        {
                            let w = self.1;
                            *m.receiver = parse_quote!(#w);
                            m.method = format_ident!("vp_set_len");
                        }
                    }
                }
                L(&file, w).visit_stmt_mut(&mut s);
            }
        }
        out.push(s);
    }
    b.stmts = out;
}

/// A function that opens files gets the disk as a ghost argument. A file opened for reading is a copy
/// of its content, one opened for writing is exclusive access to the content the disk holds.
pub fn disk_model(sig: &mut Signature, b: &mut Block) {
    struct D {
        used: bool,
        handles: Vec<Ident>,
    }
    fn opens(e: &Expr) -> bool {
        let mut v = CallNames(vec![]);
        v.visit_expr(e);
        v.0.iter().any(|n| n == "vp_open" || n == "vp_create")
    }
    struct CallNames(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for CallNames {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.0.push(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    use syn::visit::Visit;
    impl VisitMut for D {
        fn visit_local_mut(&mut self, l: &mut Local) {
            visit_mut::visit_local_mut(self, l);
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                if opens(&init.expr) {
                    self.handles.push(pi.ident.clone());
                }
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let new: Option<Expr> = match &*e {
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) if c.args.len() == 1 => {
                        let s = path_str(&p.path);
                        let a = &c.args[0];
                        if s == "File::open" || s.ends_with("fs::File::open") {
                            Some(parse_quote!(crate::vp::fs::vp_read(&*vp_disk, #a)))
                        } else if s == "File::create" || s.ends_with("fs::File::create") {
                            Some(parse_quote!(crate::vp::fs::vp_create(&mut *vp_disk, #a)))
                        } else {
                            None
                        }
                    }
                    _ => None,
                },
                Expr::MethodCall(m) if m.method == "open" && m.args.len() == 1 => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    if r.to_token_stream().to_string().contains("OpenOptions") {
                        Some(parse_quote!(#r.vp_open(&mut *vp_disk, #a)))
                    } else {
                        None
                    }
                }
                Expr::Reference(r) => match &*r.expr {
                    Expr::Path(p) if p.path.get_ident().map(|i| self.handles.contains(i)).unwrap_or(false) => {
                        Some(parse_quote!(&mut *#p))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = new {
                self.used |= n.to_token_stream().to_string().contains("vp_disk");
                *e = n;
            }
        }
    }
    let mut d = D { used: false, handles: vec![] };
    d.visit_block_mut(b);
    if d.used {
        sig.inputs.push(parse_quote!(vp_disk: &mut crate::vp::fs::Disk));
    }
}

/// `format_args!("lit {0} {1:?}", a, b)` piece by piece
fn format_pieces(t: &TokenStream) -> Option<Expr> {
    use syn::parse::Parser;
    let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()).ok()?;
    let mut args = args.into_iter();
    let fs = match args.next()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let args: Vec<Expr> = args.collect();
    let mut e: Expr = parse_quote!(crate::vp::fmt::Arguments::vp_new());
    let mut lit = String::new();
    let cs: Vec<char> = fs.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 1;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 1;
            }
            '{' => {
                if !lit.is_empty() {
                    e = parse_quote!(#e.vp_lit(#lit));
                    lit.clear();
                }
                let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let ph: String = cs[i + 1..j].iter().collect();
                let (n, f) = match ph.split_once(':') {
                    Some((n, f)) => (n, f),
                    None => (ph.as_str(), ""),
                };
                let a = args.get(n.parse::<usize>().ok()?)?;
                e = match f {
                    "" => parse_quote!(#e.vp_show(&(#a))),
                    "?" => parse_quote!(#e.vp_debug(&(#a))),
                    "02" => parse_quote!(#e.vp_two(&(#a))),
                    _ => return None,
                };
                i = j;
            }
            c => lit.push(c),
        }
        i += 1;
    }
    if !lit.is_empty() {
        e = parse_quote!(#e.vp_lit(#lit));
    }
    Some(e)
}

/// functions declared inside a function body
pub fn nested_fns(b: &mut Block) -> Vec<ItemFn> {
    let mut o = vec![];
    let mut v = vec![];
    for s in std::mem::take(&mut b.stmts) {
        match s {
            Stmt::Item(Item::Fn(f)) => o.push(f),
            s => v.push(s),
        }
    }
    b.stmts = v;
    o
}

pub struct Rewriter<'t> {
    texts: &'t mut Texts,
    sp: FnSpec,
    pub nloops: usize,
    pub nclosures: usize,
    fresh: usize,
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

struct BreakValue(Ident);
impl VisitMut for BreakValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {}
            Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                let v = b.expr.take().unwrap();
                let x = &self.0;
                *e = parse_quote!({ #x = #v; break; });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct HasBreakValue(bool);
impl<'a> Visit<'a> for HasBreakValue {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Closure(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {}
            Expr::Break(b) if b.expr.is_some() => self.0 = true,
            _ => visit::visit_expr(self, e),
        }
    }
}

struct Subst(BTreeMap<String, Expr>);
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(r) = self.0.get(&i.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn byte_array(b: &[u8]) -> Expr {
    let v = b.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x));
    parse_quote!([ #(#v),* ])
}

impl<'t> Rewriter<'t> {
    pub fn new(texts: &'t mut Texts, sp: FnSpec) -> Self {
        Rewriter { texts, sp, nloops: 0, nclosures: 0, fresh: 0 }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        let n = self.fresh;
        self.fresh += 1;
        format_ident!("__vp_{}{}", p, n)
    }

    fn ph(&mut self, t: Option<String>) -> TokenStream {
        match t {
            Some(t) => {
                let id = self.texts.add(t);
                quote!(#id)
            }
            None => quote!(),
        }
    }
}

/// `a.b.c` / `self.x` / `v`
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(f) => is_place(&f.expr),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

impl VisitMut for Rewriter<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s = path_str(p);
        if let Some(n) = map_std(&s) {
            let last = p.segments.last().unwrap().arguments.clone();
            let mut np: Path = parse_str(&n).unwrap();
            np.segments.last_mut().unwrap().arguments = last;
            *p = np;
        }
    }

    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            let last = t.path.segments.last_mut().unwrap();
            if last.ident == "AsRef" && last.arguments.to_token_stream().to_string() == "< Path >" {
                t.path = parse_quote!(crate::vp::path::Named);
            } else if last.ident == "Into" {
                let a = last.arguments.clone();
                let mut np: Path = parse_quote!(crate::vp::VpInto);
                np.segments.last_mut().unwrap().arguments = a;
                t.path = np;
            }
        }
        visit_mut::visit_type_param_bound_mut(self, b);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let last = tb.path.segments.last().unwrap();
                    if last.ident == "Iterator" || last.ident == "IntoIterator" {
                        if let PathArguments::AngleBracketed(a) = &last.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(at) = g {
                                    let mut item = at.ty.clone();
                                    self.visit_type_mut(&mut item);
                                    *t = parse_quote!(crate::vp::MIt<#item>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // function local constants and imports
        let mut consts = BTreeMap::new();
        let mut stmts = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(c)) => {
                    let mut e = (*c.expr).clone();
                    self.visit_expr_mut(&mut e);
                    consts.insert(c.ident.to_string(), e);
                }
                Stmt::Item(Item::Use(u)) => {
                    let s = u.to_token_stream().to_string();
                    if !s.contains("std :: ") {
                        stmts.push(Stmt::Item(Item::Use(u)));
                    }
                }
                // break with value
                Stmt::Local(mut l) => {
                    let mut done = false;
                    if let (Some(i), Pat::Ident(pi)) = (&mut l.init, &l.pat) {
                        if let Expr::Loop(lp) = &mut *i.expr {
                            let mut h = HasBreakValue(false);
                            h.visit_block(&lp.body);
                            if h.0 {
                                let x = pi.ident.clone();
                                BreakValue(x.clone()).visit_block_mut(&mut lp.body);
                                stmts.push(parse_quote!(let #x;));
                                stmts.push(Stmt::Expr((*i.expr).clone(), None));
                                done = true;
                            }
                        }
                    }
                    if !done {
                        // slice patterns
                        if let (Some(i), Pat::Slice(ps)) = (&l.init, &l.pat) {
                            let e = &i.expr;
                            let t = self.fresh("sp");
                            stmts.push(parse_quote!(let #t = #e;));
                            for (n, p) in ps.elems.iter().enumerate() {
                                stmts.push(parse_quote!(let #p = #t[#n];));
                            }
                            done = true;
                        }
                    }
                    if !done {
                        stmts.push(Stmt::Local(l));
                    }
                }
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        if !consts.is_empty() {
            Subst(consts).visit_block_mut(b);
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // whole-expression patterns that must be seen before their parts are rewritten
        match e {
            Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "format_args" => {
                if let Some(mut x) = format_pieces(&m.mac.tokens) {
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &*u.expr {
                    *e = byte_array(&b.value());
                    return;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    if s.ends_with("box_assume_init_into_vec_unsafe") {
                        if let Some(Expr::Call(inner)) = c.args.first() {
                            if let Some(arr) = inner.args.iter().nth(1) {
                                let mut arr = arr.clone();
                                self.visit_expr_mut(&mut arr);
                                *e = Expr::Verbatim(quote::quote!(crate::vp::vec_of(#arr)));
                                return;
                            }
                        }
                    }
                    if s.ends_with("__export::must_use") {
                        *e = parse_quote!(crate::vp::fmt_string());
                        return;
                    }
                    if s.contains("panicking::") {
                        *e = parse_quote!(crate::vp::vp_unreachable());
                        return;
                    }
                    if s.ends_with("mem::size_of") {
                        if let PathArguments::AngleBracketed(a) =
                            &p.path.segments.last().unwrap().arguments
                        {
                            let t = a.args.to_token_stream().to_string();
                            let n: Option<usize> = match t.as_str() {
                                "u8" | "i8" => Some(1),
                                "u16" | "i16" => Some(2),
                                "u32" | "i32" => Some(4),
                                "u64" | "i64" => Some(8),
                                _ => None,
                            };
                            if let Some(n) = n {
                                *e = parse_quote!(#n);
                                return;
                            }
                        }
                    }
                    if let Some(n) = ["to_be_bytes", "from_be_bytes", "to_le_bytes", "from_le_bytes"]
                        .iter()
                        .find(|x| s == **x || s.ends_with(&format!("::{}", x)))
                    {
                        let t = match &p.qself {
                            Some(q) => q.ty.to_token_stream().to_string(),
                            None => s.split("::").next().unwrap().to_string(),
                        };
                        if ["u16", "u32", "u64"].contains(&t.as_str()) {
                            let f = format_ident!("{}_{}", t, n);
                            c.func = Box::new(parse_quote!(crate::vp::#f));
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    if let Some(q) = &p.qself {
                        if let Type::Array(a) = &*q.ty {
                            if s == "try_from" || s.ends_with("TryFrom::try_from") {
                                let mut n = a.len.clone();
                                self.visit_expr_mut(&mut n);
                                let mut x = c.args.first().unwrap().clone();
                                self.visit_expr_mut(&mut x);
                                *e = Expr::Verbatim(quote::quote!(crate::vp::arr_try_from::<{#n}>(#x)));
                                return;
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "read_to_end" => {
                if let Expr::MethodCall(t) = &*m.receiver {
                    if t.method == "take" {
                        if let Expr::MethodCall(r) = &*t.receiver {
                            if r.method == "by_ref" {
                                let mut x = (*r.receiver).clone();
                                let mut n = t.args.first().unwrap().clone();
                                let mut b = m.args.first().unwrap().clone();
                                self.visit_expr_mut(&mut x);
                                self.visit_expr_mut(&mut n);
                                self.visit_expr_mut(&mut b);
                                *e = parse_quote!(#x.vp_take_read_to_end(#n, #b));
                                return;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Expr::Path(p) = e {
            if path_str(&p.path) == "str::to_owned" {
                *e = parse_quote!(crate::vp::str_to_owned);
                return;
            }
            if p.path.segments.len() == 2 && p.path.segments[1].ident == "into" {
                *e = parse_quote!(crate::vp::VpInto::vp_into);
                return;
            }
        }
        let my_loop = match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.nloops += 1;
                Some(self.nloops - 1)
            }
            _ => None,
        };
        let my_closure = match e {
            Expr::Closure(_) => {
                self.nclosures += 1;
                Some(self.nclosures - 1)
            }
            _ => None,
        };
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Array(a) if (1..=8).contains(&a.elems.len()) => {
                let f = quote::format_ident!("arr{}", a.elems.len());
                let v = &a.elems;
                *e = Expr::Verbatim(quote::quote!(crate::vp::#f(#v)));
            }
            Expr::Repeat(r) => {
                let (v, n) = (&r.expr, &r.len);
                *e = Expr::Verbatim(quote::quote!(crate::vp::arr_rep::<_, { #n }>(#v)));
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // E.iter_mut().find(c)
                if n == "find" {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if r.method == "m_iter_mut" && is_place(&r.receiver) {
                            let x = &r.receiver;
                            let c = m.args.first().unwrap();
                            *e = Expr::Verbatim(quote::quote!(crate::vp::vec_find_mut(&mut #x, #c)));
                            return;
                        }
                    }
                }
                if n == "next" && !is_place(&m.receiver) {
                    m.method = format_ident!("m_first");
                    return;
                }
                let r = match n.as_str() {
                    "iter" => "m_iter",
                    "iter_mut" => "m_iter_mut",
                    "into_iter" => "m_into_iter",
                    "into" => "vp_into",
                    "encode_utf16" => "m_encode_utf16",
                    "chunks_exact" => "m_chunks_exact",
                    "extend" => "m_extend",
                    "retain" => "m_retain",
                    "map_or" => "m_map_or",
                    "or" => "m_or",
                    "to_vec" => "m_to_vec",
                    "to_be_bytes" => "m_to_be_bytes",
                    "to_le_bytes" => "m_to_le_bytes",
                    _ => "",
                };
                if !r.is_empty() {
                    m.method = format_ident!("{}", r);
                }
                if n == "collect" {
                    if m.turbofish.as_ref().map_or(false, |t| t.args.to_token_stream().to_string() == "String") {
                        m.method = format_ident!("collect_string");
                    }
                    m.turbofish = None;
                }
            }
            Expr::While(w) => {
                let ph = self.ph(self.sp.loops.get(&my_loop.unwrap()).cloned());
                let (c, b) = (&w.cond, &w.body);
                *e = Expr::Verbatim(quote!(while #c #ph #b));
            }
            Expr::Loop(w) => {
                let ph = self.ph(self.sp.loops.get(&my_loop.unwrap()).cloned());
                let b = &w.body;
                *e = Expr::Verbatim(quote!(loop #ph #b));
            }
            Expr::ForLoop(w) => {
                let k = my_loop.unwrap();
                let user = self.sp.loops.get(&k).cloned();
                let (p, x, b) = ((*w.pat).clone(), (*w.expr).clone(), w.body.clone());
                if let Expr::Range(_) = &x {
                    let ph = self.ph(user);
                    let p = match p {
                        Pat::Wild(_) => {
                            let i = format_ident!("__i{}", k);
                            quote!(#i)
                        }
                        p => quote!(#p),
                    };
                    *e = Expr::Verbatim(quote!(for #p in #x #ph #b));
                } else {
                    let it = format_ident!("__it{}", k);
                    let pre = self.ph(Some(format!(
                        "let ghost __all{k} = __it{k}@; let ghost mut __k{k}: int = 0;"
                    )));
                    let inv = self.ph(Some(format!(
                        "invariant_except_break\n 0 <= __k{k} <= __all{k}.len(), __it{k}@ =~= __all{k}.skip(__k{k}),\n{}\n",
                        {
                            let u = user.unwrap_or_default();
                            let d = if u.contains("decreases") { String::new() } else {
                                format!("ensures __k{k} == __all{k}.len() decreases __all{k}.len() - __k{k}")
                            };
                            format!("{u}\n{d}")
                        }
                    )));
                    let step = self.ph(Some(format!("proof {{ __k{k} = __k{k} + 1; }}")));
                    let ss = &b.stmts;
                    *e = Expr::Verbatim(quote!({
                        let mut #it = #x.m_into_iter();
                        #pre
                        loop #inv {
                            match #it.next() {
                                Some(__x) => { let #p = __x; #step #(#ss)* }
                                None => { break; }
                            }
                        }
                    }));
                }
            }
            Expr::Closure(c) => {
                let k = my_closure.unwrap();
                let mut pre: Vec<TokenStream> = vec![];
                let mut ins: Vec<TokenStream> = vec![];
                for p in &c.inputs {
                    match p {
                        Pat::Ident(_) | Pat::Wild(_) => ins.push(p.to_token_stream()),
                        Pat::Type(pt) if matches!(&*pt.pat, Pat::Ident(_)) => {
                            ins.push(p.to_token_stream())
                        }
                        p => {
                            let t = self.fresh("c");
                            match p {
                                Pat::Reference(r) => {
                                    let q = &r.pat;
                                    pre.push(quote!(let #q = *#t;));
                                }
                                p => pre.push(quote!(let #p = #t;)),
                            }
                            ins.push(quote!(#t));
                        }
                    }
                }
                let body = &c.body;
                let mv = &c.capture;
                match self.sp.closures.get(&k).cloned() {
                    Some((sig, t)) => {
                        // sig: `t1, t2 -> (r: T)`
                        let (tys, ret) = sig.split_once("->").unwrap_or((&sig, ""));
                        let tys: Vec<TokenStream> = split_top(tys)
                            .into_iter()
                            .map(|s| s.parse().unwrap())
                            .collect();
                        let typed = ins.iter().enumerate().map(|(i, n)| match tys.get(i) {
                            Some(t) if !n.to_string().contains(':') => quote!(#n : #t),
                            _ => n.clone(),
                        });
                        let ret: TokenStream = ret.parse().unwrap();
                        let mut t = t;
                        for (i, n) in ins.iter().enumerate() {
                            let n = n.to_string();
                            let n = n.split(':').next().unwrap().trim();
                            let n = n.rsplit(' ').next().unwrap();
                            t = t.replace(&format!("__c{}", i), n);
                        }
                        let ph = self.ph(Some(t));
                        *e = Expr::Verbatim(
                            quote!(#mv |#(#typed),*| -> #ret #ph { #(#pre)* #body }),
                        );
                    }
                    None => {
                        if !pre.is_empty() {
                            *e = Expr::Verbatim(quote!(#mv |#(#ins),*| { #(#pre)* #body }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn split_top(s: &str) -> Vec<String> {
    let mut d = 0;
    let mut v = vec![String::new()];
    for c in s.chars() {
        match c {
            '(' | '<' | '[' => d += 1,
            ')' | '>' | ']' => d -= 1,
            ',' if d == 0 => {
                v.push(String::new());
                continue;
            }
            _ => {}
        }
        v.last_mut().unwrap().push(c);
    }
    v.into_iter().filter(|x| !x.trim().is_empty()).collect()
}
