//! The mechanical rewrites applied to extracted function bodies:
//!   D1 let chains (`if let A = x && c`) -> nested `if`s (else branch duplicated)
//!   D2 iterator chains with a recognised source / adapters / terminal -> `while` loops
//!   D3 `Option` closures (`is_some_and`, `map_or`, `map` ...) -> `match`
//!   D4 loop numbering + insertion of the contract text from the side-car file
use crate::{FnSpec, Lost};
use quote::{ToTokens, format_ident};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Pat, Stmt, parse_quote};

pub struct Desugar<'a> {
    fs: &'a FnSpec,
    k: usize,
    pub nloops: usize,
    pub pending_before: Vec<(String, usize, String)>,
    err: Option<String>,
    depth: usize,
}

enum Src {
    Slice(Expr),
    Chars(Expr),
    Range(Expr, Expr, bool),
    Owned(Expr),
}
enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    TakeWhile(Expr),
    MapWhile(Expr),
    SkipWhile(Expr),
    Enumerate,
    Copied,
    Flatten,
    Cloned,
    Rev,
    Skip(Expr),
    Take(Expr),
    Zip(Expr),
}

pub fn text_for(fs: &FnSpec, key: &str) -> Option<String> {
    let mut w = key.split_whitespace();
    match w.next()? {
        "inv" => fs.loops.get(&w.next()?.parse().ok()?).cloned(),
        "at" => {
            let n = w.next()?.parse().ok()?;
            fs.at.get(&(n, w.next()?.to_string())).cloned()
        }
        "entry" => Some(fs.entry.clone()),
        "exit" => Some(fs.exit.clone()),
        "before" => {
            let i: usize = w.next()?.parse().ok()?;
            Some(fs.before[i].2.clone())
        }
        _ => None,
    }
}

fn norm(s: &str) -> String {
    s.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_else(|_| s.to_string())
}

fn mk(s: String) -> Stmt {
    parse_quote!(__vx!(#s);)
}

fn strip_paren(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e.clone(),
    }
}

fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Paren(p) => is_simple(&p.expr),
        _ => false,
    }
}

/// `let`-bind a pattern; `&p` patterns become a deref of the value.
fn bind(p: &Pat, e: Expr) -> Vec<Stmt> {
    match (p, &e) {
        (Pat::Tuple(t), Expr::Tuple(v)) if t.elems.len() == v.elems.len() => {
            t.elems.iter().zip(v.elems.iter()).flat_map(|(p, e)| bind(p, e.clone())).collect()
        }
        (Pat::Reference(r), _) => bind(&r.pat, parse_quote!(*#e)),
        (Pat::Wild(_), _) => vec![],
        (Pat::Paren(q), _) => bind(&q.pat, e),
        (Pat::Type(t), _) => bind(&t.pat, e),
        (Pat::Tuple(t), _) => {
            // split nested reference patterns
            let parent = e.to_token_stream().to_string();
            let prefix = if parent.starts_with("__t") { format!("{parent}_") } else { "__t".to_string() };
            let ids: Vec<_> = (0..t.elems.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
            let mut out: Vec<Stmt> = vec![parse_quote!(let (#(#ids),*) = #e;)];
            for (p, id) in t.elems.iter().zip(&ids) {
                out.extend(bind(p, parse_quote!(#id)));
            }
            out
        }
        _ => vec![parse_quote!(let #p = #e;)],
    }
}

fn apply(f: &Expr, arg: Expr) -> Expr {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            // a closure that returns early cannot be inlined: the name is unknown to the verifier
            let body = unreturn(&c.body);
            if early(&body) {
                return parse_quote!(__closure_returns_early());
            }
            let b = bind(&c.inputs[0], arg);
            parse_quote!({ #(#b)* #body })
        }
        _ => parse_quote!(#f(#arg)),
    }
}

/// `{ if c { return x; } rest }` is `if c { x } else { rest }`
fn unreturn(e: &Expr) -> Expr {
    if let Expr::Block(b) = e
        && let Some(Stmt::Expr(Expr::If(i), _)) = b.block.stmts.first()
        && i.else_branch.is_none()
        && !early(&i.cond)
        && let [Stmt::Expr(Expr::Return(r), _)] = &i.then_branch.stmts[..]
        && let Some(x) = &r.expr
        && b.block.stmts.len() > 1
    {
        let (c, rest) = (&i.cond, &b.block.stmts[1..]);
        let rest = unreturn(&parse_quote!({ #(#rest)* }));
        return parse_quote!(if #c { #x } else { #rest });
    }
    e.clone()
}

/// whether an expression returns from the closure it is the body of
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
}

fn early(e: &Expr) -> bool {
    let mut l = Leaves(false);
    l.visit_expr(e);
    l.0
}

/// `option?` in the closure of a `filter_map` skips the item
struct Skip;
impl VisitMut for Skip {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!((match #x { Some(__v) => __v, None => continue }));
        }
    }
}

fn is_fn(e: &Expr) -> bool {
    matches!(e, Expr::Closure(_) | Expr::Path(_))
}

fn chain(e: &Expr, ads: &mut Vec<Ad>, fs: &FnSpec) -> Option<Src> {
    // `vecsrc=EXPR`: a (stand-in) expression that yields a vector
    let key = format!("vecsrc={}", e.to_token_stream().to_string().replace(' ', ""));
    if fs.opts.contains(&key) {
        return Some(Src::Owned(e.clone()));
    }
    match e {
        Expr::Paren(p) => chain(&p.expr, ads, fs),
        Expr::Range(r) => {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
            Some(Src::Range((**a).clone(), (**b).clone(), matches!(r.limits, syn::RangeLimits::Closed(_))))
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) => {
                    let key = format!("noiter={}", m.receiver.to_token_stream().to_string().replace(' ', ""));
                    if fs.opts.contains(&key) {
                        return None;
                    }
                    Some(Src::Slice((*m.receiver).clone()))
                }
                ("chars", 0) => Some(Src::Chars((*m.receiver).clone())),
                ("into_iter", 0) => {
                    if let Some(s) = chain(&m.receiver, &mut vec![], fs)
                        && matches!(s, Src::Range(..))
                    {
                        return chain(&m.receiver, ads, fs);
                    }
                    if fs.opts.iter().any(|o| o == "owned_iter") {
                        return Some(Src::Owned((*m.receiver).clone()));
                    }
                    None
                }
                (_, k) => {
                    let s = chain(&m.receiver, ads, fs)?;
                    let a = match (n.as_str(), k) {
                        ("map", 1) if is_fn(&m.args[0]) => Ad::Map(m.args[0].clone()),
                        ("filter", 1) => Ad::Filter(m.args[0].clone()),
                        ("filter_map", 1) => Ad::FilterMap(m.args[0].clone()),
                        // a flat_map whose closure yields an Option
                        ("flat_map", 1) if fs.opts.iter().any(|o| o == "flatopt") => Ad::FilterMap(m.args[0].clone()),
                        // a flat_map whose closure yields a vector
                        ("flat_map", 1) if fs.opts.iter().any(|o| o == "flatvec") => {
                            ads.push(Ad::Map(m.args[0].clone()));
                            Ad::Flatten
                        }
                        ("take_while", 1) => Ad::TakeWhile(m.args[0].clone()),
                        ("map_while", 1) => Ad::MapWhile(m.args[0].clone()),
                        ("skip_while", 1) => Ad::SkipWhile(m.args[0].clone()),
                        ("enumerate", 0) => Ad::Enumerate,
                        ("copied", 0) => Ad::Copied,
                        ("flatten", 0) => Ad::Flatten,
                        ("cloned", 0) => Ad::Cloned,
                        ("rev", 0) => Ad::Rev,
                        ("skip", 1) => Ad::Skip(m.args[0].clone()),
                        ("take", 1) => Ad::Take(m.args[0].clone()),
                        ("zip", 1) => Ad::Zip(m.args[0].clone()),
                        _ => return None,
                    };
                    ads.push(a);
                    Some(s)
                }
            }
        }
        _ => None,
    }
}

impl<'a> Desugar<'a> {
    pub fn new(fs: &'a FnSpec) -> Self {
        Desugar { fs, k: 0, nloops: 0, pending_before: vec![], err: None, depth: 0 }
    }

    pub fn run(&mut self, b: &mut Block) -> Result<(), Lost> {
        for name in self.fs.opts.iter().filter_map(|o| o.strip_prefix("inline=")) {
            let mut il = Inline { name: name.to_string(), clo: None };
            il.visit_block_mut(b);
            if il.clo.is_none() {
                return Err(Lost(format!("closure {name} not found")));
            }
        }
        // `r.map(|x| body)?` as the value of the function: leaving the body early leaves the function with the same value
        if self.fs.opts.iter().any(|o| o == "tailmap")
            && let Some(Stmt::Expr(e, None)) = b.stmts.last_mut()
            && let Expr::Try(t) = e
            && let Expr::MethodCall(m) = &*t.expr
            && m.method == "map"
            && let Some(Expr::Closure(c)) = m.args.first()
            && c.inputs.len() == 1
        {
            let (r, v) = (&m.receiver, bind(&c.inputs[0], parse_quote!(__o)));
            let body = &c.body;
            *e = parse_quote!((match #r { Ok(__o) => { #(#v)* #body } Err(__k) => Err(__k) }));
        }
        OrGuard.visit_block_mut(b);
        if !self.fs.opts.iter().any(|o| o == "nodesugar") {
            self.visit_block_mut(b);
        }
        if let Some(e) = self.err.take() {
            return Err(Lost(e));
        }
        let mut n = Number { n: 0 };
        n.visit_block_mut(b);
        self.nloops = n.n;
        let mut bf = Before { fs: self.fs, hit: vec![0; self.fs.before.len()] };
        bf.visit_block_mut(b);
        self.pending_before =
            self.fs.before.iter().zip(&bf.hit).filter(|(x, h)| **h <= x.1).map(|(b, _)| b.clone()).collect();
        if !self.fs.entry.is_empty() {
            b.stmts.insert(0, mk("entry".into()));
        }
        if !self.fs.exit.is_empty() {
            // `exitlast`: a function without result ends in an expression statement; the exit block goes behind it
            if self.fs.opts.iter().any(|o| o == "exitlast") {
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            // `exitret`: the value of the body is named `__ret` in the exit block
            if self.fs.opts.iter().any(|o| o == "exitret") {
                if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                    let Some(Stmt::Expr(e, None)) = b.stmts.pop() else { unreachable!() };
                    b.stmts.push(parse_quote!(let __ret = #e;));
                    b.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                }
            }
            let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
            let at = b.stmts.len() - tail as usize;
            b.stmts.insert(at, mk("exit".into()));
        }
        Ok(())
    }

    /// build `while` loop for a chain; `body` gets the current item expression
    fn build(
        &mut self,
        src: Src,
        ads: Vec<Ad>,
        label: Option<syn::Label>,
        prelude: Vec<Stmt>,
        body: impl FnOnce(Expr, usize) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        let k = self.k;
        self.k += 1;
        let i = format_ident!("__i{}", k);
        let s = format_ident!("__s{}", k);
        let x = format_ident!("__x{}", k);
        let e = format_ident!("__e{}", k);
        let z = format_ident!("__z{}", k);
        let n = format_ident!("__n{}", k);
        let mut pre: Vec<Stmt> = prelude;
        let mut inner: Vec<Stmt> = vec![];
        let mut ads = std::collections::VecDeque::from(ads);
        // leading adapters that change the index range
        let mut rev = false;
        let mut lo: Expr = parse_quote!(0);
        let (elem, len): (Expr, Expr) = match &src {
            Src::Slice(r) if is_simple(r) => (parse_quote!(&#r[#i]), parse_quote!(#r.len())),
            Src::Slice(r) => {
                let r = strip_paren(r);
                if matches!(&r, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) {
                    pre.push(parse_quote!(let #s = &#r;));
                } else {
                    pre.push(parse_quote!(let #s = #r;));
                }
                (parse_quote!(&#s[#i]), parse_quote!(#s.len()))
            }
            Src::Chars(r) => {
                pre.push(parse_quote!(let #s: Vec<char> = str_chars(&#r);));
                (parse_quote!(#s[#i]), parse_quote!(#s.len()))
            }
            Src::Owned(r) => {
                pre.push(parse_quote!(let #s = #r;));
                (parse_quote!(vec_take(&#s, #i)), parse_quote!(#s.len()))
            }
            Src::Range(a, b, incl) => {
                lo = a.clone();
                if *incl {
                    pre.push(parse_quote!(let #s: usize = range_end_inclusive(#b);));
                } else {
                    pre.push(parse_quote!(let #s: usize = #b;));
                }
                (parse_quote!(#i), parse_quote!(#s))
            }
        };
        let mut hi: Option<Expr> = None;
        let mut enumerated = false;
        loop {
            match ads.front() {
                // an index handed out before any skip/take/rev is the absolute one
                Some(Ad::Enumerate)
                    if !enumerated
                        && !rev
                        && hi.is_none()
                        && lo == parse_quote!(0)
                        && matches!(src, Src::Slice(_) | Src::Chars(_))
                        && matches!(ads.get(1), Some(Ad::Skip(_) | Ad::Take(_))) =>
                {
                    enumerated = true;
                    ads.pop_front();
                }
                Some(Ad::Skip(m)) if !rev && hi.is_some() && lo == parse_quote!(0) => {
                    let h = hi.clone().unwrap();
                    lo = parse_quote!(usize_min(#m, #h));
                    ads.pop_front();
                }
                Some(Ad::Rev) if hi.is_none() => {
                    rev = !rev;
                    ads.pop_front();
                }
                Some(Ad::Skip(m)) if !rev && hi.is_none() && matches!(src, Src::Slice(_) | Src::Chars(_)) => {
                    lo = parse_quote!(usize_min(#m, #len));
                    ads.pop_front();
                }
                Some(Ad::Take(m)) if !rev && hi.is_none() => {
                    let m = m.clone();
                    pre.push(parse_quote!(let #n: usize = usize_min_add(#lo, #m, #len);));
                    hi = Some(parse_quote!(#n));
                    ads.pop_front();
                }
                _ => break,
            }
        }
        let limit: Expr = hi.unwrap_or(len.clone());
        if rev {
            pre.push(parse_quote!(let mut #i: usize = #limit;));
            inner.push(parse_quote!(#i = #i - 1;));
            inner.push(parse_quote!(let #x = #elem;));
        } else {
            pre.push(parse_quote!(let mut #i: usize = #lo;));
            inner.push(parse_quote!(let #x = #elem;));
            inner.push(parse_quote!(#i = #i + 1;));
        }
        let mut cur: Expr = if enumerated { parse_quote!((#i - 1, #x)) } else { parse_quote!(#x) };
        let mut first = true;
        let plain = !rev;
        let nolo = lo == parse_quote!(0);
        for a in ads {
            match a {
                Ad::Map(f) => {
                    let v = apply(&f, cur);
                    inner.push(parse_quote!(let #x = #v;));
                    cur = parse_quote!(#x);
                }
                Ad::Filter(f) => {
                    inner.push(parse_quote!(let #x = #cur;));
                    let c = apply(&f, parse_quote!(&#x));
                    inner.push(parse_quote!(if !(#c) { continue; }));
                    cur = parse_quote!(#x);
                }
                Ad::FilterMap(mut f) => {
                    if let Expr::Closure(c) = &mut f {
                        Skip.visit_expr_mut(&mut c.body);
                    }
                    let v = apply(&f, cur);
                    inner.push(parse_quote!(let #x = match #v { Some(__v) => __v, None => continue };));
                    cur = parse_quote!(#x);
                }
                Ad::MapWhile(f) => {
                    let v = apply(&f, cur);
                    inner.push(parse_quote!(let #x = match #v { Some(__v) => __v, None => break };));
                    cur = parse_quote!(#x);
                }
                Ad::TakeWhile(f) => {
                    inner.push(parse_quote!(let #x = #cur;));
                    let c = apply(&f, parse_quote!(&#x));
                    inner.push(parse_quote!(if !(#c) { break; }));
                    cur = parse_quote!(#x);
                }
                Ad::SkipWhile(f) => {
                    pre.push(parse_quote!(let mut #z = true;));
                    inner.push(parse_quote!(let #x = #cur;));
                    let c = apply(&f, parse_quote!(&#x));
                    inner.push(parse_quote!(if #z && #c { continue; }));
                    inner.push(parse_quote!(#z = false;));
                    cur = parse_quote!(#x);
                }
                Ad::Enumerate => {
                    if first && plain && nolo {
                        cur = parse_quote!((#i - 1, #cur));
                    } else {
                        pre.push(parse_quote!(let mut #e: usize = 0;));
                        inner.push(parse_quote!(let #x = (#e, #cur);));
                        inner.push(parse_quote!(#e = #e + 1;));
                        cur = parse_quote!(#x);
                    }
                }
                Ad::Copied => cur = parse_quote!(*#cur),
                Ad::Cloned => cur = parse_quote!(#cur.clone()),
                Ad::Zip(o) => {
                    let o = strip_paren(&o);
                    let (o, by): (Expr, bool) = match &o {
                        Expr::MethodCall(m) if m.method == "iter" => ((*m.receiver).clone(), true),
                        Expr::Reference(r) => ((*r.expr).clone(), true),
                        _ => (o.clone(), true),
                    };
                    let _ = by;
                    inner.insert(0, parse_quote!(if #i >= #o.len() { break; }));
                    cur = parse_quote!((#cur, &#o[#i - 1]));
                }
                Ad::Rev | Ad::Skip(_) | Ad::Take(_) | Ad::Flatten => {
                    self.err = Some("unsupported iterator adapter order".into());
                }
            }
            first = false;
        }
        inner.extend(body(cur, k));
        let cond: Expr = if rev {
            if lo == parse_quote!(0) { parse_quote!(#i > 0) } else { parse_quote!(#i > #lo) }
        } else {
            parse_quote!(#i < #limit)
        };
        let w: Expr = parse_quote!(#label while #cond { #(#inner)* });
        pre.push(Stmt::Expr(w, None));
        pre
    }

    fn terminal(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let mut ads = vec![];
        let acc = format_ident!("__acc{}", self.k);
        match (n.as_str(), m.args.len()) {
            ("any", 1) | ("all", 1) | ("position", 1) | ("find", 1) | ("count", 0) | ("collect", 0) | ("find_map", 1)
            | ("sum", 0) | ("for_each", 1) => {}
            ("partition", 1) | ("max_by_key", 1) | ("fold", 2) => {}
            ("retain", 1) if self.fs.opts.iter().any(|o| o == "retain") => {
                let r = (*m.receiver).clone();
                let f = m.args[0].clone();
                let k = self.k;
                let i = format_ident!("__i{}", k);
                let st = self.build(
                    Src::Slice(r.clone()),
                    vec![],
                    None,
                    vec![parse_quote!(let mut #acc = Vec::new();)],
                    |c, _| {
                        let t = apply(&f, c);
                        vec![parse_quote!(if #t { #acc.push(vec_take(&#r, #i - 1)); })]
                    },
                );
                return Some(parse_quote!({ #(#st)* #r = #acc; }));
            }
            ("extend", 1) => {
                let r = &m.receiver;
                let Some(src) = chain(&m.args[0], &mut ads, self.fs) else {
                    if self.fs.opts.iter().any(|o| o == "vecextend") {
                        let a = &m.args[0];
                        return Some(parse_quote!(vec_extend(&mut #r, #a)));
                    }
                    return None;
                };
                let st = self.build(src, ads, None, vec![], |c, _| vec![parse_quote!(#r.push(#c);)]);
                return Some(parse_quote!({ #(#st)* }));
            }
            _ => return None,
        }
        let src = chain(&m.receiver, &mut ads, self.fs)?;
        if n == "count" && ads.is_empty() {
            return Some(match src {
                Src::Slice(r) => parse_quote!(#r.len()),
                Src::Chars(r) => parse_quote!(str_chars(&#r).len()),
                _ => return None,
            });
        }
        if n == "collect" && ads.is_empty() && matches!(src, Src::Chars(_)) {
            let Src::Chars(r) = src else { unreachable!() };
            return Some(parse_quote!(str_chars(&#r)));
        }
        let st = match n.as_str() {
            "any" => {
                let f = m.args[0].clone();
                let p = vec![parse_quote!(let mut #acc = false;)];
                self.build(src, ads, None, p, |c, _| {
                    let t = apply(&f, c);
                    vec![parse_quote!(if #t { #acc = true; break; })]
                })
            }
            "all" => {
                let f = m.args[0].clone();
                let p = vec![parse_quote!(let mut #acc = true;)];
                self.build(src, ads, None, p, |c, _| {
                    let t = apply(&f, c);
                    vec![parse_quote!(if !(#t) { #acc = false; break; })]
                })
            }
            "position" => {
                let f = m.args[0].clone();
                let pc = format_ident!("__p{}", self.k);
                let p = vec![parse_quote!(let mut #acc: Option<usize> = None;), parse_quote!(let mut #pc: usize = 0;)];
                self.build(src, ads, None, p, |c, _| {
                    let t = apply(&f, c);
                    vec![parse_quote!(if #t { #acc = Some(#pc); break; }), parse_quote!(#pc = #pc + 1;)]
                })
            }
            "find" => {
                let f = m.args[0].clone();
                let p = vec![parse_quote!(let mut #acc = None;)];
                self.build(src, ads, None, p, |c, k| {
                    let y = format_ident!("__y{}", k);
                    let t = apply(&f, parse_quote!(&#y));
                    vec![parse_quote!(let #y = #c;), parse_quote!(if #t { #acc = Some(#y); break; })]
                })
            }
            "find_map" => {
                let f = m.args[0].clone();
                let p = vec![parse_quote!(let mut #acc = None;)];
                self.build(src, ads, None, p, |c, k| {
                    let y = format_ident!("__y{}", k);
                    let t = apply(&f, c);
                    vec![parse_quote!(let #y = #t;), parse_quote!(if #y.is_some() { #acc = #y; break; })]
                })
            }
            "partition" => {
                let f = m.args[0].clone();
                let (a, b) = (format_ident!("__a{}", self.k), format_ident!("__b{}", self.k));
                let p = vec![parse_quote!(let mut #a = Vec::new();), parse_quote!(let mut #b = Vec::new();)];
                let st = self.build(src, ads, None, p, |c, k| {
                    let y = format_ident!("__y{}", k);
                    let t = apply(&f, parse_quote!(&#y));
                    vec![parse_quote!(let #y = #c;), parse_quote!(if #t { #a.push(#y); } else { #b.push(#y); })]
                });
                return Some(parse_quote!({ #(#st)* (#a, #b) }));
            }
            // the last of several maximal elements, as `Iterator::max_by_key` documents
            "max_by_key" => {
                let f = m.args[0].clone();
                let key = format_ident!("__key{}", self.k);
                let p = vec![parse_quote!(let mut #acc = None;), parse_quote!(let mut #key: usize = 0;)];
                self.build(src, ads, None, p, |c, k| {
                    let y = format_ident!("__y{}", k);
                    let q = format_ident!("__q{}", k);
                    let t = apply(&f, parse_quote!(&#y));
                    vec![
                        parse_quote!(let #y = #c;),
                        parse_quote!(let #q: usize = #t;),
                        parse_quote!(if #acc.is_none() || #q >= #key { #acc = Some(#y); #key = #q; }),
                    ]
                })
            }
            "fold" => {
                let Expr::Closure(f) = &m.args[1] else { return None };
                if f.inputs.len() != 2 || early(&f.body) {
                    return None;
                }
                let init = m.args[0].clone();
                let p = vec![parse_quote!(let mut #acc = #init;)];
                let f = f.clone();
                self.build(src, ads, None, p, |c, _| {
                    let mut b = bind(&f.inputs[0], parse_quote!(#acc));
                    b.extend(bind(&f.inputs[1], c));
                    let body = &f.body;
                    vec![parse_quote!(#acc = { #(#b)* #body };)]
                })
            }
            "count" => {
                let p = vec![parse_quote!(let mut #acc: usize = 0;)];
                self.build(src, ads, None, p, |_, _| vec![parse_quote!(#acc = #acc + 1;)])
            }
            "sum" => {
                let p = vec![parse_quote!(let mut #acc: usize = 0;)];
                self.build(src, ads, None, p, |c, _| vec![parse_quote!(#acc = #acc + #c;)])
            }
            "for_each" => {
                let f = m.args[0].clone();
                return Some({
                    let st = self.build(src, ads, None, vec![], |c, _| {
                        let t = apply(&f, c);
                        vec![parse_quote!(#t;)]
                    });
                    parse_quote!({ #(#st)* })
                });
            }
            "collect" => {
                let key = format!("collect{}=", self.k);
                let ty = self.fs.opts.iter().find_map(|o| o.strip_prefix(&key)).map(|s| s.to_string()).or_else(|| {
                    m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string().replace(' ', ""))
                });
                let (init, string, set): (Expr, bool, bool) = match ty.as_deref() {
                    Some("String") => (parse_quote!(String::new()), true, false),
                    // a String collected from Strings
                    Some("Strings") => {
                        let p = vec![parse_quote!(let mut #acc = String::new();)];
                        let st = self.build(src, ads, None, p, |c, _| vec![parse_quote!(str_append(&mut #acc, &#c);)]);
                        return Some(parse_quote!({ #(#st)* #acc }));
                    }
                    // a Result collected from Results: the first error ends the iteration
                    Some("Result") => {
                        let er = format_ident!("__e{}", self.k);
                        let vk = format!("acc{}=", self.k);
                        let vt = self.fs.opts.iter().find_map(|o| o.strip_prefix(&vk)).unwrap_or("Vec<_>");
                        let vt: syn::Type = syn::parse_str(vt).ok()?;
                        let p = vec![parse_quote!(let mut #acc: #vt = Vec::new();), parse_quote!(let mut #er = None;)];
                        let st = self.build(src, ads, None, p, |c, _| {
                            vec![parse_quote!(match #c { Ok(__v) => { #acc.push(__v); } Err(__v) => { #er = Some(__v); break; } })]
                        });
                        return Some(parse_quote!({ #(#st)* match #er { Some(__v) => Err(__v), None => Ok(#acc) } }));
                    }
                    // a text collected from Results of texts
                    Some("ResultStrings") => {
                        let er = format_ident!("__e{}", self.k);
                        let p = vec![parse_quote!(let mut #acc = String::new();), parse_quote!(let mut #er = None;)];
                        let st = self.build(src, ads, None, p, |c, _| {
                            vec![parse_quote!(match #c { Ok(__v) => { str_append(&mut #acc, &__v); } Err(__v) => { #er = Some(__v); break; } })]
                        });
                        return Some(parse_quote!({ #(#st)* match #er { Some(__v) => Err(__v), None => Ok(#acc) } }));
                    }
                    // a Result collected from Results into something built from the vector of values
                    Some(s) if s.starts_with("ResultOf:") => {
                        let f: Expr = syn::parse_str(s.strip_prefix("ResultOf:").unwrap()).ok()?;
                        let er = format_ident!("__e{}", self.k);
                        let vk = format!("acc{}=", self.k);
                        let vt = self.fs.opts.iter().find_map(|o| o.strip_prefix(&vk)).unwrap_or("Vec<_>");
                        let vt: syn::Type = syn::parse_str(vt).ok()?;
                        let p = vec![parse_quote!(let mut #acc: #vt = Vec::new();), parse_quote!(let mut #er = None;)];
                        let st = self.build(src, ads, None, p, |c, _| {
                            vec![parse_quote!(match #c { Ok(__v) => { #acc.push(__v); } Err(__v) => { #er = Some(__v); break; } })]
                        });
                        return Some(parse_quote!({ #(#st)* match #er { Some(__v) => Err(__v), None => Ok(#f(#acc)) } }));
                    }
                    Some(s) if s.starts_with("HashSet") => (parse_quote!(HashSet::new()), false, true),
                    Some("TextSet") => (parse_quote!(TextSet::new()), false, true),
                    _ => (parse_quote!(Vec::new()), false, false),
                };
                let _ = string;
                if matches!(ads.last(), Some(Ad::Flatten)) {
                    ads.pop();
                    let p = vec![parse_quote!(let mut #acc = #init;)];
                    let st = self.build(src, ads, None, p, |c, _| vec![parse_quote!(flatten_into(&mut #acc, #c);)]);
                    return Some(parse_quote!({ #(#st)* #acc }));
                }
                let p = vec![parse_quote!(let mut #acc = #init;)];
                self.build(src, ads, None, p, |c, _| {
                    if set { vec![parse_quote!(#acc.insert(#c);)] } else { vec![parse_quote!(#acc.push(#c);)] }
                })
            }
            _ => return None,
        };
        Some(parse_quote!({ #(#st)* #acc }))
    }

    fn option_closure(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let n = m.method.to_string();
        let v: Expr = parse_quote!(__o);
        Some(match (n.as_str(), m.args.len()) {
            ("is_some_and", 1) => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Some(__o) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Some(__o) => #b, None => true }))
            }
            ("map_or", 2) => {
                let d = &m.args[0];
                let b = apply(&m.args[1], v);
                parse_quote!((match #r { Some(__o) => #b, None => #d }))
            }
            ("map_err", 1) if self.fs.opts.iter().any(|o| o == "resmap") => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Ok(__k) => Ok(__k), Err(__o) => Err(#b) }))
            }
            ("map", 1) if self.fs.opts.iter().any(|o| o == "okmap") && is_fn(&m.args[0]) => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Ok(__o) => Ok(#b), Err(__k) => Err(__k) }))
            }
            // map.entry(k).or_default()
            ("or_default", 0) => {
                let Expr::MethodCall(en) = &*m.receiver else { return None };
                if en.method != "entry" {
                    return None;
                }
                let (e, k) = (&en.receiver, &en.args[0]);
                parse_quote!(entry_or_default(&mut #e, #k))
            }
            // map.entry(k).and_modify(f).or_insert(d) on copyable values: read, change, write back
            ("or_insert", 1) => {
                let Expr::MethodCall(am) = &*m.receiver else { return None };
                let Expr::MethodCall(en) = &*am.receiver else { return None };
                if am.method != "and_modify" || en.method != "entry" {
                    return None;
                }
                let (e, k, d) = (&en.receiver, &en.args[0], &m.args[0]);
                let f = apply(&am.args[0], parse_quote!(&mut __q));
                parse_quote!({ let __p = match #e.get(&#k) { Some(__o) => { let mut __q = *__o; #f; __q } None => #d }; #e.insert(#k, __p); })
            }
            ("map", 1) if self.fs.opts.iter().any(|o| o == "optmap") && is_fn(&m.args[0]) => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Some(__o) => Some(#b), None => None }))
            }
            ("and_then", 1) if self.fs.opts.iter().any(|o| o == "resandthen") => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Ok(__o) => #b, Err(__k) => Err(__k) }))
            }
            ("and_then", 1) if self.fs.opts.iter().any(|o| o == "optmap") => {
                let b = apply(&m.args[0], v);
                parse_quote!((match #r { Some(__o) => #b, None => None }))
            }
            // condition.then(|| value)
            ("then", 1) if self.fs.opts.iter().any(|o| o == "optthen") => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() || early(&c.body) {
                    return None;
                }
                let b = &c.body;
                parse_quote!((if #r { Some(#b) } else { None }))
            }
            ("flatten", 0) if self.fs.opts.iter().any(|o| o == "optthen") => {
                parse_quote!((match #r { Some(__o) => __o, None => None }))
            }
            ("unwrap_or_else", 1) if self.fs.opts.iter().any(|o| o == "optmap") => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() || early(&c.body) {
                    return None;
                }
                let b = &c.body;
                parse_quote!((match #r { Some(__o) => __o, None => #b }))
            }
            ("filter", 1) if self.fs.opts.iter().any(|o| o == "optmap") => {
                let b = apply(&m.args[0], parse_quote!(&__o));
                parse_quote!((match #r { Some(__o) => { if #b { Some(__o) } else { None } } None => None }))
            }
            _ => return None,
        })
    }
}

fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        _ => out.push(e.clone()),
    }
}

fn has_let(e: &Expr) -> bool {
    let mut v = vec![];
    flatten_and(e, &mut v);
    v.len() > 1 && v.iter().any(|x| matches!(x, Expr::Let(_)))
}

fn let_then_guard(cond: &Expr) -> Option<(Pat, Expr, Expr)> {
    let mut v = vec![];
    flatten_and(cond, &mut v);
    let Expr::Let(l) = &v[0] else { return None };
    if v.len() < 2 || v[1..].iter().any(|x| matches!(x, Expr::Let(_))) {
        return None;
    }
    let g = v[2..].iter().fold(v[1].clone(), |a, b| parse_quote!(#a && #b));
    Some(((*l.pat).clone(), (*l.expr).clone(), g))
}

fn nest(cond: &Expr, then: &Block, els: &Option<Block>) -> Expr {
    let mut v = vec![];
    flatten_and(cond, &mut v);
    // group consecutive non-let conditions
    let mut groups: Vec<Expr> = vec![];
    for x in v {
        match (groups.last_mut(), &x) {
            (Some(l), x) if !matches!(l, Expr::Let(_)) && !matches!(x, Expr::Let(_)) => {
                *l = parse_quote!(#l && #x);
            }
            _ => groups.push(x),
        }
    }
    let mut inner: Block = then.clone();
    let mut res: Option<Expr> = None;
    for g in groups.iter().rev() {
        if let Some(r) = res.take() {
            inner = parse_quote!({ #r });
        }
        res = Some(match els {
            Some(e) => parse_quote!(if #g #inner else #e),
            None => parse_quote!(if #g #inner),
        });
    }
    res.unwrap()
}

fn contains_loop(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl VisitMut for Desugar<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.depth += 1;
        loop {
            match e {
                Expr::If(f) if has_let(&f.cond) => {
                    let els = f.else_branch.as_ref().map(|(_, x)| match &**x {
                        Expr::Block(b) => b.block.clone(),
                        x => parse_quote!({ #x }),
                    });
                    // one `let` followed by plain conditions: a guarded match arm, no duplicated else
                    if let Some(els) = &els
                        && !self.fs.opts.iter().any(|o| o == "nestelse")
                        && let Some((pat, ex, guard)) = let_then_guard(&f.cond)
                    {
                        let then = &f.then_branch;
                        *e = parse_quote!(match #ex { #pat if #guard => #then _ => #els });
                        continue;
                    }
                    *e = nest(&f.cond, &f.then_branch, &els);
                    continue;
                }
                // `P if g => a, _ => b` at the end of a match: `P => if g { a } else { b }, _ => b`
                Expr::Match(m)
                    if self.fs.opts.iter().any(|o| o == "nestarms")
                        && m.arms.len() >= 2
                        && m.arms[m.arms.len() - 2].guard.is_some()
                        && m.arms[m.arms.len() - 1].guard.is_none()
                        && matches!(m.arms[m.arms.len() - 1].pat, Pat::Wild(_)) =>
                {
                    let n = m.arms.len();
                    let other = m.arms[n - 1].body.clone();
                    let arm = &mut m.arms[n - 2];
                    let (_, g) = arm.guard.take().unwrap();
                    let b = arm.body.clone();
                    arm.body = parse_quote!(if #g { #b } else { #other });
                    arm.comma = Some(Default::default());
                    continue;
                }
                Expr::While(w) if has_let(&w.cond) => {
                    let els: Option<Block> = Some(parse_quote!({ break; }));
                    let i = nest(&w.cond, &w.body, &els);
                    let label = &w.label;
                    *e = parse_quote!(#label loop { #i });
                    continue;
                }
                Expr::ForLoop(f) => {
                    let mut ads = vec![];
                    let it = strip_paren(&f.expr);
                    let src = match &it {
                        // `for` over a plain range is native Verus; a loop that breaks needs the while form
                        Expr::Range(_) if !self.fs.opts.iter().any(|o| o == "ranges") => None,
                        Expr::Reference(r) if r.mutability.is_none() => {
                            if let Expr::Index(_) = &*r.expr {
                                Some(Src::Slice(it.clone()))
                            } else {
                                Some(Src::Slice((*r.expr).clone()))
                            }
                        }
                        Expr::Path(_) if self.fs.opts.iter().any(|o| *o == format!("slice={}", it.to_token_stream())) => {
                            Some(Src::Slice(it.clone()))
                        }
                        e if self.fs.opts.iter().any(|o| *o == format!("owned={}", e.to_token_stream().to_string().replace(' ', ""))) => {
                            Some(Src::Owned(it.clone()))
                        }
                        e if self.fs.opts.iter().any(|o| *o == format!("slice={}", e.to_token_stream().to_string().replace(' ', ""))) => {
                            Some(Src::Slice(it.clone()))
                        }
                        _ => chain(&it, &mut ads, self.fs),
                    };
                    if let Some(src) = src {
                        let (pat, body, label) = (f.pat.clone(), f.body.clone(), f.label.clone());
                        let st = self.build(src, ads, label, vec![], |c, _| {
                            let mut b = bind(&pat, c);
                            b.extend(body.stmts);
                            b
                        });
                        *e = parse_quote!({ #(#st)* });
                        continue;
                    }
                }
                // a match on texts: the arms compared one after the other
                Expr::Match(m) if self.fs.opts.iter().any(|o| o == "strmatch") && m.arms.len() > 1 && m.arms[..m.arms.len() - 1].iter().all(|a| text_pat(&a.pat) && a.guard.is_none())
                    && matches!(m.arms[m.arms.len() - 1].pat, Pat::Ident(_) | Pat::Wild(_)) && m.arms[m.arms.len() - 1].guard.is_none() =>
                {
                    let last = m.arms.last().unwrap();
                    let b = bind(&last.pat, parse_quote!(__m));
                    let body = &last.body;
                    let mut x: Block = parse_quote!({ #(#b)* #body });
                    for a in m.arms[..m.arms.len() - 1].iter().rev() {
                        let (p, body) = (&a.pat, &a.body);
                        let lits: Vec<&Pat> = match p {
                            Pat::Or(o) => o.cases.iter().collect(),
                            p => vec![p],
                        };
                        x = parse_quote!({ if #(str_is(__m, #lits))||* { #body } else #x });
                    }
                    let v = &m.expr;
                    *e = parse_quote!({ let __m = #v; #x });
                    continue;
                }
                // enum_set!(A | B | ..): the set of the listed values
                Expr::Macro(m) if m.mac.path.is_ident("enum_set") => {
                    let t = m.mac.tokens.to_string();
                    let items: Vec<Expr> =
                        t.split('|').filter(|p| !p.trim().is_empty()).filter_map(|p| syn::parse_str(p).ok()).collect();
                    *e = parse_quote!(enum_set_of(vec![#(#items),*]));
                    continue;
                }
                // Enum::A | Enum::B | ..: the set of the listed values
                Expr::Binary(b) if matches!(b.op, syn::BinOp::BitOr(_)) => {
                    let mut items = vec![];
                    let all = Expr::Binary(b.clone());
                    if variants(&all, &mut items) {
                        *e = parse_quote!(enum_set_of(vec![#(#items),*]));
                        continue;
                    }
                }
                Expr::MethodCall(m) => {
                    let m = m.clone();
                    if let Some(n) = self.terminal(&m) {
                        *e = n;
                        continue;
                    }
                    if let Some(n) = self.option_closure(&m) {
                        *e = n;
                        continue;
                    }
                }
                _ => {}
            }
            break;
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e
            && contains_loop(&w.cond)
        {
            let (c, b, l) = (&w.cond, &w.body.stmts, &w.label);
            *e = parse_quote!(#l loop { if !(#c) { break; } #(#b)* });
        }
        self.depth -= 1;
    }
}

/// a text literal, or several
fn text_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().all(text_pat),
        _ => false,
    }
}

/// the operands of a union of enum variants
fn variants(e: &Expr, items: &mut Vec<Expr>) -> bool {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::BitOr(_)) => variants(&b.left, items) && variants(&b.right, items),
        Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments.iter().all(|s| s.ident.to_string().starts_with(char::is_uppercase)) => {
            items.push(e.clone());
            true
        }
        _ => false,
    }
}

/// pre-order loop numbering + markers
struct Number {
    n: usize,
}
fn loop_body(e: &mut Expr) -> Option<&mut Block> {
    match e {
        Expr::While(w) => Some(&mut w.body),
        Expr::Loop(w) => Some(&mut w.body),
        Expr::ForLoop(w) => Some(&mut w.body),
        _ => None,
    }
}
impl VisitMut for Number {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let id = self.n;
            let mut is_loop = false;
            let mut value = false;
            if let Stmt::Expr(e, semi) = &mut s
                && loop_body(e).is_some()
            {
                is_loop = true;
                value = matches!(e, Expr::Loop(_)) && semi.is_none();
            }
            if is_loop {
                out.push(mk(format!("at {id} pre")));
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if is_loop && !value {
                out.push(mk(format!("at {id} post")));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if loop_body(e).is_some() {
            let id = self.n;
            self.n += 1;
            syn::visit_mut::visit_expr_mut(self, e);
            let b = loop_body(e).unwrap();
            b.stmts.insert(0, mk(format!("inv {id}")));
            b.stmts.insert(1, mk(format!("at {id} start")));
            // end marker: before a tail expression that diverges or yields unit it is still reached
            b.stmts.push(mk(format!("at {id} end")));
            let n = b.stmts.len();
            // a unit tail expression must become a statement
            if n >= 2
                && let Stmt::Expr(x, semi @ None) = &mut b.stmts[n - 2]
                && !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_))
            {
                *semi = Some(Default::default());
            }
        } else {
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
}

struct Before<'a> {
    fs: &'a FnSpec,
    hit: Vec<usize>,
}
impl VisitMut for Before<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let t = s.to_token_stream().to_string();
            for (i, (k, nth, _)) in self.fs.before.iter().enumerate() {
                if t.starts_with(&norm(k)) {
                    if self.hit[i] == *nth {
                        out.push(mk(format!("before {i}")));
                    }
                    self.hit[i] += 1;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
}

/// D6: `x @ (A | B) if g` in a match arm -> `x if matches!(x, A | B) && g`
struct OrGuard;
struct PullOr {
    found: Option<(syn::Ident, Pat)>,
}
impl VisitMut for PullOr {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        let inner = p.subpat.as_ref().map(|(_, q)| match &**q {
            Pat::Paren(r) => (*r.pat).clone(),
            q => q.clone(),
        });
        if self.found.is_none()
            && let Some(Pat::Or(o)) = inner
        {
            self.found = Some((p.ident.clone(), Pat::Or(o)));
            p.subpat = None;
        }
    }
}
impl VisitMut for OrGuard {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if let Some((_, g)) = &mut a.guard {
            let mut po = PullOr { found: None };
            po.visit_pat_mut(&mut a.pat);
            if let Some((x, p)) = po.found {
                let old = (**g).clone();
                **g = parse_quote!(matches!(#x, #p) && #old);
            }
        }
        syn::visit_mut::visit_arm_mut(self, a);
    }
}

/// D5: a closure bound by `let NAME = |p..| body;` is inlined where it is called
struct Inline {
    name: String,
    clo: Option<syn::ExprClosure>,
}
impl VisitMut for Inline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s
                && let Pat::Ident(id) = &l.pat
                && id.ident == self.name.as_str()
                && let Some(init) = &l.init
                && let Expr::Closure(c) = &*init.expr
            {
                self.clo = Some(c.clone());
                continue;
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e
            && let Expr::Path(p) = &*c.func
            && p.path.is_ident(self.name.as_str())
            && let Some(clo) = &self.clo
            && clo.inputs.len() == c.args.len()
        {
            let b: Vec<Stmt> = clo.inputs.iter().zip(c.args.iter()).flat_map(|(p, a)| bind(p, a.clone())).collect();
            let body = &clo.body;
            *e = parse_quote!({ #(#b)* #body });
        }
    }
}

/// replaces the statements of a loop's body behind the binding of its element by a call; returns them
pub fn outline(b: &mut Block, o: &crate::Outline) -> Result<proc_macro2::TokenStream, crate::Lost> {
    struct Find<'a> {
        o: &'a crate::Outline,
        got: Option<proc_macro2::TokenStream>,
        bad: bool,
    }
    fn is_mark(s: &Stmt, t: &str) -> bool {
        s.to_token_stream().to_string() == mk(t.to_string()).to_token_stream().to_string()
    }
    /// leaves the statements other than by `?`
    struct Exits {
        depth: usize,
        found: bool,
    }
    impl<'a> Visit<'a> for Exits {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                // an error returned from the part is returned by the caller as well
                Expr::Return(r) if r.expr.as_ref().is_some_and(|x| matches!(&**x, Expr::Call(c) if c.func.to_token_stream().to_string() == "Err")) => {}
                Expr::Return(_) => self.found = true,
                Expr::Break(b) if self.depth == 0 || b.label.is_some() => self.found = true,
                Expr::Continue(b) if self.depth == 0 || b.label.is_some() => self.found = true,
                Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                    self.depth += 1;
                    syn::visit::visit_expr(self, e);
                    self.depth -= 1;
                    return;
                }
                Expr::Closure(_) => return,
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    impl VisitMut for Find<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let (inv, end) = (format!("inv {}", self.o.n), format!("at {} end", self.o.n));
            if b.stmts.first().is_some_and(|s| is_mark(s, &inv)) {
                let x = format!("__x{}", self.o.n);
                let from = b.stmts.iter().rposition(|s| matches!(s, Stmt::Local(l) if l.init.as_ref().is_some_and(|i| i.expr.to_token_stream().to_string() == x)));
                let to = b.stmts.iter().position(|s| is_mark(s, &end));
                let (Some(from), Some(to)) = (from, to) else {
                    self.bad = true;
                    return;
                };
                let mut part = proc_macro2::TokenStream::new();
                for s in b.stmts.drain(from + 1..to) {
                    let mut e = Exits { depth: 0, found: false };
                    e.visit_stmt(&s);
                    self.bad |= e.found;
                    s.to_tokens(&mut part);
                    // a match or a conditional as the last statement
                    if matches!(s, Stmt::Expr(_, None)) {
                        part.extend(std::iter::once(proc_macro2::TokenTree::Punct(proc_macro2::Punct::new(';', proc_macro2::Spacing::Alone))));
                    }
                }
                self.got = Some(part);
                let call: Stmt = syn::parse_str(&format!("{} ;", self.o.call)).expect("call of an outlined part");
                b.stmts.insert(from + 1, call);
                return;
            }
            syn::visit_mut::visit_block_mut(self, b);
        }
    }
    let mut f = Find { o, got: None, bad: false };
    f.visit_block_mut(b);
    match f.got {
        Some(t) if !f.bad => Ok(t),
        _ => Err(crate::Lost(format!("loop {} can not be outlined", o.n))),
    }
}
