//! Mutant schemata: rewrites the non-test source of bm and bm-le so that every mutant is compiled in and
//! selected at run time by the environment variable MUT. Usage: mutate REPO SKIP-FILE OUT.tsv
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone)]
enum Kind { Expr, Stmt, Prefix }

struct Site { kind: Kind, alts: Vec<(usize, String, String)> }

struct V<'a> {
	src: &'a str,
	lines: Vec<usize>,
	sites: BTreeMap<(usize, std::cmp::Reverse<usize>, u8), Site>,
	next: &'a mut usize,
	skip: &'a BTreeSet<usize>,
	log: &'a mut Vec<String>,
	file: String,
	func: String,
}

fn one(s: &str) -> String {
	s.split('\n').map(|l| l.split("//").next().unwrap().trim()).collect::<Vec<_>>().join(" ")
}

impl<'a> V<'a> {
	fn off(&self, p: proc_macro2::LineColumn) -> usize {
		let l = self.lines[p.line - 1];
		self.src[l..].char_indices().nth(p.column).map(|x| l + x.0).unwrap_or(self.src.len())
	}
	fn range<T: Spanned>(&self, t: &T) -> (usize, usize) {
		let s = t.span();
		(self.off(s.start()), self.off(s.end()))
	}
	fn text<T: Spanned>(&self, t: &T) -> String { let (a, b) = self.range(t); one(&self.src[a..b]) }
	fn add(&mut self, r: (usize, usize), kind: Kind, alt: String, op: &str) {
		let id = *self.next;
		*self.next += 1;
		if self.skip.contains(&id) { return }
		let line = self.src[..r.0].matches('\n').count() + 1;
		let orig = match kind { Kind::Prefix => String::new(), _ => one(&self.src[r.0..r.1]) };
		self.log.push(format!("{}\t{}:{}\t{}\t{}\t{}\t=>\t{}", id, self.file, line, self.func, op, orig, alt));
		let k = match kind { Kind::Stmt => 0, Kind::Expr => 1, Kind::Prefix => 2 };
		self.sites.entry((r.0, std::cmp::Reverse(r.1), k)).or_insert(Site { kind, alts: Vec::new() }).alts.push((id, alt, op.into()));
	}
	fn expr_alt(&mut self, e: &syn::Expr, alt: String, op: &str) {
		let r = self.range(e);
		self.add(r, Kind::Expr, alt, op);
	}
	fn body(&mut self, sig: &syn::Signature, b: &syn::Block) {
		if let syn::ReturnType::Type(_, t) = &sig.output {
			let t: String = self.text(&**t).replace(' ', "");
			let alts: Vec<&str> = if t == "bool" { vec!["true", "false"] }
				else if t.starts_with("Result<(),") { vec!["Ok(())"] }
				else if t.starts_with("Option<") { vec!["None"] }
				else if t.starts_with("Vec<") { vec!["Vec::new()"] }
				else if t == "usize" || t == "u64" { vec!["0", "1"] }
				else if t.starts_with("Result<Option<") { vec!["Ok(None)"] }
				else if t.starts_with("Result<Vec<") { vec!["Ok(Vec::new())"] }
				else { vec![] };
			let r = self.range(b);
			for a in alts { self.add((r.0 + 1, r.0 + 1), Kind::Prefix, format!("return {};", a), "ret"); }
		} else {
			let r = self.range(b);
			self.add((r.0 + 1, r.0 + 1), Kind::Prefix, "return;".into(), "ret");
		}
	}
	fn render(&self, a: usize, b: usize, active: &str) -> String {
		let sites: Vec<_> = self.sites.iter().collect();
		let mut i = 0;
		self.rend(a, b, &sites, &mut i, active)
	}
	fn rend(&self, a: usize, b: usize, sites: &[(&(usize, std::cmp::Reverse<usize>, u8), &Site)], i: &mut usize, active: &str) -> String {
		let mut out = String::new();
		let mut pos = a;
		while *i < sites.len() {
			let (&(s, std::cmp::Reverse(e), _), site) = sites[*i];
			if s >= b && !(s == b && e == b && a == b) { break }
			out.push_str(&self.src[pos..s]);
			*i += 1;
			let inner = self.rend(s, e, sites, i, active);
			match site.kind {
				Kind::Expr => {
					out.push_str("(");
					for (id, alt, _) in &site.alts { out.push_str(&format!("if {}({}) {{\n/*M{}*/ {}\n}} else ", active, id, id, alt)); }
					out.push_str(&format!("{{ {} }})", inner));
				}
				Kind::Stmt => {
					for (id, alt, _) in &site.alts { out.push_str(&format!("if {}({}) {{\n/*M{}*/ {}\n}} else ", active, id, id, alt)); }
					out.push_str(&format!("{{ {} }}", inner));
				}
				Kind::Prefix => {
					for (id, alt, _) in &site.alts { out.push_str(&format!("if {}({}) {{\n/*M{}*/ {}\n}}", active, id, id, alt)); }
				}
			}
			pos = e;
		}
		out.push_str(&self.src[pos..b]);
		out
	}
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
	attrs.iter().any(|a| { let s = quote::quote!(#a).to_string(); s.contains("cfg (test)") || s.contains("test") && s.contains("cfg") })
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
	fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
	fn visit_item_const(&mut self, _: &'ast syn::ItemConst) {}
	fn visit_item_static(&mut self, _: &'ast syn::ItemStatic) {}
	fn visit_type(&mut self, _: &'ast syn::Type) {}
	fn visit_generics(&mut self, _: &'ast syn::Generics) {}
	fn visit_pat(&mut self, _: &'ast syn::Pat) {}
	fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
		if f.sig.constness.is_some() { return }
		self.func = f.sig.ident.to_string();
		self.body(&f.sig, &f.block);
		visit::visit_item_fn(self, f)
	}
	fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
		if f.sig.constness.is_some() { return }
		self.func = f.sig.ident.to_string();
		self.body(&f.sig, &f.block);
		visit::visit_impl_item_fn(self, f)
	}
	fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
		self.func = f.sig.ident.to_string();
		if let Some(b) = &f.default { self.body(&f.sig, b); }
		visit::visit_trait_item_fn(self, f)
	}
	fn visit_block(&mut self, b: &'ast syn::Block) {
		for s in &b.stmts {
			if let syn::Stmt::Expr(e, Some(_)) = s {
				if matches!(e, syn::Expr::Return(_) | syn::Expr::Break(_) | syn::Expr::Continue(_)) { continue }
				let r = self.range(s);
				self.add(r, Kind::Stmt, String::new(), "del");
				if let syn::Expr::Try(t) = e {
					let x = self.text(&*t.expr);
					self.add(r, Kind::Stmt, format!("let _ = {};", x), "swallow");
				}
			} else if let syn::Stmt::Expr(e, None) = s {
				if matches!(e, syn::Expr::If(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Match(_)) {
					let r = self.range(s);
					self.add(r, Kind::Stmt, String::new(), "del");
				}
			}
		}
		visit::visit_block(self, b)
	}
	fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) { self.visit_expr(&e.right) }
	fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
		if let syn::Expr::Field(f) = &*e.expr { self.visit_expr(&f.base) } else { visit::visit_expr_reference(self, e) }
	}
	fn visit_expr(&mut self, e: &'ast syn::Expr) {
		use syn::BinOp::*;
		match e {
			syn::Expr::Binary(b) => {
				let l = self.text(&*b.left);
				let r = self.text(&*b.right);
				let ops: &[&str] = match b.op {
					Lt(_) => &["<=", ">="], Le(_) => &["<", ">"], Gt(_) => &[">=", "<="], Ge(_) => &[">", "<"],
					Eq(_) => &["!=", "<=", ">="], Ne(_) => &["==", "<", ">"], Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["/"], Div(_) => &["*", "%"],
					Rem(_) => &["/"], Shl(_) => &[">>"], Shr(_) => &["<<"], BitAnd(_) => &["|"], BitOr(_) => &["&", "^"],
					And(_) => &["||"], Or(_) => &["&&"], _ => &[],
				};
				for o in ops { let t = format!("{} {} {}", l, o, r); self.expr_alt(e, t, "bin"); }
				if matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Shl(_) | Shr(_) | BitAnd(_) | BitOr(_)) {
					self.expr_alt(e, l.clone(), "left");
				}
				if matches!(b.op, And(_) | Or(_)) { self.expr_alt(e, l, "left"); self.expr_alt(e, r, "right"); }
				if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
					self.visit_expr(&b.right);
					return
				}
			}
			syn::Expr::If(i) => if !matches!(&*i.cond, syn::Expr::Let(_)) {
				self.expr_alt(&i.cond, "true".into(), "cond");
				self.expr_alt(&i.cond, "false".into(), "cond");
			},
			syn::Expr::Lit(l) => match &l.lit {
				syn::Lit::Int(n) => {
					let t = n.to_string();
					if let Ok(v) = n.base10_parse::<u128>() {
						let suf = n.suffix();
						let _ = t;
						self.expr_alt(e, format!("{}{}", v + 1, suf), "lit");
						if v > 0 { self.expr_alt(e, format!("{}{}", v - 1, suf), "lit"); }
					}
				}
				syn::Lit::Bool(b) => { self.expr_alt(e, (!b.value).to_string(), "lit"); }
				_ => (),
			},
			syn::Expr::Field(f) => if let syn::Member::Unnamed(ix) = &f.member {
				if ix.index < 2 { let b = self.text(&*f.base); self.expr_alt(e, format!("{}.{}", b, 1 - ix.index), "field"); }
			},
			syn::Expr::Range(r) => {
				if let (Some(s), Some(t)) = (&r.start, &r.end) {
					let (s, t) = (self.text(&**s), self.text(&**t));
					let op = if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { ".." } else { "..=" };
					self.expr_alt(e, format!("({}){}({}) + 1", s, op, t), "range");
					self.expr_alt(e, format!("({}){}({}) - 1", s, op, t), "range");
					self.expr_alt(e, format!("({}) + 1{}({})", s, op, t), "range");
				}
			}
			syn::Expr::Call(c) => {
				let f = self.text(&*c.func);
				if f == "Some" { self.expr_alt(e, "None".into(), "none"); }
				if f == "Ok" && c.args.len() == 1 && self.text(&c.args[0]).starts_with("Some") { self.expr_alt(e, "Ok(None)".into(), "none"); }
				let args: Vec<String> = c.args.iter().map(|a| self.text(a)).collect();
				self.swaps(e, &f, &args);
			}
			syn::Expr::MethodCall(c) => {
				let recv = self.text(&*c.receiver);
				let m = c.method.to_string();
				let args: Vec<String> = c.args.iter().map(|a| self.text(a)).collect();
				let tf = c.turbofish.as_ref().map(|t| self.text(t)).unwrap_or_default();
				self.swaps(e, &format!("{}.{}{}", recv, m, tf), &args);
				let alt = match &m[..] { "left" => "right", "right" => "left", "len" => "max_len_", "saturating_sub" => "wrapping_sub", "min" => "max", "max" => "min", "is_some" => "is_none", "is_none" => "is_some", "all" => "any", "any" => "all", "first" => "last", "trailing_zeros" => "leading_zeros", "next_power_of_two" => "count_ones", "is_left" => "is_right", "left_" => "", _ => "" };
				if !alt.is_empty() && alt != "max_len_" { self.expr_alt(e, format!("{}.{}({})", recv, alt, args.join(", ")), "method"); }
				if m == "len" { self.expr_alt(e, format!("{}.len({}) + 1", recv, args.join(", ")), "len"); self.expr_alt(e, format!("{}.len({}) - 1", recv, args.join(", ")), "len"); }
				if m == "cloned" || m == "unwrap_or" { self.expr_alt(e, "None".into(), "none"); }
				if ["get", "remove", "insert", "last", "first", "pop", "next"].contains(&&m[..]) { self.expr_alt(e, "None".into(), "none"); }
				if m == "rev" { self.expr_alt(e, recv.clone(), "norev"); }
			}
			syn::Expr::Unary(u) => if matches!(u.op, syn::UnOp::Not(_)) { let t = self.text(&*u.expr); self.expr_alt(e, t, "not"); },
			syn::Expr::Tuple(t) => if t.elems.len() == 2 {
				let (a, b) = (self.text(&t.elems[0]), self.text(&t.elems[1]));
				self.expr_alt(e, format!("({}, {})", b, a), "tswap");
				self.expr_alt(e, format!("({}, {})", a, a), "tdup");
				self.expr_alt(e, format!("({}, {})", b, b), "tdup");
			},
			_ => (),
		}
		visit::visit_expr(self, e)
	}
	fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
		// A receiver may be a place: do not rewrite the outermost field access.
		if let syn::Expr::Field(f) = &*c.receiver { self.visit_expr(&f.base) } else { self.visit_expr(&c.receiver) }
		for a in &c.args { self.visit_expr(a) }
	}
	fn visit_expr_repeat(&mut self, e: &'ast syn::ExprRepeat) { self.visit_expr(&e.expr) }
	fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
		if let syn::Expr::Field(g) = &*f.base { self.visit_expr(&g.base) } else { self.visit_expr(&f.base) }
	}
}

impl<'a> V<'a> {
	fn swaps(&mut self, e: &syn::Expr, f: &str, args: &[String]) {
		for i in 0..args.len() {
			if i + 1 < args.len() {
				let mut x = args.to_vec();
				x.swap(i, i + 1);
				self.expr_alt(e, format!("{}({})", f, x.join(", ")), "swap");
			}
			if args[i].starts_with("Some") { let mut x = args.to_vec(); x[i] = "None".into(); self.expr_alt(e, format!("{}({})", f, x.join(", ")), "none"); }
			for j in 0..args.len() {
				if i != j { let mut x = args.to_vec(); x[i] = format!("{}", x[j]); self.expr_alt(e, format!("{}({})", f, x.join(", ")), "dup"); }
			}
		}
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let skip: BTreeSet<usize> = std::fs::read_to_string(&a[2]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
	let mut next = 1;
	let mut log = Vec::new();
	for (dir, active) in [("src", "crate::mut_active"), ("le/src", "bm::mut_active")] {
		let mut fs: Vec<_> = std::fs::read_dir(format!("{}/{}", a[1], dir)).unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rs")).collect();
		fs.sort();
		for p in fs {
			let src = std::fs::read_to_string(&p).unwrap();
			let ast = syn::parse_file(&src).unwrap();
			let mut lines = vec![0];
			for (i, c) in src.char_indices() { if c == '\n' { lines.push(i + 1) } }
			let mut v = V { src: &src, lines, sites: BTreeMap::new(), next: &mut next, skip: &skip, log: &mut log, file: format!("{}/{}", dir, p.file_name().unwrap().to_str().unwrap()), func: String::new() };
			v.visit_file(&ast);
			let mut out = v.render(0, src.len(), active);
			if dir == "src" && p.ends_with("lib.rs") {
				out.push_str("\nextern crate std as mut_std;\n#[doc(hidden)] pub fn mut_active(id: usize) -> bool {\n\tuse mut_std::sync::atomic::*;\n\tstatic A: AtomicUsize = AtomicUsize::new(usize::max_value());\n\tlet mut x = A.load(Ordering::Relaxed);\n\tif x == usize::max_value() { x = mut_std::env::var(\"MUT\").ok().and_then(|x| x.parse().ok()).unwrap_or(0); A.store(x, Ordering::Relaxed); }\n\tx == id\n}\n");
			}
			std::fs::write(&p, out).unwrap();
		}
	}
	std::fs::write(&a[3], log.join("\n") + "\n").unwrap();
}
