//! The derive macros of the stand-in for `clap`: a type is made field by field from what the harness provides.
use proc_macro::{Delimiter, Spacing, TokenStream, TokenTree};

struct Field {
	/// None in a tuple.
	name: Option<String>,
	ty: String,
	parser: Option<String>,
	subcommand: bool,
}
/// The attributes in front, as text.
fn attributes(t: &[TokenTree], at: &mut usize) -> (Option<String>, bool, Option<String>) {
	let (mut parser, mut sub, mut name) = (None, false, None);
	while let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (t.get(*at), t.get(*at + 1)) {
		if p.as_char() != '#' {
			break;
		}
		*at += 2;
		let inner: Vec<TokenTree> = g.stream().into_iter().collect();
		let (Some(TokenTree::Ident(i)), Some(TokenTree::Group(a))) = (inner.first(), inner.get(1)) else { continue };
		if !["clap", "arg", "command", "value"].contains(&i.to_string().as_str()) {
			continue;
		}
		for part in split(a.stream().into_iter().collect()) {
			let key = part[0].to_string();
			let value: TokenStream = part.iter().skip(2).cloned().collect();
			match key.as_str() {
				"subcommand" | "flatten" => sub = true,
				"value_parser" => parser = Some(value.to_string()),
				"name" => name = Some(value.to_string().trim_matches('"').to_string()),
				_ => (),
			}
		}
	}
	(parser, sub, name)
}
/// Split at commas that are not inside `<>`.
fn split(t: Vec<TokenTree>) -> Vec<Vec<TokenTree>> {
	let mut out = vec![vec![]];
	let mut depth = 0;
	let mut arrow = false;
	for x in t {
		if let TokenTree::Punct(p) = &x {
			match p.as_char() {
				'<' => depth += 1,
				'>' if !arrow => depth -= 1,
				',' if depth == 0 => {
					out.push(vec![]);
					continue;
				},
				_ => (),
			}
			arrow = p.as_char() == '-' && p.spacing() == Spacing::Joint;
		}
		out.last_mut().unwrap().push(x);
	}
	out.retain(|x| !x.is_empty());
	out
}
fn visibility(t: &[TokenTree], at: &mut usize) {
	if matches!(t.get(*at), Some(TokenTree::Ident(i)) if i.to_string() == "pub") {
		*at += 1;
		if matches!(t.get(*at), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) {
			*at += 1;
		}
	}
}
fn fields(body: TokenStream, named: bool) -> Vec<Field> {
	split(body.into_iter().collect())
		.into_iter()
		.map(|f| {
			let mut at = 0;
			let (parser, subcommand, _) = attributes(&f, &mut at);
			visibility(&f, &mut at);
			let mut name = None;
			if named {
				name = Some(f[at].to_string());
				at += 2;
			}
			let ty: TokenStream = f[at..].iter().cloned().collect();
			Field { name, ty: ty.to_string(), parser, subcommand }
		})
		.collect()
}
fn make(fs: &[Field], named: bool) -> String {
	let mut o = String::new();
	for (i, f) in fs.iter().enumerate() {
		let n = f.name.clone().unwrap_or_else(|| i.to_string());
		let v = match &f.parser {
			Some(p) if !p.contains("value_parser !") && !p.contains("value_parser!") => format!("::clap::with_parser({}, source, {:?})", p, n.trim_start_matches("r#")),
			_ => format!("{{ use ::clap::{{ViaTake, ViaFromStr}}; (&&::clap::Wrap::<{}>::new()).make(source, {:?}) }}", f.ty, n.trim_start_matches("r#")),
		};
		if named {
			o += &format!("{}: {},", n, v);
		} else {
			o += &format!("{},", v);
		}
	}
	o
}
fn kebab(s: &str) -> String {
	let mut o = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() && i > 0 {
			o.push('-');
		}
		o.extend(c.to_lowercase());
	}
	o
}
fn derive(input: TokenStream, main: bool) -> TokenStream {
	let t: Vec<TokenTree> = input.into_iter().collect();
	let mut at = 0;
	attributes(&t, &mut at);
	visibility(&t, &mut at);
	let kind = t[at].to_string();
	let name = t[at + 1].to_string();
	let Some(TokenTree::Group(body)) = t.get(at + 2) else { panic!("not supported") };
	let mut out = String::new();
	if kind == "struct" {
		let named = body.delimiter() == Delimiter::Brace;
		let fs = fields(body.stream(), named);
		let (l, r) = if named { ("{", "}") } else { ("(", ")") };
		out += &format!("impl ::clap::Take for {name} {{ fn take(source: &mut dyn ::clap::Source, _: &str) -> Self {{ {name} {l} {} {r} }} }}", make(&fs, named));
		if main && fs.iter().any(|f| f.subcommand) {
			out += "#[no_mangle] pub extern \"C-unwind\" fn cli_main() { ::clap::finish(crate::main()) }";
		}
	} else {
		let mut arms = String::new();
		for v in split(body.stream().into_iter().collect()) {
			let mut at = 0;
			let (_, _, renamed) = attributes(&v, &mut at);
			let variant = v[at].to_string();
			let key = renamed.unwrap_or_else(|| kebab(&variant));
			match v.get(at + 1) {
				Some(TokenTree::Group(g)) => {
					let named = g.delimiter() == Delimiter::Brace;
					let fs = fields(g.stream(), named);
					let (l, r) = if named { ("{", "}") } else { ("(", ")") };
					arms += &format!("if ::clap::same(command, {key:?}) {{ return {name}::{variant} {l} {} {r}; }}", make(&fs, named));
				},
				_ => arms += &format!("if ::clap::same(command, {key:?}) {{ return {name}::{variant}; }}"),
			}
		}
		out += &format!("impl ::clap::Take for {name} {{ fn take(source: &mut dyn ::clap::Source, what: &str) -> Self {{ let command = source.command(what); {arms} ::clap::usage() }} }}");
	}
	if main {
		out += &format!("impl ::clap::CommandFactory for {name} {{}} impl ::clap::Parser for {name} {{}}");
	}
	out.parse().unwrap()
}

#[proc_macro_derive(Parser, attributes(clap, arg, command, value))]
pub fn parser(input: TokenStream) -> TokenStream {
	derive(input, true)
}
#[proc_macro_derive(Args, attributes(clap, arg, command, value))]
pub fn args(input: TokenStream) -> TokenStream {
	derive(input, false)
}
#[proc_macro_derive(Subcommand, attributes(clap, arg, command, value))]
pub fn subcommand(input: TokenStream) -> TokenStream {
	derive(input, false)
}
#[proc_macro_derive(ValueEnum, attributes(clap, arg, command, value))]
pub fn value_enum(input: TokenStream) -> TokenStream {
	derive(input, false)
}
