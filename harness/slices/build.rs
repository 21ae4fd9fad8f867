//! Cuts the functions under test, and all they use of the same file, out of source files that
//! cannot be mounted whole. What they use of other files is provided by stand-ins.

use proc_macro2::{TokenStream, TokenTree};
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::{ImplItem, Item, Visibility, parse_quote};

const SRC: &str = "/repo/monoruby/src/";

/// Name of the slice, file, where to start, names the stand-ins provide. A start is a function, given
/// as `name`, `name@method` with the method of the language it implements, `name%word` with a word
/// by which to know the macro call that defines it, or `Type::method`. A name of the form
/// `Trait for Type` is an implementation to leave out.
const SLICES: &[(&str, &str, &[&str], &[&str])] = &[
    ("kernel", "builtins/kernel.rs", &["parse_kernel_integer", "parse_kernel_float"], &[]),
    ("coerce", "value/coerce.rs", &["Value::coerce_to_integer", "Value::coerce_to_float", "Value::coerce_to_char", "Value::coerce_to_s", "Value::coerce_to_pack_u64", "Value::coerce_to_rstring", "Value::coerce_to_string", "Value::coerce_to_int_i64", "Value::coerce_to_str"], &[]),
    ("float", "builtins.rs", &["parse_f64"], &[]),
    ("kernel_numbers", "builtins/kernel.rs", &["kernel_integer@Integer", "kernel_float@Float"], &["float_domain_error"]),
    ("string_numbers", "builtins/string.rs", &["to_f@to_f", "to_i@to_i", "hex@hex", "oct@oct"], &[]),
    ("string_sets", "builtins/string.rs", &["delete@delete", "delete_@delete!", "tr@tr", "tr_@tr!", "tr_s@tr_s", "tr_s_@tr_s!", "count@count", "squeeze@squeeze", "squeeze_@squeeze!"], &[]),
    ("string_trim", "builtins/string.rs", &["chomp@chomp", "chomp_@chomp!", "strip@strip", "strip_@strip!", "lstrip@lstrip", "lstrip_@lstrip!", "rstrip@rstrip", "rstrip_@rstrip!", "ljust@ljust", "rjust@rjust", "center@center", "start_with@start_with?", "end_with@end_with?", "delete_prefix@delete_prefix", "delete_prefix_@delete_prefix!"], &[]),
    ("string_transform", "builtins/string.rs", &["next@next", "next_mut@next!", "undump@undump", "dump@dump", "upcase@upcase", "upcase_@upcase!", "downcase@downcase", "downcase_@downcase!", "capitalize@capitalize", "capitalize_@capitalize!", "swapcase@swapcase", "swapcase_@swapcase!", "cmp@<=>", "lt@<", "le@<=", "gt@>", "ge@>=", "casecmp@casecmp", "casecmp_p@casecmp?", "reverse@reverse", "reverse_@reverse!", "sum@sum", "scrub@scrub", "scrub_@scrub!", "mul@*", "ord@ord", "chars@chars"], &["scrub_inner_with_block"]),
    ("string_find", "builtins/string.rs", &["string_index@index", "string_rindex@rindex", "byteindex@byteindex", "byterindex@byterindex", "include_@include?", "split@split", "lines@lines"], &["coerce_pattern_for_byte_search"]),
    ("string_cut", "builtins/string.rs", &["index@[]", "index_assign@[]=", "slice_@slice!", "byteslice@byteslice", "bytesplice@bytesplice", "getbyte@getbyte", "setbyte@setbyte", "chr@chr", "replace@replace"], &["string_match_index", "string_match_named", "locate_regex_match"]),
    ("value", "value.rs", &["ruby_float_to_s", "seeded_hasher", "HASH_RECURSION_GUARD", "OUTER_RECURSION_HIT", "exec_recursive_outer_unregistered", "exec_recursive_paired", "RoundHalf", "RV", "Value::nil", "Value::bool", "Value::symbol", "Value::symbol_from_str", "Value::integer", "Value::integer_from_u64", "Value::integer_from_f64", "Value::float", "Value::float_heap", "Value::flonum", "Value::complex", "Value::complex_from", "Value::rational", "Value::rational_from_inner", "Value::bigint", "Value::unpack", "Value::is_nil", "Value::id", "Value::as_bool", "Value::class", "Value::dup", "Value::deep_copy", "Value::try_fixnum", "Value::is_integer", "Value::is_float", "Value::try_float", "Value::try_complex", "Value::as_complex", "Value::try_rational", "Value::as_rational", "Value::as_symbol", "Value::try_symbol", "Value::from_ord", "Value::ord_from", "Value::check_fixnum", "Value::is_immediate", "Value::is_packed_value", "Value::calculate_hash", "Value::from_hash_digest", "Value::from_ptr", "Immediate::check_fixnum", "Immediate::try_fixnum", "Immediate::try_flonum", "Immediate::symbol", "RubySymbol::new"], &["hash", "string", "array", "range", "object", "bytes", "is_range", "try_array_ty", "is_exception", "debug", "to_s", "inspect", "mark", "as_array", "as_str", "is_linear", "GC for Value"]),
    ("coerce_num", "value/coerce.rs", &["Value::coerce_f64_to_int", "Value::coerce_to_int", "Value::coerce_to_int_i64", "Value::coerce_to_f64"], &[]),
    ("op", "executor/op.rs", &["bigint_cmp_float", "cmp_ge_values_raw%ge", "cmp_eq_values%eq", "Executor::eq_values_vis", "Executor::ne_values_bool", "Executor::eq_values_bool", "Executor::compare_values", "Executor::compare_values_inner", "cmp_teq_values", "cmp_teq_case_values", "cmp_teq_values_bool", "neg_value_raw", "neg_value", "pos_value", "not_value", "bitnot_value", "bitnot_value_raw", "integer_index1"], &["invoke_method", "invoke_method_inner", "invoke_method_simple", "invoke_eq", "find_method"]),
    ("num_ops", "builtins/numeric.rs", &["add", "neg", "divmod@divmod", "pos@+@", "angle@angle"], &[]),
    ("integer", "builtins/numeric/integer.rs", &["hash@hash", "succ@succ", "to_f@to_f", "eql_@eql?", "bitand", "eq@==", "ne@!=", "cmp@<=>", "ge", "shr@>>", "shl@<<", "fold_shr", "fold_shl", "int_rem@%", "int_pow@**", "index@[]", "even_@even?", "odd_@odd?", "nonzero_@nonzero?", "zero_@zero?", "abs@abs", "pow@pow", "int_floor@floor", "int_ceil@ceil", "int_truncate@truncate", "int_round@round", "size@size", "bit_length@bit_length", "to_s@to_s"], &[]),
    ("float_half", "builtins/numeric/float.rs", &["parse_half_mode"], &[]),
    ("float_methods", "builtins/numeric/float.rs", &["toi@to_i", "div_floor@div", "eq@==", "ne@!=", "cmp@<=>", "ge@>=", "gt@>", "le@<=", "lt@<", "floor@floor", "ceil@ceil", "truncate@truncate", "round@round", "finite@finite?", "infinite@infinite?", "nan@nan?", "abs@abs", "next_float@next_float", "prev_float@prev_float", "quo@quo", "float_eql@eql?", "float_to_s@to_s", "float_to_r@to_r", "float_rationalize@rationalize", "hash@hash", "parse_half_mode"], &[]),
    ("int_cmp", "builtins/numeric/integer.rs", &["eq@==", "ne@!=", "cmp@<=>", "ge", "eql_@eql?", "int_rem@%", "hash@hash"], &[]),
    ("rational", "builtins/numeric/rational.rs", &["numerator@numerator", "denominator@denominator", "to_f@to_f", "to_i@to_i", "to_s@to_s", "inspect@inspect", "eq@==", "ne@!=", "cmp@<=>", "add@+", "sub@-", "mul@*", "div@/", "pow@**", "rat_floor@floor", "rat_ceil@ceil", "rat_truncate@truncate", "rat_round@round", "neg@-@", "abs@abs", "zero_@zero?", "positive_@positive?", "negative_@negative?", "hash@hash", "eql_@eql?"], &[]),
    ("array", "builtins/array.rs", &["size@size", "count@count", "empty@empty?", "hash@hash", "add@+", "sub@-", "mul@*", "and@&", "or@|", "shift@shift", "unshift@unshift", "concat@concat", "shl@<<", "push@push", "pop@pop", "eql@eql?", "eq@==", "cmp@<=>", "index@[]", "index_assign@[]=", "clear@clear", "replace@replace", "fill@fill", "drop@drop", "zip@zip", "inject@inject", "join@join", "first@first", "last@last", "fetch@fetch", "take@take", "sum@sum", "min@min", "max@max", "minmax@minmax", "partition@partition", "sort_@sort!", "sort@sort", "sort_by_@sort_by!", "sort_by@sort_by", "filter@filter", "filter_@filter!", "keep_if@keep_if", "reject@reject", "reject_@reject!", "delete_if@delete_if", "flat_map@flat_map", "all_@all?", "any_@any?", "detect@detect", "rfind@rfind", "include_@include?", "reverse@reverse", "reverse_@reverse!", "transpose@transpose", "rotate_@rotate!", "rotate@rotate", "product@product", "union@union", "difference@difference", "intersection@intersection", "intersect_@intersect?", "uniq@uniq", "uniq_@uniq!", "slice_@slice!", "flatten@flatten", "flatten_@flatten!", "compact@compact", "compact_@compact!", "delete@delete", "delete_at@delete_at", "find_index@find_index", "insert@insert"], &["try_convert_to_array"]),
    ("random", "builtins/random.rs", &["random_init_m@initialize", "inst_seed@seed", "inst_eq@==", "rand@rand", "random_rand@random_number", "random_bytes@bytes", "instance_bytes", "random_srand@srand", "RandomDraw::new", "RandomDraw::ulong_limited", "RandomDraw::finish"], &[]),
    ("json", "builtins/json.rs", &["json_parse@__json_parse", "json_generate@__json_generate"], &[]),
    ("kernel_rand", "builtins/kernel.rs", &["rand@rand"], &[]),
    ("array_random", "builtins/array.rs", &["shuffle@shuffle", "shuffle_@shuffle!", "sample@sample"], &[]),
    ("coerce_ary", "value/coerce.rs", &["Value::coerce_to_array", "Value::coerce_to_str", "Value::coerce_to_string"], &[]),
    ("hash_methods", "builtins/hash.rs", &["hash_bracket@[]", "default@default", "size@size", "empty_@empty?", "eq@==", "eql@eql?", "hash@hash", "lt@<", "le@<=", "gt@>", "ge@>=", "index_assign@store", "index@[]", "clear@clear", "replace@replace", "keys@keys", "values@values", "clone@clone", "delete@delete", "select@select", "select_@select!", "include@include?", "reject@reject", "delete_if@delete_if", "reject_@reject!", "assoc@assoc", "rassoc@rassoc", "invert@invert", "merge@merge", "merge_@merge!", "compare_by_identity@compare_by_identity", "compare_by_identity_@compare_by_identity?", "values_at@values_at", "fetch@fetch", "shift@shift", "key@key", "keep_if@keep_if"], &[]),
    ("set_methods", "builtins/set.rs", &["set_index@[]", "add@add", "add_q@add?", "teq@===", "size@size", "empty_@empty?", "clear@clear", "delete@delete", "delete_q@delete?", "each@each", "to_a@to_a", "dup@dup", "merge@merge", "subtract@subtract", "replace@replace", "intersection@&", "union_@|", "difference@-", "symmetric_difference@^", "eq@==", "subset_@subset?", "superset_@superset?", "proper_subset_@<", "proper_superset_@>", "spaceship@<=>", "disjoint_@disjoint?", "intersect_@intersect?", "delete_if@delete_if", "keep_if@keep_if", "select_@select!", "reject_@reject!", "collect_@collect!", "flatten@flatten", "flatten_@flatten!", "classify@classify", "set_hash@hash", "compare_by_identity@compare_by_identity", "compare_by_identity_q@compare_by_identity?"], &[]),
    ("paths", "builtins/file.rs", &["file_join@join", "file_expand_path@expand_path", "file_basename@basename", "file_extname@extname", "absolute_path@absolute_path", "absolute_path_@absolute_path?", "file_split@split"], &[]),
    ("string_heads", "builtins/string.rs", &["enc_char_boundary"], &[]),
    ("coerce_path", "value/coerce.rs", &["Value::coerce_to_integer", "Value::coerce_to_float", "Value::coerce_to_char", "Value::coerce_to_s", "Value::coerce_to_pack_u64", "Value::coerce_to_rstring", "Value::coerce_to_string", "Value::coerce_to_int_i64", "Value::coerce_to_str", "Value::coerce_to_path_rstring_allow_nul"], &[]),
    ("encoding_units", "builtins/encoding.rs", &["decode_utf16_32", "encode_utf16_32"], &[]),
];

/// What a piece of source mentions.
#[derive(Default)]
struct Mentions {
    /// Names that may stand for items.
    names: BTreeSet<String>,
    /// Those that are called.
    calls: BTreeSet<String>,
    /// Names behind a dot or a type.
    members: BTreeSet<String>,
    macros: BTreeSet<String>,
}

impl Mentions {
    fn size(&self) -> usize {
        self.names.len() + self.calls.len() + self.members.len() + self.macros.len()
    }
    fn extend(&mut self, o: Mentions) {
        self.names.extend(o.names);
        self.calls.extend(o.calls);
        self.members.extend(o.members);
        self.macros.extend(o.macros);
    }
}

fn mentions(ts: TokenStream, out: &mut Mentions) {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let punct = |i: usize, c: char| matches!(ts.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    for (i, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Ident(id) => {
                let n = id.to_string();
                let dot = i > 0 && punct(i - 1, '.') && !(i > 1 && punct(i - 2, '.'));
                let path = i > 2 && punct(i - 1, ':') && punct(i - 2, ':');
                let of_type = path
                    && match &ts[i - 3] {
                        TokenTree::Ident(t) => t.to_string().starts_with(char::is_uppercase),
                        _ => true,
                    };
                if punct(i + 1, '!') && !punct(i + 2, '=') {
                    out.macros.insert(n);
                } else if dot || of_type {
                    out.members.insert(n);
                } else {
                    if matches!(ts.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) {
                        out.calls.insert(n.clone());
                    }
                    out.names.insert(n);
                }
            }
            TokenTree::Group(g) => mentions(g.stream(), out),
            _ => {}
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")))
}

fn plain(attrs: &mut Vec<syn::Attribute>) {
    attrs.retain(|a| ["derive", "repr", "inline", "cfg", "allow", "must_use", "default", "cold"].iter().any(|n| a.path().is_ident(n)));
}

fn attrs(item: &mut Item) -> Option<&mut Vec<syn::Attribute>> {
    Some(match item {
        Item::Fn(i) => &mut i.attrs,
        Item::Struct(i) => &mut i.attrs,
        Item::Enum(i) => &mut i.attrs,
        Item::Const(i) => &mut i.attrs,
        Item::Static(i) => &mut i.attrs,
        Item::Type(i) => &mut i.attrs,
        Item::Trait(i) => &mut i.attrs,
        Item::Impl(i) => &mut i.attrs,
        Item::Use(i) => &mut i.attrs,
        Item::Macro(i) => &mut i.attrs,
        _ => return None,
    })
}

fn name(item: &Item) -> Option<String> {
    Some(match item {
        Item::Fn(i) => i.sig.ident.to_string(),
        Item::Struct(i) => i.ident.to_string(),
        Item::Enum(i) => i.ident.to_string(),
        Item::Const(i) => i.ident.to_string(),
        Item::Static(i) => i.ident.to_string(),
        Item::Type(i) => i.ident.to_string(),
        Item::Trait(i) => i.ident.to_string(),
        Item::Macro(i) => i.ident.as_ref()?.to_string(),
        _ => return None,
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn open(item: &mut Item) {
    let p: Visibility = parse_quote!(pub);
    match item {
        Item::Fn(i) => i.vis = p,
        Item::Struct(i) => {
            i.vis = p.clone();
            for f in &mut i.fields {
                f.vis = p.clone();
                plain(&mut f.attrs);
            }
        }
        Item::Enum(i) => i.vis = p,
        Item::Const(i) => i.vis = p,
        Item::Static(i) => i.vis = p,
        Item::Type(i) => i.vis = p,
        Item::Trait(i) => i.vis = p,
        _ => {}
    }
}

/// The leaves of a use tree, each with its path.
fn leaves(tree: &syn::UseTree, path: Vec<syn::Ident>, out: &mut Vec<(String, TokenStream)>) {
    let join = |path: &[syn::Ident]| quote!(#(#path)::*);
    match tree {
        syn::UseTree::Path(p) => {
            let mut path = path;
            path.push(p.ident.clone());
            leaves(&p.tree, path, out);
        }
        syn::UseTree::Name(n) => {
            let id = &n.ident;
            if id == "self" {
                let p = join(&path);
                out.push((path.last().unwrap().to_string(), quote!(#p)));
            } else if path.is_empty() {
                out.push((id.to_string(), quote!(#id)));
            } else {
                let p = join(&path);
                out.push((id.to_string(), quote!(#p::#id)));
            }
        }
        syn::UseTree::Rename(r) => {
            let (id, p, as_) = (&r.ident, join(&path), &r.rename);
            let p = if path.is_empty() { quote!(#id) } else { quote!(#p::#id) };
            out.push((as_.to_string(), quote!(#p as #as_)));
        }
        syn::UseTree::Glob(_) => {
            // only what surrounds the file has a stand-in
            if path.iter().all(|i| i == "super" || i == "crate") {
                let p = join(&path);
                out.push(("*".into(), quote!(#p::*)));
            }
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                leaves(t, path.clone(), out);
            }
        }
    }
}

/// A function of a trait is used without its name being said.
fn has_fns(used: &str) -> bool {
    ["Signed", "ToPrimitive", "Zero", "One", "Integer", "FromPrimitive", "Num", "Write", "Read", "FromStr", "Hash", "Hasher", "OsStrExt", "OsStringExt", "Pow"].contains(&used)
}

/// A macro call that defines items, and mentions a word.
fn defines(item: &Item, word: &str) -> bool {
    let Item::Macro(m) = item else { return false };
    if m.ident.is_some() {
        return false;
    }
    let mut said = Mentions::default();
    mentions(m.mac.tokens.clone(), &mut said);
    said.names.contains(word)
}

/// Without the marks of builtin functions, which stand-ins do not know.
fn unmarked(ts: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < ts.len() {
        let mark = matches!(&ts[i], TokenTree::Punct(p) if p.as_char() == '#')
            && matches!(ts.get(i + 1), Some(TokenTree::Group(g)) if g.stream().to_string() == "monoruby_builtin");
        if mark {
            i += 2;
            continue;
        }
        out.extend([match &ts[i] {
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), unmarked(g.stream()))),
            t => t.clone(),
        }]);
        i += 1;
    }
    out
}

/// The function a method of the language is registered with: `"method", function` or
/// `"method", &["another name"], function`.
fn registered(ts: TokenStream, method: &str) -> Option<String> {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    ts.iter().enumerate().find_map(|(i, t)| match t {
        TokenTree::Group(g) => registered(g.stream(), method),
        TokenTree::Literal(l) if l.to_string() == format!("{method:?}") => ts[i + 1..]
            .iter()
            .find(|t| !matches!(t, TokenTree::Punct(p) if ",&".contains(p.as_char())) && !matches!(t, TokenTree::Group(_)))
            .and_then(|t| match t {
                TokenTree::Ident(f) => Some(f.to_string()),
                _ => None,
            }),
        _ => None,
    })
}

fn slice(file: &str, roots: &[&str], stop: &[&str]) -> Result<String, String> {
    let path = format!("{SRC}{file}");
    println!("cargo:rerun-if-changed={path}");
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
    let mut items: Vec<Item> = file.items;
    // methods of the language bear short names, like variables do
    let mut builtin: BTreeSet<String> = BTreeSet::new();
    items.retain_mut(|i| match attrs(i) {
        Some(a) => {
            let keep = !is_test(a);
            if a.iter().any(|a| a.path().is_ident("monoruby_builtin")) {
                builtin.extend(name(i));
                return keep;
            }
            plain(a);
            keep
        }
        None => false,
    });
    let mut by_name: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (k, i) in items.iter().enumerate() {
        if let Some(n) = name(i) {
            by_name.entry(n).or_default().push(k);
        }
    }
    let mut own: BTreeSet<String> = items
        .iter()
        .filter(|i| matches!(i, Item::Struct(_) | Item::Enum(_)))
        .filter_map(name)
        .collect();
    let mut seen = Mentions::default();
    let mut wanted: BTreeSet<usize> = BTreeSet::new();
    let mut methods: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut rooted: BTreeSet<(String, String)> = BTreeSet::new();
    let mut renamed: Vec<(String, String)> = vec![];
    for r in roots {
        let (r, word) = r.split_once('%').unwrap_or((r, ""));
        let (r, method) = r.split_once('@').unwrap_or((r, ""));
        match r.split_once("::") {
            Some((t, m)) => {
                own.insert(t.into());
                seen.names.insert(t.into());
                rooted.insert((t.into(), m.into()));
            }
            None => {
                let mut found = r.to_string();
                let word = if word.is_empty() { r } else { word };
                if !by_name.contains_key(r) && items.iter().any(|i| defines(i, word)) {
                    for (k, i) in items.iter().enumerate() {
                        if defines(i, word) && wanted.insert(k) {
                            mentions(i.to_token_stream(), &mut seen);
                        }
                    }
                    continue;
                }
                if !by_name.contains_key(r) {
                    match items.iter().find_map(|i| registered(i.to_token_stream(), method)) {
                        Some(f) if by_name.contains_key(&f) => found = f,
                        _ => return Err(format!("{path} has no {r}")),
                    }
                    renamed.push((found.clone(), r.to_string()));
                }
                seen.names.insert(found.clone());
                seen.calls.insert(found);
            }
        }
    }
    loop {
        let before = (wanted.len(), methods.len(), seen.size());
        let mut fresh = Mentions::default();
        for n in seen.names.iter().chain(&seen.macros) {
            if stop.contains(&n.as_str()) {
                continue;
            }
            for k in by_name.get(n).into_iter().flatten() {
                let fits = match items[*k] {
                    Item::Macro(_) => seen.macros.contains(n),
                    _ if builtin.contains(n) => seen.calls.contains(n),
                    _ => seen.names.contains(n),
                };
                if fits && wanted.insert(*k) {
                    mentions(items[*k].to_token_stream(), &mut fresh);
                }
            }
        }
        for (k, i) in items.iter().enumerate() {
            let Item::Impl(im) = i else { continue };
            let t = type_name(&im.self_ty);
            let mine = own.contains(&t) && seen.names.contains(&t) && !stop.contains(&t.as_str());
            if let Some((_, tr, _)) = &im.trait_ {
                let tr = tr.segments.last().unwrap().ident.to_string();
                let mine = mine && !stop.contains(&format!("{tr} for {t}").as_str());
                if mine && wanted.insert(k) {
                    mentions(i.to_token_stream(), &mut fresh);
                }
                continue;
            }
            for (m, it) in im.items.iter().enumerate() {
                let n = match it {
                    ImplItem::Fn(f) => f.sig.ident.to_string(),
                    ImplItem::Const(c) => c.ident.to_string(),
                    _ => continue,
                };
                let root = rooted.contains(&(t.clone(), n.clone()));
                if (root || (mine && seen.members.contains(&n))) && !stop.contains(&n.as_str()) && methods.insert((k, m)) {
                    mentions(it.to_token_stream(), &mut fresh);
                    fresh.names.insert(t.clone());
                }
            }
        }
        seen.extend(fresh);
        if before == (wanted.len(), methods.len(), seen.size()) {
            break;
        }
    }
    for (t, m) in &rooted {
        let found = methods.iter().any(|(k, j)| {
            let Item::Impl(im) = &items[*k] else { return false };
            type_name(&im.self_ty) == *t && matches!(&im.items[*j], ImplItem::Fn(f) if f.sig.ident == *m)
        });
        if !found {
            return Err(format!("{path} has no {t}::{m}"));
        }
    }
    let mut lines: Vec<String> = vec![];
    for (k, mut i) in items.into_iter().enumerate() {
        let mut out = TokenStream::new();
        match &mut i {
            Item::Use(u) => {
                let mut l = vec![];
                leaves(&u.tree, vec![], &mut l);
                for (n, path) in l {
                    if n == "*" || seen.names.contains(&n) || seen.macros.contains(&n) || has_fns(&n) {
                        out.extend(quote!(#[allow(unused_imports)] use #path;));
                    }
                }
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let mut m = 0;
                im.items.retain_mut(|it| {
                    let keep = methods.contains(&(k, m));
                    m += 1;
                    match it {
                        ImplItem::Fn(f) => {
                            plain(&mut f.attrs);
                            f.vis = parse_quote!(pub);
                        }
                        ImplItem::Const(c) => {
                            plain(&mut c.attrs);
                            c.vis = parse_quote!(pub);
                        }
                        _ => {}
                    }
                    keep
                });
                if !im.items.is_empty() {
                    i.to_tokens(&mut out);
                }
            }
            _ if wanted.contains(&k) => {
                open(&mut i);
                if let Some(a) = attrs(&mut i) {
                    plain(a);
                }
                if let Item::Macro(m) = &mut i {
                    m.mac.tokens = unmarked(m.mac.tokens.clone());
                }
                i.to_tokens(&mut out);
            }
            _ => {}
        }
        lines.push(out.to_string());
    }
    for (found, r) in &renamed {
        let (found, r) = (quote::format_ident!("{found}"), quote::format_ident!("{r}"));
        lines.push(quote!(pub use self::#found as #r;).to_string());
    }
    Ok(lines.join("\n"))
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let dir = std::env::var("OUT_DIR").unwrap();
    for (name, file, roots, stop) in SLICES {
        let text = slice(file, roots, stop).unwrap_or_else(|e| format!("compile_error!({e:?});"));
        std::fs::write(format!("{dir}/{name}.rs"), text).unwrap();
    }
}
