//! Generated plan collections: the operations must follow whatever plans they are given, not the plans shipped today.
//! A collection is a handful of territories recombined from the published document (so that every one of them is a
//! document the metadata generator accepts), handed to the library in the generator's output form and to the reference
//! model as the document. Then the monitors of the other properties watch it.
use crate::core::*;
use crate::api::Api;
use crate::gen::{self, HOT};
use crate::meta::{Fmt, Meta, Terr, Ty, TYPES};
use crate::model::Model;
use crate::props as p;
use crate::rng::Rng;
use crate::xml::{self, Node};
use rlibphonenumber::{phonemetadata as pb, PhoneNumberUtil};
use std::sync::OnceLock;

/// territories of the shipped document
fn shipped(repo: &str) -> &'static [Node] {
    static ALL: OnceLock<Vec<Node>> = OnceLock::new();
    ALL.get_or_init(|| {
        let src = std::fs::read_to_string(format!("{repo}/resources/PhoneNumberMetadata.xml")).expect("document");
        let mut v: Vec<Node> = xml::parse(&src).expect("document").all("territory").into_iter().cloned().collect();
        v.extend(testing(repo).iter().cloned());
        v
    })
}
/// the territories upstream invents for its own tests
fn testing(repo: &str) -> &'static [Node] {
    static ALL: OnceLock<Vec<Node>> = OnceLock::new();
    ALL.get_or_init(|| match std::fs::read_to_string(format!("{repo}/resources/PhoneNumberMetadataForTesting.xml")) {
        Ok(src) => xml::parse(&src).expect("testing document").all("territory").into_iter().cloned().collect(),
        Err(_) => vec![],
    })
}
pub fn rules(fmts: &[Fmt]) -> Vec<pb::NumberFormat> {
    fmts.iter().map(|f| {
        let mut o = pb::NumberFormat::new();
        o.set_pattern(f.pattern.src.clone());
        o.set_format(f.format.clone());
        o.leading_digits_pattern = f.leading.iter().map(|l| l.src.clone()).collect();
        if !f.np_rule.is_empty() { o.set_national_prefix_formatting_rule(f.np_rule.clone()); }
        if f.np_optional { o.set_national_prefix_optional_when_formatting(true); }
        if !f.cc_rule.is_empty() { o.set_domestic_carrier_code_formatting_rule(f.cc_rule.clone()); }
        o
    }).collect()
}
/// a territory in the form the metadata generator writes
pub fn compile(t: &Terr) -> pb::PhoneMetadata {
    let mut o = pb::PhoneMetadata::new();
    o.set_id(t.id.clone());
    o.set_country_code(t.cc);
    if !t.intl_prefix.is_empty() { o.set_international_prefix(t.intl_prefix.src.clone()); }
    if let Some(x) = &t.pref_intl_prefix { o.set_preferred_international_prefix(x.clone()); }
    if !t.np.is_empty() { o.set_national_prefix(t.np.clone()); }
    if !t.np_for_parsing.is_empty() { o.set_national_prefix_for_parsing(t.np_for_parsing.src.clone()); }
    if !t.np_transform.is_empty() { o.set_national_prefix_transform_rule(t.np_transform.clone()); }
    if let Some(x) = &t.ext_prefix { o.set_preferred_extn_prefix(x.clone()); }
    if let Some(x) = &t.leading { o.set_leading_digits(x.src.clone()); }
    if t.main { o.set_main_country_for_code(true); }
    if t.mnp { o.set_mobile_number_portable_region(true); }
    if t.same_fm { o.set_same_mobile_and_fixed_line_pattern(true); }
    o.number_format = rules(&t.fmts);
    o.intl_number_format = rules(&t.ifmts);
    for (ty, _) in TYPES {
        let d = t.d(ty);
        let mut x = pb::PhoneNumberDesc::new();
        if d.has_pattern { x.set_national_number_pattern(d.pattern.src.clone()); }
        x.possible_length = d.lengths.clone();
        x.possible_length_local_only = d.local.clone();
        if let Some(e) = &d.example { x.set_example_number(e.clone()); }
        let slot = match ty {
            Ty::General => &mut o.general_desc, Ty::FixedLine => &mut o.fixed_line, Ty::Mobile => &mut o.mobile, Ty::TollFree => &mut o.toll_free,
            Ty::Premium => &mut o.premium_rate, Ty::SharedCost => &mut o.shared_cost, Ty::Personal => &mut o.personal_number, Ty::Voip => &mut o.voip,
            Ty::Pager => &mut o.pager, Ty::Uan => &mut o.uan, Ty::Voicemail => &mut o.voicemail, Ty::NoIntl => &mut o.no_international_dialling,
        };
        *slot = protobuf::MessageField::some(x);
    }
    o
}
fn el(name: &str, attrs: &[(&str, &str)], children: Vec<Node>, text: &str) -> Node {
    Node { name: name.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), children, text: text.into() }
}
fn uses_np(t: &Node) -> bool {
    fn any(n: &Node) -> bool { n.attrs.iter().any(|(_, v)| v.contains("$NP")) || n.children.iter().any(any) }
    any(t)
}
const TAGS: [&str; 11] = ["fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "voicemail", "noInternationalDialling"];
const SPECIAL: [i32; 20] = [1, 1, 1, 7, 39, 44, 52, 52, 54, 54, 55, 55, 56, 62, 86, 86, 378, 800, 998, 247];
fn formats(t: &mut Node) -> Option<&mut Vec<Node>> { t.child_mut("availableFormats").map(|a| &mut a.children) }
fn twist(r: &mut Rng, t: &mut Node, all: &[Node]) {
    let other = r.pick(all);
    match r.below(19) {
        0 => { t.set("nationalPrefix", r.pick(&["0", "1", "8", "06", "9", "44", "0~0", "01"])); }
        1 => if !uses_np(t) { t.unset("nationalPrefix"); },
        2 => for a in ["nationalPrefixForParsing", "nationalPrefixTransformRule"] { match other.attr(a) { Some(v) => t.set(a, v), None => t.unset(a) } },
        3 => {
            t.unset("nationalPrefixTransformRule");
            let (x, y) = *r.pick(&[("(?:0|1)", ""), ("0(4\\d)?", ""), ("(1\\d)|0", ""), ("0?(9\\d)?(\\d{6})", "5$2"), ("0(1\\d)?(\\d{7})", "$2"), ("0", "7"), ("(\\d{2})(\\d{5})", "0$2$1"), ("00?", ""), ("(5)", "1$1"), ("\\d", ""), ("0(\\d{1,3}?)", "")]);
            t.set("nationalPrefixForParsing", x);
            if !y.is_empty() { t.set("nationalPrefixTransformRule", y); }
        }
        4 => { for a in ["nationalPrefixForParsing", "nationalPrefixTransformRule"] { t.unset(a); } }
        5 => {
            t.set("internationalPrefix", r.pick(&["00", "011", "0", "810", "8~10", "00|011|119", "0(?:0|1[2-5])", "1\\d?", "0\\d{1,2}", "9", "00~0", "[09]0", "00[1-9]{2}", "0011", "8\u{223c}10"]));
            if r.chance(1, 2) { t.unset("preferredInternationalPrefix"); } else if r.chance(1, 2) { t.set("preferredInternationalPrefix", r.pick(&["00", "0011", "8~10", "011", "1", "0"])); }
        }
        6 => match r.below(3) { 0 => t.unset("preferredExtnPrefix"), _ => t.set("preferredExtnPrefix", r.pick(&[" x", " \u{434}\u{43e}\u{431}. ", " int. ", "#", " ~ ", ";", ",", " ext ", " anexo "])) },
        7 => { t.set("leadingDigits", r.pick(&["[2-5]", "9|8[01]", "0", "1", "[6-9]\\d", "7[06]", "3(?:1|2)", "[1-9]"])); }
        8 => t.unset("leadingDigits"),
        9 => { t.children.retain(|c| c.name != "availableFormats"); if let Some(f) = other.child("availableFormats") { if t.attr("nationalPrefix").is_some() || !uses_np(f) { t.children.insert(0, f.clone()); } } }
        10 => { let k = r.below(3); if let Some(f) = formats(t) { if f.len() > 1 { match k { 0 => f.reverse(), 1 => { let i = r.below(f.len() - 1); f.swap(i, i + 1) } _ => { let i = r.below(f.len()); f.remove(i); } } } } }
        11 => {
            let np = t.attr("nationalPrefix").is_some();
            let rule = *r.pick(if np { &["$NP$FG", "($NP$FG)", "$NP $FG", "$FG", "$NP-$FG", "($FG)", "[$NP] $FG"][..] } else { &["$FG", "($FG)", "8 $FG", "[$FG]"][..] });
            if r.chance(1, 2) { t.set("nationalPrefixFormattingRule", rule); } else if let Some(f) = formats(t) { if !f.is_empty() { let i = r.below(f.len()); f[i].set("nationalPrefixFormattingRule", rule); } }
        }
        12 => {
            let np = t.attr("nationalPrefix").is_some();
            let rule = *r.pick(if np { &["$NP$CC $FG", "$CC $FG", "($NP $CC $FG)", "$NP $CC-$FG", "$FG $CC"][..] } else { &["$CC $FG", "($CC) $FG", "$CC$FG"][..] });
            if r.chance(1, 3) { t.set("carrierCodeFormattingRule", rule); } else if let Some(f) = formats(t) { if !f.is_empty() { let i = r.below(f.len()); f[i].set("carrierCodeFormattingRule", rule); } }
        }
        13 => {
            // an international rule for one of the formats: not applicable, or grouped in another way
            let k = r.below(4);
            if let Some(f) = formats(t) { if !f.is_empty() {
                let i = r.below(f.len());
                let n = regex::Regex::new(f[i].attr("pattern").unwrap_or("")).map(|x| x.captures_len() - 1).unwrap_or(1);
                f[i].children.retain(|c| c.name != "intlFormat");
                let x = match k { 0 => "NA".to_string(), 1 => (1..=n).map(|g| format!("${g}")).collect::<Vec<_>>().join("/"), 2 => (1..=n).map(|g| format!("${g}")).collect::<Vec<_>>().join(" "), _ if n > 1 => format!("($1) {}", (2..=n).map(|g| format!("${g}")).collect::<Vec<_>>().join(" ")), _ => "$1".into() };
                f[i].children.push(el("intlFormat", &[], vec![], &x));
            } }
        }
        14 => {
            // another rule at the head or the end of the list
            let (p, f) = *r.pick(&[("(\\d{3})(\\d+)", "$1 $2"), ("(\\d{2})(\\d{3})(\\d{3,4})", "$1-$2-$3"), ("(\\d)(\\d{4})(\\d{2,6})", "($1) $2 $3"), ("(\\d{4,7})", "$1"), ("(\\d{2,3})(\\d{2})(\\d{2})(\\d{2})(\\d{1,3})", "$1 $2.$3/$4-$5"), ("(0)(\\d+)", "$1~$2"), ("(\\d{2})(\\d{2})(\\d+)", "$1/$2-$3"), ("(\\d)(\\d)(\\d)(\\d)(\\d)(\\d+)", "$1 $2 $3 $4 $5 $6")]);
            let mut c: Vec<Node> = (0..r.below(3)).map(|_| el("leadingDigits", &[], vec![], r.pick(&["[2-9]", "1|0", "[1-4]", "5(?:0|1)", "8", "[3-7]\\d"]))).collect();
            c.push(el("format", &[], vec![], f));
            if r.chance(1, 4) { let x = if r.chance(1, 3) { "NA".to_string() } else { f.replace(' ', "/") }; c.push(el("intlFormat", &[], vec![], &x)); }
            let x = el("numberFormat", &[("pattern", p)], c, "");
            let head = r.chance(1, 2);
            match formats(t) { Some(v) => if head { v.insert(0, x) } else { v.push(x) }, None => t.children.insert(0, el("availableFormats", &[], vec![x], "")) }
        }
        15 => { let tag = *r.pick(&TAGS); t.children.retain(|c| c.name != tag); if let Some(c) = other.child(tag) { t.children.push(c.clone()); } }
        16 => { let tag = *r.pick(&TAGS); let from = *r.pick(&TAGS); if let Some(mut c) = t.child(from).cloned() { c.name = tag.into(); t.children.retain(|c| c.name != tag); t.children.push(c); } }
        17 => {
            // other lengths for one type
            let tag = *r.pick(&TAGS);
            let (nat, loc) = *r.pick(&[("[5-9]", ""), ("7,9", ""), ("[4-12]", ""), ("8", "6"), ("10", "7"), ("[6-8],11", "5"), ("3,[9-11]", "[6-8]"), ("[14-17]", ""), ("2", "")]);
            if let Some(c) = t.child_mut(tag) {
                c.children.retain(|x| x.name != "possibleLengths");
                let mut a = vec![("national", nat)];
                if !loc.is_empty() { a.push(("localOnly", loc)); }
                c.children.insert(0, el("possibleLengths", &a, vec![], ""));
            }
        }
        _ => {
            let x = *r.pick(&["\\d{4,11}", "[1-9]\\d{5,10}", "\\d{2,17}", "0\\d{6,9}|[1-9]\\d{4,9}", "[2-9]\\d{6,9}"]);
            let tag = if r.chance(2, 3) { "generalDesc" } else { *r.pick(&TAGS) };
            if let Some(c) = t.child_mut(tag) { if let Some(n) = c.child_mut("nationalNumberPattern") { n.text = x.into(); } }
        }
    }
}
/// replaces the kinds of numbers a territory has, each taken from any other
fn kinds(r: &mut Rng, t: &mut Node, all: &[Node]) {
    t.children.retain(|c| !TAGS.contains(&c.name.as_str()));
    for tag in TAGS { if r.chance(1, 3) { if let Some(c) = (0..9).find_map(|_| r.pick(all).child(tag).cloned()) { t.children.push(c); } } }
}
/// a collection of global networks only
pub fn networks(r: &mut Rng, repo: &str) -> Vec<Node> {
    let all = shipped(repo);
    let mut codes: Vec<i32> = vec![];
    while codes.len() < 12 { let c = r.range(200, 999) as i32; if !codes.contains(&c) { codes.push(c); } }
    codes.iter().map(|cc| {
        let mut t = r.pick(all).clone();
        t.set("id", "001");
        t.set("countryCode", &cc.to_string());
        t.unset("mainCountryForCode");
        kinds(r, &mut t, all);
        if !TAGS[..10].iter().any(|g| t.child(g).map(|c| c.child("possibleLengths").is_some()).unwrap_or(false)) { if let Some(f) = all[0].child("fixedLine") { t.children.push(f.clone()); } }
        t
    }).collect()
}
/// a collection of territories, in document form
pub fn document(r: &mut Rng, all: &[Node]) -> Vec<Node> {
    let mut codes: Vec<i32> = vec![];
    let want = r.range(1, 4);
    // assigned codes never begin with one another, but nothing enforces it: the shortest is the one that counts
    let overlapping = r.chance(1, 10);
    for _ in 0..60 {
        if codes.len() == want { break; }
        let c = match r.below(4) { 0 | 1 => *r.pick(&SPECIAL), 2 => r.pick(all).attr("countryCode").and_then(|c| c.parse().ok()).unwrap_or(33), _ => r.range(2, 999) as i32 };
        let c = match codes.last() { Some(l) if overlapping && *l < 100 => l * 10 + r.below(10) as i32, _ => c };
        let s = c.to_string();
        if overlapping && !codes.contains(&c) { codes.push(c); continue; }
        if codes.iter().any(|o| { let o = o.to_string(); o.starts_with(&s) || s.starts_with(&o) }) { continue; }
        codes.push(c);
    }
    let mut out: Vec<Node> = vec![];
    let mut ids: Vec<String> = vec![];
    for (k, cc) in codes.iter().enumerate() {
        let entity = k > 0 && *cc != 1 && r.chance(1, 4);
        let n = if entity { 1 } else { *r.pick(&[1, 1, 1, 2, 2, 3, 5]) };
        let main = if r.chance(7, 8) { r.below(n) } else { n };
        for i in 0..n {
            let same: Vec<&Node> = all.iter().filter(|t| t.attr("countryCode").map(|c| c == cc.to_string()).unwrap_or(false) && t.attr("id") != Some("001")).collect();
            let mut t = match r.below(8) {
                0..=2 if !same.is_empty() => (*r.pick(&same)).clone(),
                _ if entity && r.chance(1, 2) => r.pick(&all.iter().filter(|t| t.attr("id") == Some("001")).collect::<Vec<_>>()).to_owned().clone(),
                7 => { let k = *r.pick(&HOT); all.iter().find(|t| t.attr("id") == Some(k)).unwrap_or(&all[0]).clone() }
                _ => r.pick(all).clone(),
            };
            let id = if entity { "001".to_string() } else { (0..).map(|_| match r.below(4) { 0 => format!("{}{}", (b'A' + r.below(26) as u8) as char, (b'A' + r.below(26) as u8) as char), 1 => r.pick(&HOT).to_string(), 2 => r.pick(&["US", "BR", "MX", "CL", "UZ", "CO", "CR"]).to_string(), _ => t.attr("id").unwrap_or("QQ").to_string() }).find(|x| !ids.contains(x) && x != "ZZ" && x != "001").unwrap() };
            if !entity { ids.push(id.clone()); }
            t.set("id", &id);
            t.set("countryCode", &cc.to_string());
            t.unset("mainCountryForCode");
            for _ in 0..*r.pick(&[0, 1, 2, 3, 4, 6, 9]) { twist(r, &mut t, all); }
            if entity && r.chance(1, 2) { kinds(r, &mut t, all); }
            if i == main && (n > 1 || r.chance(1, 4)) { t.set("mainCountryForCode", "true"); }
            if uses_np(&t) && t.attr("nationalPrefix").is_none() { t.set("nationalPrefix", "0"); }
            if !TAGS[..10].iter().any(|g| t.child(g).map(|c| c.child("possibleLengths").is_some()).unwrap_or(false)) { if let Some(f) = all[0].child("fixedLine") { t.children.push(f.clone()); } }
            out.push(t);
        }
    }
    for i in (1..out.len()).rev() { let j = r.below(i + 1); out.swap(i, j); }
    out
}
fn show(n: &Node, out: &mut String) {
    out.push_str(&format!("<{}", n.name));
    for (k, v) in &n.attrs { out.push_str(&format!(" {k}={v:?}")); }
    out.push('>');
    if n.children.is_empty() { out.extend(n.text.trim().split_whitespace()); }
    for c in &n.children { if c.name != "references" && c.name != "exampleNumber" { show(c, out); } }
    out.push_str("</>");
}
const SUBS: [(&str, CaseFn); 36] = [
    ("C02", p::c02), ("C03", p::c03_respell), ("C03v", p::c03_vanity), ("C04", p::c04), ("C04l", p::c04_lengths), ("C04c", p::c04_codes), ("C05", p::c05_parse), ("C05u", p::c05_unviable), ("C05f", p::c05_format),
    ("C06", p::c06), ("C06o", p::c06_order), ("C07", p::c07), ("C07c", p::c07_code), ("C08", p::c08), ("C09", p::c09), ("C09a", p::c09_any), ("C10", p::c10), ("C11a", p::c11_any), ("C12r", p::c12_regions), ("C12c", p::c12_codes),
    ("C12u", p::c12_unknown), ("C14", p::c14), ("C15", p::c15_formats), ("C15a", p::c15_any), ("C16", p::c16), ("C17", p::c17), ("C18", p::c18), ("C18d", p::c18_dressed), ("C19", p::c19), ("C20", p::c20), ("C21", p::c21),
    ("C22", p::c22), ("C23", p::c23), ("C24", p::c24), ("C05p", p::c05_parse), ("C07d", p::c07),
];
/// runs `f` over one generated collection of plans
pub fn over_plans(c: &mut Case, doc: Option<Vec<Node>>, f: impl FnOnce(&mut Case)) {
    let all = shipped(&c.e.repo);
    let test = testing(&c.e.repo);
    let doc = if let Some(doc) = doc { doc } else if c.idx % 16 == 0 && !test.is_empty() { c.count("upstream_test_plans"); test.to_vec() } else { document(&mut c.r, all) };
    let meta = Meta::of(doc.iter()).expect("generated document");
    let mut coll = pb::PhoneMetadataCollection::new();
    coll.metadata = meta.terrs.iter().map(compile).collect();
    c.count("plan_collections");
    c.add("territories", meta.terrs.len() as u64);
    if meta.by_cc.values().any(|v| v.len() > 1) { c.count("collections_with_a_shared_code"); }
    if !meta.nongeo.is_empty() { c.count("collections_with_a_global_network"); }
    c.seen(&meta.terrs.iter().map(|t| format!("{} {}{}", t.id, t.cc, if t.main { " main" } else { "" })).collect::<Vec<_>>().join(", "));
    let meta: *mut Meta = Box::into_raw(Box::new(meta));
    let util: *mut PhoneNumberUtil = Box::into_raw(Box::new(PhoneNumberUtil::verif_with_metadata(coll)));
    // both live until the end of this function (a panic below leaks them)
    let (m, u): (&'static Meta, &'static PhoneNumberUtil) = unsafe { (&*meta, &*util) };
    let e = Env { meta: m, model: Model::new(m), util: u, words: c.e.words.clone(), seed: c.e.seed, thorough: c.e.thorough, repo: c.e.repo.clone(), synthetic: true };
    let before = c.o.violations.len();
    {
        let mut inner = Case { e: &e, api: Api { u }, r: c.r.clone(), o: &mut *c.o, idx: c.idx, stream: c.stream };
        f(&mut inner);
    }
    if c.o.violations.len() > before {
        let mut s = String::new();
        for t in &doc { show(t, &mut s); s.push('\n'); }
        for v in &mut c.o.violations[before..] { v.idx = c.idx; v.msg = format!("{}\nplans: {s}", v.msg); }
    }
    drop(e);
    unsafe { drop(Box::from_raw(util)); drop(Box::from_raw(meta)); }
    if c.o.counters["plan_collections"] % 64 == 0 { gen::forget(); }
}
/// `n` cases picked from the given monitors
pub fn run_subs(c: &mut Case, subs: &[(&str, CaseFn)], n: usize) {
    let idx = c.idx;
    for _ in 0..n {
        let (name, f) = *c.r.pick(subs);
        c.idx = c.r.below(1 << 20) as u64;
        let before = c.o.violations.len();
        f(c);
        c.count("sub_cases");
        for v in &mut c.o.violations[before..] { v.sig = format!("{name}:{}", v.sig); }
        if c.o.violations.len() > before + 2 { break; }
    }
    c.idx = idx;
}
pub fn c31(c: &mut Case) { over_plans(c, None, |c| run_subs(c, &SUBS, 600)); }
pub fn all() -> Vec<Prop> {
    let p = |id: &'static str, rule: &'static str, streams: Vec<Stream>, need: Vec<(&'static str, u64)>| Prop { id, streams, rule, need };
    vec![
        p("C31", "collections of plans recombined from the published ones (codes, prefixes, formats, types, lengths changed), each watched by the monitors of C02-C24; non-trivial = distinct collection", vec![p::st("plans", 2_500, 90_000, c31)], vec![("plan_collections", 1_000), ("sub_cases", 400_000), ("collections_with_a_shared_code", 200), ("collections_with_a_global_network", 50)]),
    ]
}
