//! The published numbering plans, read from PhoneNumberMetadata.xml with libphonenumber's documented build
//! rules (BuildMetadataFromXml). This is the oracle's data; the table compiled into the library is not used.
use crate::xml::{self, Node};
use regex::Regex;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

#[derive(Debug, Default)]
pub struct Pat { pub src: String, full: OnceLock<Regex>, pre: OnceLock<Regex>, raw: OnceLock<Regex> }
impl Pat {
    pub fn new(s: &str) -> Self { Pat { src: s.to_string(), ..Default::default() } }
    pub fn full_re(&self) -> &Regex { self.full.get_or_init(|| Regex::new(&format!("^(?:{})$", self.src)).expect("pattern")) }
    pub fn pre_re(&self) -> &Regex { self.pre.get_or_init(|| Regex::new(&format!("^(?:{})", self.src)).expect("pattern")) }
    pub fn raw_re(&self) -> &Regex { self.raw.get_or_init(|| Regex::new(&self.src).expect("pattern")) }
    pub fn full(&self, s: &str) -> bool { self.full_re().is_match(s) }
    pub fn prefix(&self, s: &str) -> bool { self.pre_re().is_match(s) }
    pub fn is_empty(&self) -> bool { self.src.is_empty() }
}

#[derive(Debug, Default)]
pub struct Desc { pub present: bool, pub pattern: Pat, pub has_pattern: bool, pub lengths: Vec<i32>, pub local: Vec<i32>, pub example: Option<String> }
#[derive(Debug, Default)]
pub struct Fmt { pub pattern: Pat, pub format: String, pub leading: Vec<Pat>, pub np_rule: String, pub np_optional: bool, pub cc_rule: String }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty { General, FixedLine, Mobile, TollFree, Premium, SharedCost, Personal, Voip, Pager, Uan, Voicemail, NoIntl }
pub const TYPES: [(Ty, &str); 12] = [
    (Ty::General, "generalDesc"), (Ty::FixedLine, "fixedLine"), (Ty::Mobile, "mobile"), (Ty::TollFree, "tollFree"),
    (Ty::Premium, "premiumRate"), (Ty::SharedCost, "sharedCost"), (Ty::Personal, "personalNumber"), (Ty::Voip, "voip"),
    (Ty::Pager, "pager"), (Ty::Uan, "uan"), (Ty::Voicemail, "voicemail"), (Ty::NoIntl, "noInternationalDialling"),
];

#[derive(Debug, Default)]
pub struct Terr {
    pub id: String, pub cc: i32, pub intl_prefix: Pat, pub pref_intl_prefix: Option<String>, pub np: String, pub np_for_parsing: Pat,
    pub np_transform: String, pub ext_prefix: Option<String>, pub leading: Option<Pat>, pub main: bool, pub mnp: bool,
    pub same_fm: bool, pub fmts: Vec<Fmt>, pub ifmts: Vec<Fmt>, pub descs: BTreeMap<Ty, Desc>,
}
impl Terr { pub fn d(&self, t: Ty) -> &Desc { &self.descs[&t] } }

pub struct Meta {
    pub terrs: Vec<Terr>,
    pub by_region: HashMap<String, usize>,
    pub nongeo: HashMap<i32, usize>,
    pub by_cc: BTreeMap<i32, Vec<String>>,
    pub regions: Vec<String>,
}

fn nows(s: &str) -> String { s.chars().filter(|c| !c.is_ascii_whitespace()).collect() }
fn lens(s: &str) -> BTreeSet<i32> {
    let mut out = BTreeSet::new();
    // "[3-5],7" : ranges in brackets
    for part in s.split(',') {
        let p = part.trim();
        if let Some(r) = p.strip_prefix('[') {
            let r = r.trim_end_matches(']');
            let (a, b) = r.split_once('-').expect("range");
            for x in a.parse::<i32>().unwrap()..=b.parse::<i32>().unwrap() { out.insert(x); }
        } else { out.insert(p.parse().expect("length")); }
    }
    out
}
fn plen(n: &Node, l: &mut BTreeSet<i32>, lo: &mut BTreeSet<i32>) {
    for e in n.all("possibleLengths") {
        if let Some(a) = e.attr("national") { l.extend(lens(a)); }
        if let Some(a) = e.attr("localOnly") { lo.extend(lens(a)); }
    }
}
fn np_rule(a: &str, np: &str) -> String { a.replacen("$NP", np, 1).replacen("$FG", "$1", 1) }
fn cc_rule(a: &str, np: &str) -> String { a.replacen("$FG", "$1", 1).replacen("$NP", np, 1) }

fn desc(gen: Option<&Desc>, t: &Node, tag: &str) -> Desc {
    let Some(e) = t.child(tag) else { return Desc { lengths: vec![-1], ..Default::default() } };
    let mut d = Desc { present: true, ..Default::default() };
    let (mut l, mut lo) = (BTreeSet::new(), BTreeSet::new());
    if let Some(g) = gen {
        plen(e, &mut l, &mut lo);
        let v: Vec<i32> = l.iter().copied().collect();
        if v != g.lengths { d.lengths = v; }
    } else {
        // general description: union over every type that has its own matching (not "no international dialling")
        for c in &t.children { if c.name != "noInternationalDialling" { plen(c, &mut l, &mut lo); } }
        d.lengths = l.iter().copied().collect();
    }
    d.local = lo.iter().copied().filter(|x| !l.contains(x)).collect();
    if let Some(p) = e.child("nationalNumberPattern") { d.pattern = Pat::new(&nows(&p.text)); d.has_pattern = true; }
    if let Some(p) = e.child("exampleNumber") { d.example = Some(p.text.clone()); }
    d
}

impl Meta {
    pub fn load(path: &str) -> Result<Meta, String> {
        let src = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let m = Self::of(xml::parse(&src)?.all("territory").into_iter())?;
        if m.terrs.len() < 100 { return Err(format!("only {} territories", m.terrs.len())); }
        Ok(m)
    }
    pub fn of<'a>(nodes: impl Iterator<Item = &'a Node>) -> Result<Meta, String> {
        let mut terrs = vec![];
        for t in nodes {
            let np = t.attr("nationalPrefix").unwrap_or("").to_string();
            let mut m = Terr {
                id: t.attr("id").unwrap_or("").into(),
                cc: t.attr("countryCode").unwrap_or("0").parse().map_err(|e| format!("{e}"))?,
                intl_prefix: Pat::new(t.attr("internationalPrefix").unwrap_or("")),
                pref_intl_prefix: t.attr("preferredInternationalPrefix").map(|s| s.into()),
                ext_prefix: t.attr("preferredExtnPrefix").map(|s| s.into()),
                leading: t.attr("leadingDigits").map(Pat::new),
                main: t.attr("mainCountryForCode").is_some(),
                mnp: t.attr("mobileNumberPortableRegion").is_some(),
                ..Default::default()
            };
            match t.attr("nationalPrefixForParsing") {
                Some(p) => {
                    m.np_for_parsing = Pat::new(&nows(p));
                    m.np_transform = t.attr("nationalPrefixTransformRule").unwrap_or("").into();
                }
                None => m.np_for_parsing = Pat::new(&np),
            }
            let t_np = np_rule(t.attr("nationalPrefixFormattingRule").unwrap_or(""), &np);
            let t_opt = t.attr("nationalPrefixOptionalWhenFormatting").is_some();
            let t_cc = t.attr("carrierCodeFormattingRule").map(|a| cc_rule(a, &np)).unwrap_or_default();
            let mut explicit = false;
            for f in t.all("numberFormat") {
                let mk = |fmt: String, rules: bool| Fmt {
                    pattern: Pat::new(f.attr("pattern").unwrap_or("")),
                    format: fmt,
                    leading: f.children.iter().filter(|c| c.name == "leadingDigits").map(|c| Pat::new(&nows(&c.text))).collect(),
                    np_rule: if !rules { String::new() } else { f.attr("nationalPrefixFormattingRule").map(|a| np_rule(a, &np)).unwrap_or(t_np.clone()) },
                    np_optional: rules && f.attr("nationalPrefixOptionalWhenFormatting").map(|a| a == "true").unwrap_or(t_opt),
                    cc_rule: if !rules { String::new() } else { f.attr("carrierCodeFormattingRule").map(|a| cc_rule(a, &np)).unwrap_or(t_cc.clone()) },
                };
                let nat = f.child("format").map(|c| c.text.clone()).unwrap_or_default();
                m.fmts.push(mk(nat.clone(), true));
                match f.child("intlFormat") {
                    None => m.ifmts.push(mk(nat, true)),
                    Some(x) => { explicit = true; if x.text != "NA" { m.ifmts.push(mk(x.text.clone(), false)); } }
                }
            }
            if !explicit { m.ifmts.clear(); }
            m.np = np;
            let g = desc(None, t, "generalDesc");
            for (ty, tag) in TYPES.iter().skip(1) { m.descs.insert(*ty, desc(Some(&g), t, tag)); }
            m.descs.insert(Ty::General, g);
            m.same_fm = m.d(Ty::Mobile).pattern.src == m.d(Ty::FixedLine).pattern.src;
            terrs.push(m);
        }
        let (mut by_region, mut nongeo, mut by_cc, mut regions) = (HashMap::new(), HashMap::new(), BTreeMap::<i32, Vec<String>>::new(), vec![]);
        for (i, t) in terrs.iter().enumerate() {
            if t.id == "001" { nongeo.insert(t.cc, i); } else { by_region.insert(t.id.clone(), i); regions.push(t.id.clone()); }
            let v = by_cc.entry(t.cc).or_default();
            if t.main { v.insert(0, t.id.clone()); } else { v.push(t.id.clone()); }
        }
        Ok(Meta { terrs, by_region, nongeo, by_cc, regions })
    }
    pub fn region(&self, r: &str) -> Option<&Terr> { self.by_region.get(r).map(|i| &self.terrs[*i]) }
    /// main region of a calling code ("001" for global network codes, "ZZ" if unassigned)
    pub fn main_region(&self, cc: i32) -> &str { self.by_cc.get(&cc).and_then(|v| v.first()).map(|s| s.as_str()).unwrap_or("ZZ") }
    pub fn region_or_cc(&self, cc: i32, r: &str) -> Option<&Terr> {
        if r == "001" { self.nongeo.get(&cc).map(|i| &self.terrs[*i]) } else { self.region(r) }
    }
    pub fn main_terr(&self, cc: i32) -> Option<&Terr> { self.region_or_cc(cc, self.main_region(cc)) }
}
