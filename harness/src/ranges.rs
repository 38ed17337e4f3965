//! C39: the range tables the plans are published from (resources/metadata, one directory per calling code) against the library.
use crate::core::{Case, Prop};
use crate::model::{Len, NType, F};
use crate::num::Num;
use crate::props as p;
use std::collections::{BTreeSet, HashMap};
use std::sync::OnceLock;

pub struct Row { spec: Vec<u16>, lens: Vec<usize>, ty: String, tariff: String, fmt: String, regions: Vec<String>, area: Option<usize>, national_only: bool, line: usize }
pub struct Template { national: String, intl: String, carrier: String, optional: bool }
pub struct Code { cc: i32, main: String, extra: Vec<String>, np: Vec<String>, idd: Vec<String>, ext: String, rows: Vec<Row>, formats: HashMap<String, Template>, examples: Vec<(String, String, String)> }
pub struct Tables { codes: Vec<Code>, at: Vec<(usize, usize)> }

fn cells(line: &str) -> Vec<String> {
    let (mut out, mut b, mut q) = (vec![], String::new(), false);
    let mut it = line.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\\' if q => b.push(match it.next() { Some('n') => '\n', Some(x) => x, None => '\\' }),
            '"' if q && it.peek() == Some(&'"') => { b.push('"'); it.next(); }
            '"' => q = !q,
            ';' if !q => out.push(std::mem::take(&mut b)),
            _ => b.push(ch),
        }
    }
    out.push(b);
    out.into_iter().map(|x| x.trim().to_string()).collect()
}
fn table(path: &str) -> Vec<(usize, HashMap<String, String>)> {
    let text = match std::fs::read_to_string(path) { Ok(t) => t, Err(_) => return vec![] };
    let mut lines = text.lines();
    let head = cells(lines.next().unwrap_or(""));
    lines.enumerate().filter(|(_, l)| !l.trim().is_empty()).map(|(i, l)| (i + 2, head.iter().cloned().zip(cells(l)).collect())).collect()
}
/// "12[3-5]x" as a set of digits per position
fn spec(s: &str) -> Option<Vec<u16>> {
    let (mut out, b, mut i) = (vec![], s.as_bytes(), 0);
    while i < b.len() {
        match b[i] {
            d @ b'0'..=b'9' => { out.push(1 << (d - b'0')); i += 1; }
            b'x' => { out.push(0x3ff); i += 1; }
            b'[' => {
                let mut m = 0; i += 1;
                while *b.get(i)? != b']' {
                    let lo = b[i] - b'0';
                    let hi = if *b.get(i + 1)? == b'-' { i += 2; b[i] - b'0' } else { lo };
                    for d in lo..=hi { m |= 1 << d; }
                    i += 1;
                }
                i += 1; out.push(m);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn lengths(s: &str) -> Vec<usize> {
    s.split(',').flat_map(|x| { let (a, b) = x.split_once('-').unwrap_or((x, x)); match (a.trim().parse::<usize>(), b.trim().parse::<usize>()) { (Ok(a), Ok(b)) => (a..=b).collect(), _ => vec![] } }).collect()
}
fn list(s: &str) -> Vec<String> { s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect() }
pub fn tables(repo: &str) -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let dir = format!("{repo}/resources/metadata");
        let g = |r: &HashMap<String, String>, k: &str| r.get(k).cloned().unwrap_or_default();
        let mut codes: Vec<Code> = table(&format!("{dir}/metadata.csv")).into_iter().filter_map(|(_, r)| {
            let cc: i32 = g(&r, "Calling Code").parse().ok()?;
            let d = format!("{dir}/{cc}");
            Some(Code { cc, main: g(&r, "Main Region"), extra: list(&g(&r, "Extra Regions")), np: list(&g(&r, "National Prefix")), idd: list(&g(&r, "IDD Prefix")), ext: g(&r, "Extension Prefix").trim_matches('"').to_string(),
                rows: table(&format!("{d}/ranges.csv")).into_iter().filter_map(|(line, r)| Some(Row { spec: spec(&g(&r, "Prefix"))?, lens: lengths(&g(&r, "Length")), ty: g(&r, "Type"), tariff: g(&r, "Tariff"), fmt: g(&r, "Format"), regions: list(&g(&r, "Regions")), area: g(&r, "Area Code Length").parse().ok(), national_only: g(&r, "National Only") == "true", line })).collect(),
                formats: table(&format!("{d}/formats.csv")).into_iter().map(|(_, r)| (g(&r, "Id"), Template { national: g(&r, "National"), intl: g(&r, "International"), carrier: g(&r, "Carrier"), optional: g(&r, "National Prefix Optional") == "true" })).collect(),
                examples: table(&format!("{d}/examples.csv")).into_iter().map(|(_, r)| (g(&r, "Region"), g(&r, "Type"), g(&r, "Number"))).collect() })
        }).collect();
        codes.sort_by_key(|c| c.cc);
        let at = codes.iter().enumerate().flat_map(|(i, c)| (0..c.rows.len()).map(move |k| (i, k))).collect();
        Tables { codes, at }
    })
}
impl Row {
    fn holds(&self, n: &str) -> bool { self.lens.contains(&n.len()) && n.len() >= self.spec.len() && self.spec.iter().zip(n.bytes()).all(|(m, d)| m >> (d - b'0') & 1 == 1) }
    fn one(&self, c: &mut Case, len: usize) -> String {
        (0..len).map(|i| { let m = self.spec.get(i).copied().unwrap_or(0x3ff); loop { let d = c.r.below(10); if m >> d & 1 == 1 { break (b'0' + d as u8) as char; } } }).collect()
    }
    fn kind(&self) -> NType {
        match (self.tariff.as_str(), self.ty.as_str()) {
            ("TOLL_FREE", _) => NType::TollFree, ("PREMIUM_RATE", _) => NType::Premium, ("SHARED_COST", _) => NType::SharedCost,
            (_, "FIXED_LINE") => NType::FixedLine, (_, "MOBILE") => NType::Mobile, (_, "FIXED_LINE_OR_MOBILE") => NType::FixedLineOrMobile, (_, "UAN") => NType::Uan, (_, "VOIP") => NType::Voip,
            (_, "PAGER") => NType::Pager, (_, "VOICEMAIL") => NType::Voicemail, (_, "PERSONAL_NUMBER") => NType::Personal, _ => NType::Unknown,
        }
    }
}
/// the template filled with the digits; digits marked * are filled from the left as far as they go
fn fill(t: &str, digits: &str, np: &str) -> Option<String> {
    let fixed = t.matches('X').count();
    let mut spare = digits.len().checked_sub(fixed)?;
    let mut d = digits.chars();
    let mut out = String::new();
    for ch in t.chars() {
        match ch { 'X' => out.push(d.next()?), '*' => if spare > 0 { spare -= 1; out.push(d.next()?); }, '#' => out.push_str(np), _ => out.push(ch) }
    }
    if d.next().is_some() { return None; }
    Some(out)
}
/// what the plans make of a row: internet dial-up numbers are left out, and a mobile number of Argentina is one with a 9 before it
fn as_planned(code: &Code, row: &Row) -> NType {
    if row.ty == "ISP" { return NType::Unknown; }
    if code.cc == 54 && row.kind() == NType::FixedLineOrMobile { return NType::FixedLine; }
    row.kind()
}
fn c39_rows(c: &mut Case) {
    let t = tables(&c.e.repo);
    let (i, k) = t.at[c.idx as usize % t.at.len()];
    let (code, row) = (&t.codes[i], &t.codes[i].rows[k]);
    for &len in &row.lens {
        if len < row.spec.len() { continue; }
        let s = row.one(c, len);
        check_number(c, code, row, &s);
    }
}
fn check_number(c: &mut Case, code: &Code, row: &Row, s: &str) {
    let cc = code.cc;
    let n = Num::of(cc, s);
    let a = c.api;
    let at = || format!("+{cc} {s} ({cc}/ranges.csv:{})", row.line);
    let want = as_planned(code, row);
    let is = want != NType::Unknown;
    c.count("numbers_of_rows");
    c.seen(&format!("{cc} {s}"));
    c.eq("valid", a.valid(&n), is, at);
    c.eq("type", a.ntype(&n), want, at);
    for x in std::iter::once(&code.main).chain(&code.extra) {
        c.eq("valid-for", a.valid_for(&n, x), is && row.regions.contains(x), || format!("for {x}: {}", at()));
    }
    if !is { c.count("numbers_left_out"); return; }
    let r = a.region_for(&n);
    if row.regions.contains(&code.main) { c.eq("region", r, code.main.clone(), at); } else { c.ok("region", row.regions.contains(&r), || format!("region of {}: {r}, not among {:?}", at(), row.regions)); }
    c.ok("possible", a.possible(&n), at);
    c.eq("dialled-from-abroad", a.intl_diallable(&n), !row.national_only, at);
    c.eq("e164", a.format(&n, F::E164), format!("+{cc}{s}"), at);
    if matches!(want, NType::FixedLine | NType::FixedLineOrMobile) { c.ok("geographical", a.geographical(&n), at); }
    if row.national_only { c.count("numbers_not_dialled_from_abroad"); }
    if c.idx % 7 == 0 {
        let e = Num { ext: Some("27".into()), ..n.clone() };
        c.eq("extension", a.format(&e, F::Nat), a.format(&n, F::Nat) + if code.ext.is_empty() { " ext. " } else { &code.ext } + "27", at);
    }
    let np = code.np.first().map_or("", |s| s.as_str());
    if let Some(f) = code.formats.get(&row.fmt) {
        match fill(&f.national, s, np) {
            Some(w) => { c.count("numbers_formatted"); c.eq("national", a.format(&n, F::Nat), w, at); }
            None => c.count("formats_that_do_not_fit"),
        }
        if f.intl.is_empty() { c.count("no_international"); if cc != 377 { c.eq("international-block", a.format(&n, F::Intl), format!("+{cc} {s}"), at); } }
        else if let Some(w) = fill(&f.intl, s, "") { c.eq("international", a.format(&n, F::Intl), format!("+{cc} {w}"), at); if w.bytes().all(|b| b == b' ' || b.is_ascii_digit()) { c.eq("rfc", a.format(&n, F::Rfc), format!("tel:+{cc}-{}", w.replace(' ', "-")), at); } }
        if !f.carrier.is_empty() { if let Some(w) = fill(&f.carrier, s, np) { c.eq("carrier", a.with_carrier(&n, "15"), w.replace('@', "15"), at); } }
    } else if row.fmt.is_empty() { c.count("numbers_without_format"); c.eq("block", a.format(&n, F::Nat), s.to_string(), at); }
    // the area code a row lists is the library's where it is what the template writes first
    if let (Some(l), Some(f), NType::FixedLine | NType::FixedLineOrMobile) = (row.area, code.formats.get(&row.fmt), want) {
        let w = fill(if f.intl.is_empty() { &f.national } else { &f.intl }, s, "").unwrap_or_default();
        if !np.is_empty() && w.bytes().take_while(u8::is_ascii_digit).count() == l && w.len() > l { c.count("area_codes"); c.eq("area", a.area_len(&n), l, at); }
    }
    // dialled
    // a number of Colombia keeps the 0 of its mobile numbers, one of Argentina has a 15 of its own, and what begins as a call abroad does is one
    let d = format!("{np}{s}");
    let abroad = code.cc == 598 && d.starts_with("01") || if code.idd.is_empty() { d.starts_with("00") || d.starts_with("01") } else { code.idd.iter().any(|i| d.starts_with(i.as_str())) };
    if code.main != "001" && cc != 54 && !abroad && !(code.cc == 57 && want != NType::FixedLine) {
        c.count("numbers_dialled");
        c.eq("dialled-nationally", a.parse(&d, &code.main).map(|x| x.core()), Ok(n.core()), || format!("{d} in {}", code.main));
    }
}
fn c39_outside(c: &mut Case) {
    let t = tables(&c.e.repo);
    let (i, k) = t.at[c.r.below(t.at.len())];
    let code = &t.codes[i];
    for _ in 0..4 {
        let row = &code.rows[k];
        let mut s: Vec<u8> = { let l = row.lens[c.r.below(row.lens.len())]; row.one(c, l.max(row.spec.len())) }.into_bytes();
        match c.r.below(4) { 0 => { s.push(b'0' + c.r.below(10) as u8); } 1 => { s.pop(); } _ => { let at = c.r.below(row.spec.len().max(1)).min(s.len() - 1); s[at] = b'0' + c.r.below(10) as u8; } }
        let s = String::from_utf8(s).unwrap();
        if s.len() < 2 || s.len() > 17 { continue; }
        if let Some(row) = code.rows.iter().find(|r| r.holds(&s)) { check_number(c, code, row, &s); continue; }
        if code.cc == 54 && s.starts_with('9') && code.rows.iter().any(|r| r.holds(&s[1..]) && r.kind() == NType::FixedLineOrMobile) { continue; }
        let n = Num::of(code.cc, &s);
        c.count("numbers_in_no_row");
        c.seen(&format!("{} {s}", code.cc));
        // the plans write the fixed lines of Germany, Austria and Argentina more loosely than the tables
        if matches!(code.cc, 43 | 49 | 54) { c.ok("loosely", matches!(c.api.ntype(&n), NType::Unknown | NType::FixedLine), || format!("+{} {s}, which is in no row", code.cc)); continue; }
        c.eq("invalid", c.api.valid(&n), false, || format!("+{} {s}, which is in no row", code.cc));
        c.eq("no-type", c.api.ntype(&n), NType::Unknown, || format!("+{} {s}, which is in no row", code.cc));
    }
}
fn c39_codes(c: &mut Case) {
    let t = tables(&c.e.repo);
    let code = &t.codes[c.idx as usize % t.codes.len()];
    let (a, cc) = (c.api, code.cc);
    let all: BTreeSet<String> = std::iter::once(&code.main).chain(&code.extra).cloned().collect();
    c.count("codes");
    c.seen(&format!("+{cc}"));
    let got = a.regions_for_cc(cc).unwrap_or_default();
    c.eq("main", got.first().cloned(), Some(code.main.clone()), || format!("+{cc}"));
    c.eq("regions", got.iter().cloned().collect::<BTreeSet<_>>(), all.clone(), || format!("+{cc}"));
    for (r, ty, number) in &code.examples {
        if r == "001" || ty != "FIXED_LINE" { continue; }
        c.count("examples");
        c.eq("example", a.example(r).map(|n| (n.ccv(), a.nsn(&n))).ok(), Some((cc, number.clone())), || format!("example of {r}"));
    }
    let lens: BTreeSet<usize> = code.rows.iter().flat_map(|r| r.lens.iter().copied()).collect();
    for l in 1..=17usize {
        if code.rows.is_empty() { break; }
        let n = Num::of(cc, &"1".repeat(l));
        c.eq("possible-length", matches!(a.possible_reason(&n), Len::Possible), lens.contains(&l), || format!("+{cc} of {l} digits"));
    }
    // called from abroad
    let other = Num::of(if cc == 41 { 44 } else { 41 }, if cc == 41 { "2070313000" } else { "446681800" });
    if code.main != "001" {
        let w = a.format(&other, F::Intl);
        let idd = code.idd.first().cloned().unwrap_or_default();
        c.eq("called-abroad", a.ooc(&other, &code.main), if idd.is_empty() { w.clone() } else { format!("{idd} {}", &w[1..]) }, || format!("from {} ({:?})", code.main, code.idd));
        for i in &code.idd { let d: String = i.chars().filter(|x| x.is_ascii_digit()).collect(); c.eq("idd", a.parse(&format!("{d}{}", a.format(&other, F::E164).trim_start_matches('+')), &code.main).map(|n| n.core()), Ok(other.core()), || format!("{d} in {}", code.main)); }
    }
}
/// where the codes without range tables are described: places of fixed lines (geocoding), carriers of mobile numbers, zones of both
struct Places { fixed: Vec<(i32, String, String)>, mobile: Vec<(i32, String)>, zones: HashMap<String, String> }
fn places(repo: &str) -> &'static Places {
    static P: OnceLock<Places> = OnceLock::new();
    P.get_or_init(|| {
        let lines = |p: String| -> Vec<(String, String)> { std::fs::read_to_string(format!("{repo}/resources/{p}")).unwrap_or_default().lines().filter(|l| !l.starts_with('#')).filter_map(|l| l.split_once('|').map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))).collect() };
        let (mut fixed, mut mobile) = (vec![], vec![]);
        for cc in [1, 61, 86] {
            let k = cc.to_string();
            for (p, d) in lines(format!("geocoding/en/{cc}.txt")) { if let Some(x) = p.strip_prefix(&k) { fixed.push((cc, x.to_string(), d)); } }
            if cc != 1 { for (p, _) in lines(format!("carrier/en/{cc}.txt")) { if let Some(x) = p.strip_prefix(&k) { mobile.push((cc, x.to_string())); } } }
        }
        Places { fixed, mobile, zones: lines("timezones/map_data.txt".into()).into_iter().collect() }
    })
}
const ISLANDS: [(&str, &str); 23] = [("America/Nassau", "BS"), ("America/Barbados", "BB"), ("America/Anguilla", "AI"), ("America/Antigua", "AG"), ("America/Tortola", "VG"), ("America/St_Thomas", "VI"), ("America/Cayman", "KY"), ("Atlantic/Bermuda", "BM"),
    ("America/Grenada", "GD"), ("America/Grand_Turk", "TC"), ("America/Montserrat", "MS"), ("Pacific/Saipan", "MP"), ("Pacific/Guam", "GU"), ("Pacific/Pago_Pago", "AS"), ("America/Lower_Princes", "SX"), ("America/St_Lucia", "LC"), ("America/Dominica", "DM"),
    ("America/St_Vincent", "VC"), ("America/Puerto_Rico", "PR"), ("America/Santo_Domingo", "DO"), ("America/Port_of_Spain", "TT"), ("America/St_Kitts", "KN"), ("America/Jamaica", "JM")];
const PROVINCES: [&str; 28] = ["ON", "QC", "BC", "AB", "SK", "MB", "NS", "NB", "NL", "PE", "NT", "YT", "NU", "Ontario", "Quebec", "British Columbia", "British Colombia", "Alberta", "Saskatchewan", "Manitoba", "Nova Scotia/Prince Edward Island", "Newfoundland and Labrador", "New Brunswick", "Northwest Territories/Nunavut/Yukon", "Nova Scotia", "Prince Edward Island", "Yukon", "Nunavut"];
fn c39_described(c: &mut Case) {
    let t = places(&c.e.repo);
    let (of, a) = (t.fixed.len() + t.mobile.len(), c.api);
    let i = if of == 0 { return } else { c.idx as usize % of };
    let digits = |c: &mut Case, p: &str, len: usize| { let mut s = p.to_string(); while s.len() < len { s.push((b'0' + c.r.below(10) as u8) as char); } s };
    if i >= t.fixed.len() {
        let (cc, p) = &t.mobile[i - t.fixed.len()];
        for _ in 0..10 {
            let s = digits(c, p, if *cc == 61 { 9 } else { 11 });
            let n = Num::of(*cc, &s);
            if !a.valid(&n) { continue; }
            c.count("numbers_of_carriers"); c.seen(&format!("{cc} {s}"));
            c.eq("carrier-type", a.ntype(&n), NType::Mobile, || format!("+{cc} {s}"));
        }
        return;
    }
    let (cc, p, place) = &t.fixed[i];
    if *cc == 1 {
        if matches!(p.as_str(), "274" | "472" | "983") || place == "Watson Lake" { return; } // newer than the plan, which has few numbers of them; a place without its territory
        let mut s = p.clone();
        if s.len() == 3 { s.push((b'2' + c.r.below(8) as u8) as char); }
        let s = digits(c, &s, 10);
        let n = Num::of(1, &s);
        let zone = (1..=7).rev().find_map(|k| t.zones.get(&format!("1{}", &s[..k.min(s.len())])));
        let want = match zone.and_then(|z| ISLANDS.iter().find(|x| x.0 == z)) {
            Some(x) => x.1,
            None if PROVINCES.contains(&place.rsplit(", ").next().unwrap_or("")) => "CA",
            None => "US",
        };
        c.count("numbers_of_places"); c.seen(&format!("1 {s}"));
        c.eq("place-region", a.region_for(&n), want.to_string(), || format!("+1 {s} of {place}"));
        if matches!(want, "US" | "CA") { c.eq("place-type", a.ntype(&n), NType::FixedLineOrMobile, || format!("+1 {s} of {place}")); }
        return;
    }
    let want = if *cc == 86 && p.starts_with('1') && !p.starts_with("10") { NType::Mobile } else { NType::FixedLine };
    for len in p.len().max(8)..=11 {
        let s = digits(c, p, len);
        let n = Num::of(*cc, &s);
        if !a.valid(&n) { continue; }
        c.count("numbers_of_places"); c.seen(&format!("{cc} {s}"));
        let got = a.ntype(&n);
        if *cc == 86 && got == NType::SharedCost { continue; } // the short numbers 96… of every place
        c.eq("place-type", got, want, || format!("+{cc} {s} of {place}"));
    }
}
pub fn all() -> Vec<Prop> {
    vec![Prop { id: "C39", rule: "numbers of every range of the published tables and numbers in none; non-trivial = distinct number",
        streams: vec![p::st("rows", 192_684, 2_569_120, c39_rows), p::st("outside", 150_000, 6_000_000, c39_outside), p::st("codes", 245, 245, c39_codes), p::st("described", 224_000, 2_240_000, c39_described)],
        need: vec![("numbers_of_rows", 300_000), ("numbers_in_no_row", 200_000), ("numbers_formatted", 300_000), ("numbers_dialled", 200_000), ("area_codes", 100_000), ("examples", 250), ("codes", 245), ("numbers_of_places", 200_000), ("numbers_of_carriers", 1_000)] }]
}
