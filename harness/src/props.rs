//! One monitor per property. Relations between observed calls come first, comparison with the reference model second.
use crate::api::*;
use crate::core::*;
use crate::gen::*;
use crate::meta::{Terr, Ty, TYPES};
use crate::model::*;
use rlibphonenumber::{CountryCodeSource, PhoneNumber};
use crate::num::{Num, Src};

pub fn st(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stream { Stream { name, quick, thorough, f } }
pub const ALLF: [F; 4] = [F::E164, F::Intl, F::Nat, F::Rfc];
pub fn terr_at(c: &Case, i: u64) -> &'static Terr { let m = c.meta(); &m.terrs[i as usize % m.terrs.len()] }
/// result with carrier "" and none alike
fn norm(r: PRes) -> PRes { r.map(|mut n| { if n.carrier.as_deref() == Some("") { n.carrier = None; } n }) }
fn core_of(r: &PRes) -> PRes { r.clone().map(|n| n.core()) }
fn rname(r: &PRes) -> &'static str {
    match r { Ok(_) => "parsed", Err(PErr::InvalidCountryCode) => "err_country_code", Err(PErr::NotViable) => "err_not_viable", Err(PErr::PhoneContext) => "err_phone_context", Err(PErr::NoStart) => "err_no_start",
        Err(PErr::Extract) => "err_extract", Err(PErr::TooShortIdd) => "err_short_idd", Err(PErr::TooShortNsn) => "err_short_nsn", Err(PErr::TooLongNsn) => "err_long_nsn", Err(PErr::IntParse) => "err_int" }
}
/// refusals of the same named kind are alike (which part of "not a number" is reported is fixed by the algorithm too)
fn parse_vs_model(c: &mut Case, sig: &str, t: &str, r: &str) -> PRes {
    let got = norm(c.api.parse_raw(t, r));
    let want = c.m().parse(t, r, true);
    let k = rname(&want);
    c.count(k);
    c.eq(sig, got.clone(), want, || format!("parse_and_keep_raw_input({t:?}, {r:?})"));
    got
}

// ---- C01 ---------------------------------------------------------------------------------------------------------
fn bytes_ok(c: &mut Case, what: &str, len: usize) {
    // measured on the unchanged tree: below 2 MB for any call once patterns are compiled, plus a few hundred bytes per input byte
    let b = LAST_BYTES.with(|b| b.get());
    let cap = (96u64 << 20) + 4096 * len as u64;
    let mb = b >> 20;
    if mb >= 1 { c.count(if mb >= 16 { "calls_over_16MB" } else { "calls_over_1MB" }); }
    c.ok(&format!("memory:{what}"), b <= cap, || format!("{what} requested {b} bytes for an input of {len} bytes (ceiling {cap})"));
}
fn all_number_ops(c: &mut Case, n: &Num, r: &str, carrier: &str) {
    let a = c.api;
    let len = n.rawv().len() + n.extv().len() + n.nlz.unwrap_or(0).max(0) as usize + carrier.len() + r.len() + 32;
    for f in ALLF { let s = a.format(n, f); bytes_ok(c, "format", len); c.add("output_bytes", s.len() as u64); }
    a.original(n, r); bytes_ok(c, "format_in_original_format", len);
    a.with_carrier(n, carrier); bytes_ok(c, "format_national_number_with_carrier_code", len);
    a.mobile(n, r, true); a.mobile(n, r, false); bytes_ok(c, "format_number_for_mobile_dialing", len);
    a.ooc(n, r); bytes_ok(c, "format_out_of_country_calling_number", len);
    a.keep_alpha(n, r); bytes_ok(c, "format_out_of_country_keeping_alpha_chars", len);
    a.area_len(n); a.ndc_len(n); a.nsn(n); a.ntype(n); a.region_for(n); a.geographical(n); a.intl_diallable(n);
    a.possible(n); a.possible_reason(n); a.valid(n); a.valid_for(n, r);
    a.truncate(n); bytes_ok(c, "truncate_too_long_number", len);
    let m = c.dress(n.clone());
    a.matching(n, &m);
    c.add("number_ops", 25);
}
fn c01_text(c: &mut Case) {
    let (t, r) = match c.r.below(5) { 0 => (c.weird(60), c.region()), 1 => { let k = c.r.range(1, 14); ((0..k).map(|_| c.word()).collect(), c.region()) } _ => c.text() };
    let t = if c.r.chance(1, 4) { c.mutate_text(&t) } else { t };
    c.seen(&t);
    let a = c.api;
    a.is_alpha(&t); bytes_ok(c, "is_alpha_number", t.len());
    a.convert_alpha(&t); bytes_ok(c, "convert_alpha_characters_in_number", t.len());
    let p = a.parse(&t, &r); bytes_ok(c, "parse", t.len());
    c.count(rname(&p));
    if let Ok(n) = a.parse_raw(&t, &r) {
        let r2 = c.region();
        let k = c.r.range(0, 3);
        let car = c.r.digits(k);
        if c.r.chance(1, 3) { all_number_ops(c, &n, &r2, &car); }
        let mut n2 = n;
        if c.r.chance(1, 2) { n2.src = Some(*c.r.pick(&[Src::Unspecified, Src::Plus, Src::Idd, Src::NoPlus, Src::Default])); }
        a.original(&n2, &r2);
        a.keep_alpha(&n2, &r2);
    }
    if c.idx % 16 == 0 {
        let w = c.weird(5);
        a.cc_for_region(&w); a.is_nanpa(&w); let _ = a.example(&w); let _ = a.invalid_example(&w);
        let cc = c.r.u64() as i32;
        a.region_for_cc(cc); a.regions_for_cc(cc);
        let t = *c.r.pick(&ALL_TYPES); let _ = a.example_type(t);
    }
}
fn c01_num(c: &mut Case) {
    let n = c.hostile_num();
    let r = if c.r.chance(1, 5) { c.weird(4) } else { c.region() };
    let car = match c.r.below(4) { 0 => String::new(), 1 => c.weird(5), 2 => c.word(), _ => c.r.digits(2) };
    c.seen(&format!("{n:?} {r:?} {car:?}"));
    all_number_ops(c, &n, &r, &car);
    let m = c.hostile_num();
    c.api.matching(&n, &m);
}
fn c01_long(c: &mut Case) {
    // long inputs: repetition of the tokens the scanners look for
    let size = [20_000usize, 60_000, 200_000, 20_000, 200_000, 1_000_000][c.idx as usize % 6];
    let k = c.r.range(1, 3);
    let unit: String = if c.r.chance(1, 2) { (0..k).map(|_| c.word()).collect() } else { c.r.pick(&["1", " ", "+", "-", "(", "x", ";", ",", "1 ", "ext", "a", "1,", "\u{FF11}", "/x", " x1", ";ext=1", "\u{301}", "tel:", "a.", "-a", "0"]).to_string() };
    let unit = if unit.is_empty() { "1".to_string() } else { unit };
    let (pre, post) = match c.r.below(5) { 0 => ("", ""), 1 => ("+1650253", ""), 2 => ("12345", "1"), 3 => ("1;phone-context=", ""), _ => ("650 253 0000", "#") };
    let t = format!("{pre}{}{post}", unit.repeat(size / unit.len() + 1));
    let r = c.region();
    c.seen(&format!("{pre:?} + {unit:?} repeated to {size} bytes + {post:?} in {r}"));
    c.count("long_inputs");
    crate::alloc::ceiling_bytes(6 << 30);
    let a = c.api;
    TIMED.with(|x| x.set(Some((0, ""))));
    let p = a.parse(&t, &r); bytes_ok(c, "parse", t.len());
    c.count(rname(&p));
    let p = a.parse_raw(&t, &r); bytes_ok(c, "parse_and_keep_raw_input", t.len());
    a.is_alpha(&t); bytes_ok(c, "is_alpha_number", t.len());
    a.convert_alpha(&t); bytes_ok(c, "convert_alpha_characters_in_number", t.len());
    let mut n = p.unwrap_or_else(|_| Num { cc: Some(*c.r.pick(&[1, 44, 39, 999])), nn: Some(if c.r.chance(1, 2) { 6502530000 } else { 0 }), ..Default::default() });
    match c.r.below(3) { 0 => n.raw = Some(t), 1 => n.ext = Some(t), _ => { n.ilz = Some(true); n.nlz = Some(size as i32); } }
    if n.src.is_none() { n.src = Some(*c.r.pick(&[Src::Unspecified, Src::Plus, Src::Idd, Src::NoPlus, Src::Default])); }
    all_number_ops(c, &n, &r, "12");
    let (us, op) = TIMED.with(|x| x.replace(None)).unwrap_or((0, ""));
    let bucket = match us { 0..=9_999 => "below_10ms", 10_000..=99_999 => "below_100ms", 100_000..=999_999 => "below_1s", _ => "over_1s" };
    c.count(&format!("slowest_call_{bucket}"));
    c.ok(&format!("time:{op}"), std::env::var_os("MONITOR_SLOW").is_some() || us < 2_000_000 + 5 * size as u64, || format!("{op} used {us} us of CPU for an input of {size} bytes ({pre:?} + {unit:?}... + {post:?})"));
}
pub const ALL_TYPES: [NType; 12] = [NType::FixedLine, NType::Mobile, NType::FixedLineOrMobile, NType::TollFree, NType::Premium, NType::SharedCost, NType::Voip, NType::Personal, NType::Pager, NType::Uan, NType::Voicemail, NType::Unknown];

// ---- C02 ---------------------------------------------------------------------------------------------------------
pub fn c02(c: &mut Case) {
    let (n, _) = c.valid_num();
    let mut n = c.with_ext(n, 1, 3);
    // an extension its region's own label can carry back: x, int. and the like introduce at most nine digits, the default label twenty
    if c.meta().main_terr(n.ccv()).map(|t| t.ext_prefix.is_some()).unwrap_or(false) { if let Some(e) = &mut n.ext { e.truncate(9); } }
    if !c.api.valid(&n) { return; } // validity itself is C09's business
    c.seen(&format!("{n:?}"));
    let any = c.region();
    let own = c.api.region_for(&n);
    let main = c.meta().main_terr(n.ccv());
    for f in ALLF {
        let region = if f == F::Nat { if own == "001" { continue } own.as_str() } else { any.as_str() };
        let s = c.api.format(&n, f);
        let got = c.api.parse(&s, region);
        let mut want = n.core();
        if f == F::E164 { want.ext = None; }
        c.count(match f { F::E164 => "e164", F::Intl => "international", F::Nat => "national", F::Rfc => "rfc3966" });
        if core_of(&got) != Ok(want.clone()) {
            // ambiguous plan? Then the text must at least be read as the published algorithm reads it.
            let nsn = n.nsn();
            let amb = f == F::Nat && c.meta().region(region).map(|t| ambiguous(c, &s, &nsn, t)).unwrap_or(false)
                || main.map(|t| c.m().strip_np(&nsn, t).0 != nsn).unwrap_or(false);
            let amb = amb || c.e.synthetic; // a recombined plan need not tell its own numbers apart
            if amb && core_of(&got) == c.m().parse(&s, region, false).map(|n| n.core()) { c.count("ambiguous_by_plan"); continue; }
            c.fail("round-trip", format!("{n:?} formatted {f:?} as {s:?}, parsed in {region} as {got:?}"));
        }
        c.o.checks += 1;
    }
}
/// the national text does not tell the number apart under the plan of the region it is read in
fn ambiguous(c: &Case, s: &str, nsn: &str, t: &Terr) -> bool {
    let m = c.m();
    let digits = m.digits_only(m.strip_ext(s).0);
    m.strip_np(nsn, t).0 != nsn || m.strip_np(&digits, t).0 != nsn || digits.starts_with(&t.cc.to_string())
        || t.intl_prefix.prefix(&digits) || m.is_alpha_text(s)
}

// ---- C03 ---------------------------------------------------------------------------------------------------------
pub fn c03_respell(c: &mut Case) {
    let (n, t) = c.any_num();
    let from = if t.id != "001" && c.r.chance(2, 3) { t.id.clone() } else { c.region() };
    let d = c.dialled(&n, t, &from);
    let (plus, digits) = { let i = d.find(|x: char| x.is_ascii_digit()).unwrap_or(d.len()); (d[..i].to_string(), c.m().digits_only(&d[i..])) };
    if digits.len() < 3 || !plus.chars().all(is_plus) { return; }
    let plain = format!("{}{digits}", if plus.is_empty() { "" } else { "+" });
    let mut s = String::new();
    if c.r.chance(1, 3) { s.push_str(c.r.pick(&["(", "Phone ", "Call: ", " ", "\u{202A}", "☎", "a/b ", "--", "\n", "№ "])); }
    s.push_str(&plus);
    let style = c.r.below(3);
    for (i, ch) in digits.chars().enumerate() {
        if i > 0 { while c.r.chance(if style == 0 { 0 } else { style }, 5) { let x = c.sep(); if x != 'x' && x != '~' { s.push(x) } } }
        let alien = match style { 0 => true, _ => c.r.chance(1, 4) };
        if alien && c.r.chance(3, 4) { let x = c.alien_digit(ch); s.push(x) } else { s.push(ch) }
    }
    if c.r.chance(1, 3) { s.push_str(c.r.pick(&[")", ".", " ", "\u{202C}", "!", "\n", " -", ";", "),", "…", "*", "\u{200B}"])); }
    c.seen(&s);
    c.count("respelled");
    let a = c.api.parse(&plain, &from);
    let b = c.api.parse(&s, &from);
    c.count(rname(&a));
    c.eq("respelling", b.clone(), a, || format!("{s:?} against {plain:?} in {from:?}"));
    c.eq("respelling-model", core_of(&b), c.m().parse(&s, &from, false).map(|n| n.core()), || format!("parse({s:?}, {from:?})"));
}
pub fn c03_vanity(c: &mut Case) {
    let (n, t) = if c.r.chance(1, 2) { c.valid_num() } else { c.any_num() };
    let from = if t.id != "001" { t.id.clone() } else { c.region() };
    let d = c.dialled(&n, t, &from);
    let v = c.vanity(&d);
    let s = c.spell_plain(&v);
    let letters = s.chars().filter(|x| x.is_ascii_alphabetic()).count();
    if letters < 3 || !s.chars().all(|x| x.is_ascii() || is_plus(x)) || c.m().strip_ext(&s).1.is_some() || !c.m().viable(&s) { return; }
    if s.contains("/x") || s.contains("/ x") || d.starts_with('(') { return; }
    let plain: String = s.chars().map(|x| keypad(x).unwrap_or(x)).collect();
    if c.m().strip_ext(&plain).1.is_some() { return; }
    c.seen(&s);
    c.count("vanity");
    let a = c.api.parse(&plain, &from);
    let b = c.api.parse(&s, &from);
    c.count(rname(&a));
    c.eq("vanity", b.clone(), a, || format!("{s:?} against {plain:?} in {from:?}"));
    let up = c.api.parse(&s.to_ascii_uppercase(), &from);
    if !s.contains('x') && !s.contains('X') { c.eq("vanity-case", up, b, || format!("{s:?} in upper case in {from:?}")); }
}
/// every Unicode scalar value once, inside, before and after a number
pub fn c03_every_char(c: &mut Case) {
    for k in 0..16u32 {
        let cp = c.idx as u32 * 16 + k;
        let Some(ch) = char::from_u32(cp) else { continue };
        let which = if c.m().digit(ch).is_some() || is_punct(ch) || cp < 0x3000 { 3 } else { 1 };
        for w in 0..which {
            let s = match (w, cp % 3) { (0, _) if which == 3 => format!("+1650{ch}2530000"), (1, _) => format!("{ch}6502530000"), (2, _) => format!("650 253 0000{ch}"), (_, 0) => format!("+1650{ch}2530000"), (_, 1) => format!("{ch}6502530000"), _ => format!("650 253 0000{ch}") };
            let got = c.api.parse(&s, "US");
            c.eq("character", core_of(&got), c.m().parse(&s, "US", false).map(|n| n.core()), || format!("parse({s:?}, \"US\") with U+{cp:04X}"));
        }
        if let Some(v) = c.m().digit(ch) {
            // a decimal digit of any script is that digit
            let s = format!("+1 650 253 00{ch}1");
            let p = format!("+1 650 253 00{v}1");
            let (a, b) = (c.api.parse(&s, "ZZ"), c.api.parse(&p, "ZZ"));
            c.eq("digit-script", a, b, || format!("U+{cp:04X} as digit {v}"));
            c.count("decimal_digits_of_unicode");
            c.seen(&s);
        }
        if is_punct(ch) && !matches!(ch, 'x' | 'X' | '~') { c.count("punctuation_characters"); let (a, b) = (c.api.parse(&format!("+1650{ch}2530000"), "ZZ"), c.api.parse("+16502530000", "ZZ")); c.eq("punctuation", a, b, || format!("U+{cp:04X} between digits")); }
        c.count("characters");
    }
}

// ---- C04 ---------------------------------------------------------------------------------------------------------
pub fn c04(c: &mut Case) {
    let (t, r) = c.text();
    c.seen(&format!("{t} @{r}"));
    let got = parse_vs_model(c, "parse", &t, &r);
    let plain = norm(c.api.parse(&t, &r));
    c.eq("parse-plain", plain, c.m().parse(&t, &r, false), || format!("parse({t:?}, {r:?})"));
    if let Ok(n) = &got {
        let nsn = c.api.nsn(n);
        c.ok("nsn-bounds", (2..=17).contains(&nsn.len()), || format!("parse({t:?}, {r:?}) gave NSN {nsn:?}"));
        c.ok("code-assigned", c.meta().by_cc.contains_key(&n.ccv()), || format!("parse({t:?}, {r:?}) gave calling code {:?}", n.cc));
    }
}
/// lengths around every limit, in every plan
pub fn c04_lengths(c: &mut Case) {
    let t = terr_at(c, c.idx);
    let len = 1 + (c.idx / c.meta().terrs.len() as u64 % 20) as usize;
    let v = c.valid_nsn(t);
    let mut s: String = v.chars().take(len).collect();
    while s.len() < len { s.push(c.r.digit()); }
    if c.r.chance(1, 5) { s = format!("0{}", &s[1..]); }
    let region = if t.id == "001" { c.geo_region() } else { t.id.clone() };
    let txt = match c.r.below(5) { 0 => format!("+{}{s}", t.cc), 1 => format!("{}{s}", t.cc), 2 => { let p = c.meta().region(&region).map(|x| x.intl_prefix.src.clone()).unwrap_or_default(); format!("{}{}{s}", if p.is_empty() { String::new() } else { sample(&mut c.r, &p) }, t.cc) } 3 => format!("{}{s}", t.np), _ => s.clone() };
    c.seen(&format!("{txt} @{region}"));
    parse_vs_model(c, "parse-length", &txt, &region);
}
pub fn c04_codes(c: &mut Case) {
    // every calling code candidate, assigned or not
    let cc = c.idx % 1100;
    let k = c.r.range(1, 12);
    let s = format!("+{cc}{}", c.r.digits(k));
    let r = c.region();
    c.seen(&s);
    parse_vs_model(c, "parse-code", &s, &r);
    let g = c.geo_region();
    let p = c.meta().region(&g).map(|x| sample(&mut c.r, if x.intl_prefix.is_empty() { "00" } else { &x.intl_prefix.src })).unwrap_or_default();
    let s = format!("{p}{}", &s[1..]);
    parse_vs_model(c, "parse-code-idd", &s, &g);
}

// ---- C05 ---------------------------------------------------------------------------------------------------------
pub fn c05_parse(c: &mut Case) {
    let (n, t) = if c.r.chance(3, 4) { c.valid_num() } else { c.any_num() };
    let from = if t.id != "001" { t.id.clone() } else { c.geo_region() };
    let d = match c.r.below(3) { 0 => format!("+{}{}", n.ccv(), n.nsn()), 1 => { let p = c.nat_prefix(t); format!("{p}{}", n.nsn()) } _ => n.nsn() };
    let base = c.spell_plain(&d);
    let i = c.idx as usize % EXT_LABELS.len();
    let (label, max) = EXT_LABELS[i];
    let label = if c.r.chance(1, 5) { label.to_uppercase() } else { label.to_string() };
    let k = match c.r.below(6) { 0 => max, 1 => max + 1, 2 => max + 2 + c.r.below(4), 3 => 1, _ => c.r.range(1, max.max(1)) }.max(1);
    let mut e = c.r.digits(k);
    if c.r.chance(1, 8) { e = e.chars().map(|x| c.alien_digit(x)).collect(); }
    let hash = !label.to_lowercase().ends_with(";ext=") && c.r.chance(1, 6);
    let s = format!("{base}{label}{e}{}", if hash { "#" } else { "" });
    c.seen(&s);
    let plain = c.api.parse(&base, &from);
    let got = c.api.parse(&s, &from);
    if let Ok(p) = &plain {
        if max > 0 && k <= max && p.extv().is_empty() && !label.contains("int") && !label.contains("INT") && p.nsn().len() > 2 && c.m().viable(&base) {
            let mut want = p.clone();
            want.ext = Some(e.clone());
            c.count("within_limit");
            c.eq("extension", got.clone(), Ok(want), || format!("parse({s:?}, {from:?})"));
        } else if max > 0 && k > max {
            c.count("beyond_limit");
            let whole = got.as_ref().map(|g| g.extv().chars().count() == k).unwrap_or(false);
            // a longer label with a higher limit may still claim the digits; the reference decides
            c.ok("limit", !whole || c.m().strip_ext(&s).1.map(|x| x.chars().count()) == Some(k), || format!("parse({s:?}, {from:?}) kept all {k} digits after a label limited to {max}"));
        }
    }
    c.eq("extension-model", norm(got), c.m().parse(&s, &from, false), || format!("parse({s:?}, {from:?})"));
    let j = s.char_indices().nth(c.r.below(s.chars().count())).unwrap().0;
    let cut = &s[j..];
    c.eq("extension-cut", norm(c.api.parse(cut, &from)), c.m().parse(cut, &from, false), || format!("parse({cut:?}, {from:?})"));
}
pub fn c05_unviable(c: &mut Case) {
    let base = { let k = c.r.range(0, 4); c.r.digits(k) };
    let sep = c.r.pick(&["", " ", "-", "(", "+", "a", "*"]).to_string();
    let (l, max) = c.ext_label();
    let k = c.r.range(1, max.max(1));
    let s = format!("{sep}{base}{l}{}", c.r.digits(k));
    let r = c.region();
    c.seen(&s);
    parse_vs_model(c, "extension-unviable", &s, &r);
    let n = c.any_num().0;
    let s = format!("{}{l}{}{}", n.nsn(), c.r.digits(3), { let (l2, _) = c.ext_label(); let d = c.r.digits(2); l2 + &d });
    parse_vs_model(c, "extension-twice", &s, &r);
}
pub fn c05_format(c: &mut Case) {
    let (n, _) = if c.r.chance(1, 2) { c.valid_num() } else { c.any_num() };
    let e = c.ext_text();
    if !e.chars().all(|x| x.is_ascii_digit()) { c.count("extension_not_digits"); }
    let mut with = n.clone();
    with.ext = Some(e.clone());
    let mut empty = n.clone();
    empty.ext = Some(String::new());
    if n.nnv() == 0 { return; }
    c.seen(&format!("{with:?}"));
    let pre = c.meta().main_terr(n.ccv()).and_then(|t| t.ext_prefix.clone()).unwrap_or(" ext. ".into());
    if pre != " ext. " { c.count("regional_label"); }
    for f in ALLF {
        let a = c.api.format(&n, f);
        let want = match f { F::E164 => a.clone(), F::Rfc => format!("{a};ext={e}"), _ => format!("{a}{pre}{e}") };
        c.eq("format-extension", c.api.format(&with, f), want, || format!("format({with:?}, {f:?})"));
        c.eq("format-empty-extension", c.api.format(&empty, f), a, || format!("format({empty:?}, {f:?})"));
    }
    let r = c.region();
    let a = c.api.ooc(&n, &r);
    c.eq("ooc-extension", c.api.ooc(&with, &r), format!("{a}{pre}{e}"), || format!("out of country({with:?}, {r:?})"));
    let car = c.r.digits(2);
    let a = c.api.with_carrier(&n, &car);
    c.eq("carrier-extension", c.api.with_carrier(&with, &car), format!("{a}{pre}{e}"), || format!("with carrier({with:?}, {car:?})"));
}

// ---- C06 ---------------------------------------------------------------------------------------------------------
pub fn c06(c: &mut Case) {
    let (n, t) = if c.r.chance(2, 3) { c.valid_num() } else { c.any_num() };
    let s = c.tel_uri(&n);
    let r = if c.r.chance(1, 3) || t.id == "001" { c.region() } else { t.id.clone() };
    c.seen(&s);
    if s.contains(";phone-context=") { c.count("with_phone_context"); }
    if s.contains(";isub=") { c.count("with_isub"); }
    parse_vs_model(c, "tel-uri", &s, &r);
}
pub fn c06_context(c: &mut Case) {
    // the context alone: by the grammar of the standard
    let ctx = match c.r.below(6) {
        0 => { let k = c.r.range(0, 6); let mut x = String::from("+"); for _ in 0..k { if c.r.chance(1, 2) { x.push(c.r.digit()) } else { x.push(*c.r.pick(&['-', '.', '(', ')', ' ', '+', 'a', '\u{661}', '*'])) } } x }
        1 => { let k = c.r.range(0, 8); (0..k).map(|_| *c.r.pick(&['a', 'b', 'Z', '1', '9', '-', '.', '.', '_', 'é', '+', '\u{661}'])).collect() }
        2 => { let k = c.r.range(1, 4); (0..k).map(|_| c.r.pick(&["example", "a", "a-b", "a--b", "x9", "9x", "com", "123", "-a", "a-", "", "Z"]).to_string()).collect::<Vec<_>>().join(".") + if c.r.chance(1, 4) { "." } else { "" } }
        3 => c.mutate_text("+1-650.253"),
        4 => c.mutate_text("sip.example.org"),
        _ => c.weird(6),
    };
    if ctx.contains(';') { return; }
    let t = format!("tel:2530000;phone-context={ctx}");
    c.seen(&t);
    let got = c.api.parse_raw(&t, "US");
    let ok = c.m().context_valid(&ctx);
    c.count(if ok { "context_valid" } else { "context_invalid" });
    c.eq("context", got == Err(PErr::PhoneContext), !ok, || format!("phone context {ctx:?}: {got:?}"));
    if ok && !ctx.starts_with('+') {
        let a = c.api.parse("2530000", "US");
        c.eq("context-domain", core_of(&got), core_of(&a), || format!("domain context {ctx:?} must be ignored"));
    } else if ok {
        let a = c.api.parse(&format!("{ctx}2530000"), "US");
        c.eq("context-global", core_of(&got), core_of(&a), || format!("global context {ctx:?} supplies the leading digits"));
    }
}
pub fn c06_order(c: &mut Case) {
    // parameter order and extra parameters never change which digits are taken
    let (n, _) = c.valid_num();
    let nsn = n.nsn();
    let ctx = format!(";phone-context=+{}", n.ccv());
    let isub = format!(";isub={}", c.r.digits(3));
    let body = c.spell_plain(&nsn);
    let want = c.api.parse(&format!("+{} {body}", n.ccv()), "ZZ");
    let after = *c.r.pick(&["", ";a=b", ";tel:123", ";x-y=1;z", ";phone-context=+999", ";ext=5", ";TEL:", ";", ";isub=1"]);
    for s in [format!("tel:{body}{ctx}{after}"), format!("{body}{ctx}{after}"), format!("tel:{body}{isub}{ctx}{after}"), format!("tel:{body}{ctx}{isub}{after}"), format!("{body}{ctx}{after};tel:555")] {
        c.seen(&s);
        let mut r = c.region();
        // upstream looks up no plan for a number of a global network read "in 001"; that shows only if such a plan has a national prefix
        if c.e.synthetic && r == "001" { r = "ZZ".into(); }
        let got = c.api.parse(&s, &r);
        c.eq("parameter-order", core_of(&got), core_of(&want), || format!("parse({s:?}, {r:?})"));
    }
    let e = c.ext();
    let s = format!("tel:{body};ext={e}{ctx}");
    let mut w = core_of(&want);
    if let Ok(x) = &mut w { x.ext = Some(e); }
    c.eq("extension-before-context", core_of(&c.api.parse(&s, "ZZ")), w, || format!("parse({s:?})"));
}

// ---- C07 ---------------------------------------------------------------------------------------------------------
pub fn c07(c: &mut Case) {
    let t = terr_at(c, c.idx);
    let t = if t.id == "001" { c.terr() } else { t };
    if t.id == "001" { return; }
    let own = c.r.chance(2, 3);
    let (n, nt) = if own { let s = if c.r.chance(3, 4) { c.valid_nsn(t) } else { c.any_nsn(t) }; (Num::of(t.cc, &s), t) } else { c.valid_num() };
    let nsn = n.nsn();
    let (kind, d) = match c.r.below(9) {
        0 | 1 => { let p = c.idd(t); ("international_prefix", format!("{p}{}{nsn}", n.ccv())) }
        2 => { let p = c.idd(t); ("international_prefix_zero", format!("{p}0{}{nsn}", n.ccv())) }
        3 | 4 => { let p = c.nat_prefix(t); ("national_prefix", format!("{p}{nsn}")) }
        5 => ("own_code", format!("{}{nsn}", t.cc)),
        6 => { let p = c.nat_prefix(t); ("code_and_national_prefix", format!("{}{p}{nsn}", t.cc)) }
        7 => { let p = c.nat_prefix(nt); ("plus_and_national_prefix", format!("+{}{p}{nsn}", n.ccv())) }
        _ => ("plain", nsn.clone()),
    };
    let d = if c.r.chance(1, 12) { mutate_digits(&mut c.r, &d) } else { d };
    c.seen(&format!("{d} @{}", t.id));
    c.count(kind);
    let got = parse_vs_model(c, "dialling-prefix", &d, &t.id);
    if let Ok(g) = &got { if g.carrier.is_some() { c.count("carrier_code_captured"); } if g.src == Some(Src::Idd) { c.count("read_as_international"); } if g.src == Some(Src::NoPlus) { c.count("read_as_bare_code"); } }
    // the simplest promise: an international prefix or the trunk prefix before a valid number changes nothing
    if c.m().valid(&n) && c.idx % 2 == 0 {
        let plain = c.api.parse(&format!("+{}{nsn}", n.ccv()), "ZZ");
        if core_of(&plain) == Ok(n.core()) {
            if let Some(p) = single(&t.intl_prefix.src) {
                let s = format!("{p}{}{nsn}", n.ccv());
                c.eq("idd-equals-plus", core_of(&c.api.parse(&s, &t.id)), core_of(&plain), || format!("parse({s:?}, {:?})", t.id));
                c.count("idd_equals_plus");
            }
        }
    }
}
fn single(p: &str) -> Option<String> { (!p.is_empty() && p.chars().all(|c| c.is_ascii_digit())).then(|| p.to_string()) }
/// bare calling code in front of numbers of every length, in every region
pub fn c07_code(c: &mut Case) {
    let t = terr_at(c, c.idx);
    if t.id == "001" { return; }
    let v = c.any_nsn(t);
    let k = c.r.range(1, 16);
    let mut s: String = v.chars().take(k).collect();
    while s.len() < k && c.r.chance(3, 4) { s.push(c.r.digit()) }
    let np = if c.r.chance(1, 3) { c.nat_prefix(t) } else { String::new() };
    let d = format!("{}{np}{s}", t.cc);
    c.seen(&format!("{d} @{}", t.id));
    let got = parse_vs_model(c, "bare-code", &d, &t.id);
    if let Ok(g) = &got { if g.src == Some(Src::NoPlus) { c.count("read_as_bare_code"); } }
}

// ---- C08 ---------------------------------------------------------------------------------------------------------
pub fn c08(c: &mut Case) {
    let (t, r) = c.text();
    c.seen(&format!("{t} @{r}"));
    let a = c.api.parse(&t, &r);
    let b = c.api.parse_raw(&t, &r);
    c.count(rname(&a));
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            c.eq("same-number", y.core(), x.core(), || format!("{t:?} in {r:?}"));
            let id = |n: &Num| (n.cc, n.nn, n.ext.clone(), n.ilz, n.nlz);
            c.eq("same-fields", id(y), id(x), || format!("{t:?} in {r:?}"));
            c.eq("raw-verbatim", y.raw.as_deref(), Some(t.as_str()), || format!("{t:?} in {r:?}"));
            c.ok("plain-has-no-provenance", x.raw.is_none() && x.src.is_none() && x.carrier.as_deref().unwrap_or("").is_empty(), || format!("parse({t:?}, {r:?}) = {x:?}"));
            let w = c.m().parse(&t, &r, true);
            if let Ok(w) = w {
                c.eq("source", y.src, w.src, || format!("{t:?} in {r:?}"));
                c.eq("carrier", y.carrier.clone().filter(|x| !x.is_empty()), w.carrier, || format!("{t:?} in {r:?}"));
                c.count(match w.src { Some(Src::Plus) => "from_plus", Some(Src::Idd) => "from_idd", Some(Src::NoPlus) => "from_bare_code", _ => "from_default_region" });
            }
        }
        _ => { c.eq("same-outcome", b.map(|x| x.core()), a.map(|x| x.core()), || format!("{t:?} in {r:?}")); }
    }
}

// ---- C09 ---------------------------------------------------------------------------------------------------------
fn check_validity(c: &mut Case, n: &Num, t: &Terr) {
    let m = c.m();
    let ty = c.api.ntype(n);
    let want = m.number_type(n);
    c.count(&format!("type_{want:?}"));
    c.eq("type", ty, want, || format!("type of {n:?}"));
    c.eq("valid", c.api.valid(n), m.valid(n), || format!("validity of {n:?}"));
    c.eq("valid-for-region", c.api.valid_for(n, &t.id), m.valid_for(n, &t.id), || format!("{n:?} valid for {}", t.id));
    c.eq("region", c.api.region_for(n), m.region_of(n).to_string(), || format!("region of {n:?}"));
    c.eq("internationally-diallable", c.api.intl_diallable(n), m.intl_diallable(n), || format!("{n:?}"));
    c.eq("geographical", c.api.geographical(n), m.geographical(n), || format!("{n:?}"));
    if let Some(rs) = c.meta().by_cc.get(&n.ccv()) {
        let r = rs[c.r.below(rs.len())].clone();
        c.eq("valid-for-sibling", c.api.valid_for(n, &r), m.valid_for(n, &r), || format!("{n:?} valid for {r}"));
    }
}
pub fn c09(c: &mut Case) {
    let nt = c.meta().terrs.len() as u64;
    let t = terr_at(c, c.idx);
    let ty = TYPES[(c.idx / nt % 12) as usize].0;
    let s = match c.typed(t, ty) { Some(s) => { c.count("matching_a_type"); s } None => { c.count("no_such_type"); c.any_nsn(t) } };
    let s = if c.idx / nt / 12 % 2 == 1 { c.count("one_digit_away"); mutate_digits(&mut c.r, &s) } else { s };
    if s.is_empty() || s.len() > 19 { return; }
    let n = Num::of(t.cc, &s);
    c.seen(&format!("{} {s}", t.cc));
    check_validity(c, &n, t);
}
pub fn c09_any(c: &mut Case) {
    let (n, t) = c.any_num();
    let n = if c.r.chance(1, 10) { Num { cc: Some(c.r.below(1000) as i32), ..n } } else { n };
    c.seen(&format!("{} {}", n.ccv(), n.nsn()));
    check_validity(c, &n, t);
}

// ---- C10 ---------------------------------------------------------------------------------------------------------
pub fn c10(c: &mut Case) {
    let n = match c.r.below(8) { 0 => c.hostile_num(), 1 | 2 => c.valid_num().0, _ => c.any_num().0 };
    let a = c.api;
    c.seen(&format!("{:?}", n.core()));
    let (valid, possible, reason, ty, region) = (a.valid(&n), a.possible(&n), a.possible_reason(&n), a.ntype(&n), a.region_for(&n));
    c.count(if valid { "valid" } else { "invalid" });
    c.ok("valid-implies-possible", c.e.synthetic || !valid || possible, || format!("{n:?} is valid but not possible ({reason:?})"));
    c.ok("valid-iff-typed", valid == (ty != NType::Unknown), || format!("{n:?}: valid={valid}, type={ty:?}"));
    c.ok("possible-iff-verdict", possible == matches!(reason, Len::Possible | Len::LocalOnly), || format!("{n:?}: possible={possible}, verdict={reason:?}"));
    c.ok("valid-iff-valid-for-its-region", valid == a.valid_for(&n, &region), || format!("{n:?}: valid={valid}, valid for {region}: {}", !valid));
    let regions = a.regions_for_cc(n.ccv());
    c.ok("region-of-code", region == "ZZ" || regions.as_ref().map(|v| v.contains(&region)).unwrap_or(false), || format!("{n:?}: region {region} not among {regions:?}"));
    if let Some(v) = &regions {
        let claimed = v.iter().any(|r| a.valid_for(&n, r));
        c.ok("unknown-means-unclaimed", c.e.synthetic || region != "ZZ" || !claimed, || format!("{n:?}: region unknown yet valid for one of {v:?}"));
        c.ok("claimed-means-valid", !claimed || valid || v.len() > 1, || format!("{n:?}: valid for one of {v:?} but not valid"));
        if v.len() > 1 && region != "ZZ" { c.count("shared_code_resolved"); }
    } else { c.ok("unassigned", region == "ZZ" && !valid && reason == Len::BadCc, || format!("{n:?}: region {region}, valid {valid}, {reason:?}")); }
    let r = c.region();
    if a.valid_for(&n, &r) {
        c.count("valid_for_some_region");
        let cc = if r == "001" { regions.as_ref().filter(|v| v.contains(&r)).map(|_| n.ccv()) } else { a.cc_for_region(&r) };
        c.eq("valid-region-has-code", cc, Some(n.ccv()), || format!("{n:?} valid for {r}"));
    }
    // provenance never matters
    let mut d = c.dress(n.clone());
    d.ext = if c.r.chance(1, 2) { Some(c.ext()) } else { None };
    c.eq("provenance-ignored", (a.valid(&d), a.possible(&d), a.possible_reason(&d), a.ntype(&d), a.region_for(&d), a.valid_for(&d, &r), a.geographical(&d), a.intl_diallable(&d)),
        (valid, possible, reason, ty, region.clone(), a.valid_for(&n, &r), a.geographical(&n), a.intl_diallable(&n)), || format!("{n:?} against {d:?}"));
    c.eq("reference-region", region, c.m().region_of(&n).to_string(), || format!("region of {n:?}"));
}

// ---- C11 ---------------------------------------------------------------------------------------------------------
pub fn c11(c: &mut Case) {
    // calling code x length, exhaustively; digits vary
    let cc = (c.idx % 1003) as i32 - 1;
    for len in 1..=20usize {
        let mut s = c.r.digits(len);
        if let Some(t) = c.meta().main_terr(cc) { if c.r.chance(1, 2) { let v = c.valid_nsn(t); s = v.chars().chain(s.chars()).take(len).collect(); } }
        let n = if len > 19 { Num { cc: Some(cc), nn: Some(1), ilz: Some(true), nlz: Some(19), ..Default::default() } } else { Num::of(cc, &s) };
        if n.nsn().len() != len { continue; }
        let got = c.api.possible_reason(&n);
        let want = c.m().possible(&n);
        c.count(&format!("verdict_{want:?}"));
        c.eq("verdict", got, want, || format!("possible length of {n:?} ({len} digits)"));
        c.eq("possible", c.api.possible(&n), matches!(want, Len::Possible | Len::LocalOnly), || format!("{n:?}"));
        // digits are irrelevant
        let z = c.r.range(0, len - 1);
        let o = Num::of(cc, &format!("{}{}", "0".repeat(z), { let mut d = c.r.digits(len - z); if d.starts_with('0') { d.replace_range(0..1, "7") } d }));
        if o.nsn().len() == len { c.eq("digits-irrelevant", c.api.possible_reason(&o), got, || format!("{o:?} against {n:?}")); }
        c.seen(&format!("{cc} {len}"));
    }
}
pub fn c11_any(c: &mut Case) {
    let n = match c.r.below(4) { 0 => c.hostile_num(), _ => c.any_num().0 };
    c.seen(&format!("{:?}", n.core()));
    let want = c.m().possible(&n);
    c.count(&format!("verdict_{want:?}"));
    c.eq("verdict-any", c.api.possible_reason(&n), want, || format!("possible length of {n:?}"));
    c.eq("possible-any", c.api.possible(&n), matches!(want, Len::Possible | Len::LocalOnly), || format!("{n:?}"));
}

// ---- C12 ---------------------------------------------------------------------------------------------------------
pub fn c12_regions(c: &mut Case) {
    let a = c.api;
    let mut got = a.supported();
    let mut want = c.meta().regions.clone();
    got.sort(); want.sort();
    c.add("supported_regions", got.len() as u64);
    c.eq("supported-regions", got.clone(), want, || "supported regions".into());
    for r in &got {
        let t = c.meta().region(r);
        c.eq("code-of-region", a.cc_for_region(r), t.map(|t| t.cc), || r.clone());
        c.eq("nanpa", a.is_nanpa(r), t.map(|t| t.cc == 1).unwrap_or(false), || r.clone());
        if let Some(t) = t { c.ok("region-listed-for-code", a.regions_for_cc(t.cc).map(|v| v.contains(r)).unwrap_or(false), || format!("{r} under {}", t.cc)); }
        c.seen(r);
    }
}
pub fn c12_codes(c: &mut Case) {
    let a = c.api;
    let cc = match c.idx { 0..=2099 => c.idx as i32 - 100, 2100 => i32::MAX, 2101 => i32::MIN, _ => c.r.u64() as i32 };
    let v = c.meta().by_cc.get(&cc);
    c.seen(&cc.to_string());
    c.count(if v.is_some() { "assigned" } else { "unassigned" });
    let got = a.regions_for_cc(cc);
    let sorted = |v: Option<Vec<String>>| v.map(|mut v| { v.sort(); v });
    c.eq("regions-of-code", sorted(got.clone()), sorted(v.cloned()), || format!("regions of {cc}"));
    let main = c.meta().main_region(cc).to_string();
    c.eq("main-region", got.and_then(|g| g.first().cloned()).unwrap_or("ZZ".into()), main.clone(), || format!("first region of {cc}"));
    c.eq("region-of-code", a.region_for_cc(cc), main, || format!("region of {cc}"));
}
pub fn c12_unknown(c: &mut Case) {
    let r = match c.r.below(4) { 0 => c.weird(4), 1 => format!("{}{}", (b'A' + c.r.below(26) as u8) as char, (b'A' + c.r.below(26) as u8) as char), 2 => c.region().to_lowercase(), _ => c.region() };
    let t = c.meta().region(&r);
    c.seen(&r);
    c.eq("code-of-any-region", c.api.cc_for_region(&r), t.map(|t| t.cc), || format!("{r:?}"));
    c.eq("nanpa-any", c.api.is_nanpa(&r), t.map(|t| t.cc == 1).unwrap_or(false), || format!("{r:?}"));
}
/// names one character away from a region's, and other ways to write it: none of them is a region
pub fn c12_near(c: &mut Case) {
    let regions = &c.meta().regions;
    let r = regions[c.idx as usize % regions.len()].clone();
    let b: Vec<char> = r.chars().collect();
    let extra = ['\u{a0}', '\u{ad}', '\u{200b}', '\u{200e}', '\u{2060}', '\u{feff}', '\u{301}', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{ff21}', '\u{ff33}', '\u{430}', '\u{1f1e6}', '\u{e0041}', '\u{fffd}', '\u{10ffff}'];
    let mut names: Vec<String> = vec![];
    for x in (0u8..128).map(|x| x as char).chain(extra) {
        for at in 0..=b.len() {
            let mut v = b.clone(); v.insert(at, x); names.push(v.into_iter().collect());
            if at < b.len() { let mut v = b.clone(); v[at] = x; names.push(v.into_iter().collect()); }
        }
    }
    let wide: String = b.iter().map(|&x| char::from_u32(x as u32 + 0xfee0).unwrap_or(x)).collect();
    let flag: String = b.iter().map(|&x| char::from_u32(x as u32 - 'A' as u32 + 0x1f1e6).unwrap_or(x)).collect();
    names.extend([r.to_lowercase(), b.iter().rev().collect(), wide, flag, format!("{r}{r}"), format!("en-{r}"), format!("en_{r}"), format!("{r}-1"), format!("{r}\r\n"), format!("\0\0{r}"), r[..1].to_string(), String::new()]);
    let (a, cc) = (c.api, c.meta().region(&r).unwrap().cc);
    let n = a.example(&r).ok();
    for x in names {
        if x == r { continue; }
        let t = c.meta().region(&x);
        c.count("names");
        c.eq("code-of-near-name", a.cc_for_region(&x), t.map(|t| t.cc), || format!("{x:?}"));
        c.eq("nanpa-near-name", a.is_nanpa(&x), t.map(|t| t.cc == 1).unwrap_or(false), || format!("{x:?}"));
        if t.is_some() || x == "001" { continue; }
        c.seen(&x);
        if let Some(n) = &n {
            if c.r.chance(1, 8) {
                let nsn = a.nsn(n);
                c.count("names_used");
                c.eq("valid-for-near-name", a.valid_for(n, &x), false, || format!("{n:?} for {x:?}"));
                c.ok("example-of-near-name", a.example(&x).is_err(), || format!("example of {x:?}"));
                c.ok("parse-in-near-name", a.parse(&nsn, &x).is_err(), || format!("{nsn} in {x:?}"));
                c.eq("called-from-near-name", a.ooc(n, &x), a.format(n, F::Intl), || format!("+{cc} {nsn} from {x:?}"));
            }
        }
    }
}

// ---- C13 ---------------------------------------------------------------------------------------------------------
pub fn c13_regions(c: &mut Case) {
    let regions = &c.meta().regions;
    let r = regions[c.idx as usize % regions.len()].clone();
    let t = c.meta().region(&r).unwrap();
    let a = c.api;
    let ex = t.d(Ty::FixedLine).example.clone();
    c.seen(&r);
    match (&ex, a.example(&r)) {
        (Some(e), Ok(n)) => {
            c.count("examples");
            c.eq("example-published", (n.ccv(), a.nsn(&n)), (t.cc, e.clone()), || format!("example of {r}"));
            c.ok("example-valid", a.valid(&n) && a.valid_for(&n, &r), || format!("example {n:?} of {r}"));
            c.ok("example-type", matches!(a.ntype(&n), NType::FixedLine | NType::FixedLineOrMobile), || format!("example {n:?} of {r}"));
        }
        (None, Err(_)) => c.count("no_example"),
        (e, g) => c.fail("example", format!("example of {r}: {g:?}, published {e:?}")),
    }
    match a.invalid_example(&r) {
        Ok(n) => {
            c.count("invalid_examples");
            c.ok("invalid-example", !a.valid(&n), || format!("invalid example {n:?} of {r} is valid"));
            let s = a.nsn(&n);
            c.ok("invalid-example-parses", a.parse(&s, &r).is_ok() && n.ccv() == t.cc, || format!("invalid example {n:?} of {r}"));
            c.eq("invalid-example-which", a.invalid_example(&r).map(|n| n.core()), Ok(reference_invalid(c, t).unwrap_or_default()), || format!("invalid example of {r}"));
        }
        Err(e) => { c.ok("invalid-example-missing", ex.is_none() || reference_invalid(c, t).is_none(), || format!("invalid example of {r}: {e:?}")); }
    }
}
fn reference_invalid(c: &Case, t: &Terr) -> Option<Num> {
    let e = t.d(Ty::FixedLine).example.clone()?;
    (2..e.len()).rev().find_map(|k| c.m().parse(&e[..k], &t.id, false).ok().filter(|n| !c.m().valid(n)).map(|n| n.core()))
}
pub fn c13_types(c: &mut Case) {
    // a fresh instance each time: the region the example comes from depends on the instance
    let u = rlibphonenumber::PhoneNumberUtil::new();
    let a = Api { u: &u };
    for t in ALL_TYPES {
        let got = a.example_type(t);
        match &got {
            Ok(n) => {
                let ty = c.m().number_type(n);
                c.seen(&format!("{t:?} {n:?}"));
                c.count("type_examples");
                let ok = match t { NType::Unknown => ty != NType::Unknown || c.m().possible(n) == Len::Possible, NType::FixedLineOrMobile | NType::FixedLine => matches!(ty, NType::FixedLine | NType::FixedLineOrMobile), NType::Mobile => matches!(ty, NType::Mobile | NType::FixedLineOrMobile), _ => ty == t };
                c.ok("example-of-type", ok, || format!("example for {t:?}: {n:?} has type {ty:?}"));
                let tys: &[Ty] = match t { NType::FixedLine | NType::FixedLineOrMobile => &[Ty::FixedLine], NType::Mobile => &[Ty::Mobile], NType::TollFree => &[Ty::TollFree], NType::Premium => &[Ty::Premium], NType::SharedCost => &[Ty::SharedCost],
                    NType::Voip => &[Ty::Voip], NType::Personal => &[Ty::Personal], NType::Pager => &[Ty::Pager], NType::Uan => &[Ty::Uan], NType::Voicemail => &[Ty::Voicemail], NType::Unknown => &[Ty::General] };
                let published = c.meta().terrs.iter().any(|x| x.cc == n.ccv() && tys.iter().any(|y| x.d(*y).example.as_deref() == Some(n.nsn().as_str())));
                c.ok("type-example-published", published, || format!("example for {t:?}: {n:?} is not a published example"));
                c.eq("type-example-stable", a.example_type(t), got.clone(), || format!("example for {t:?} asked twice"));
            }
            Err(e) => {
                let any = c.meta().terrs.iter().any(|x| x.descs.iter().any(|(y, d)| d.example.is_some() && (format!("{y:?}") == format!("{t:?}") || t == NType::FixedLineOrMobile && *y == Ty::FixedLine)));
                c.ok("type-without-example", !any, || format!("example for {t:?}: {e:?}"));
            }
        }
    }
}
pub fn c13_unsupported(c: &mut Case) {
    let r = match c.r.below(3) { 0 => c.weird(4), 1 => "001".into(), _ => c.region() };
    if c.meta().region(&r).is_some() { return; }
    c.seen(&r);
    c.eq("unsupported-example", c.api.example(&r), Err(XErr::InvalidRegion), || format!("{r:?}"));
    c.eq("unsupported-invalid-example", c.api.invalid_example(&r), Err(XErr::InvalidRegion), || format!("{r:?}"));
}

// ---- C14 / C15 ---------------------------------------------------------------------------------------------------
/// groups used in order, each once, and no digit of its own?
fn conserving(tmpl: &str, groups: usize) -> bool {
    let b: Vec<char> = tmpl.chars().collect();
    let (mut i, mut next) = (0, 1);
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() { if b[i + 1].to_digit(10) != Some(next) { return false; } next += 1; i += 2; continue; }
        if b[i].is_ascii_digit() { return false; }
        i += 1;
    }
    next as usize == groups + 1
}
pub fn c14(c: &mut Case) {
    let n = match c.r.below(12) {
        0 => { let (mut n, _) = c.any_num(); n.cc = Some(c.r.below(1000) as i32); n }
        1 => { let (mut n, _) = c.any_num(); n.ilz = Some(true); n.nlz = match c.r.below(4) { 0 => None, 1 => Some(0), _ => Some(c.r.below(6) as i32) }; n }
        2 => { let (mut n, _) = c.any_num(); n.nlz = Some(3); n.ilz = if c.r.chance(1, 2) { Some(false) } else { None }; n }
        3 => Num { cc: Some(c.terr().cc), nn: Some(c.r.u64() >> c.r.below(60)), ..Default::default() },
        4..=6 => c.valid_num().0,
        _ => c.any_num().0,
    };
    let n = c.with_ext(n, 1, 4);
    if n.nnv() == 0 { c.count("national_number_zero"); }
    let cc = n.ccv();
    let a = c.api;
    let nsn = a.nsn(&n);
    c.seen(&format!("{n:?}"));
    c.eq("nsn", nsn.clone(), n.nsn(), || format!("national significant number of {n:?}"));
    c.eq("e164", a.format(&n, F::E164), format!("+{cc}{nsn}"), || format!("E.164 of {n:?}"));
    let (i, nat, r) = (a.format(&n, F::Intl), a.format(&n, F::Nat), a.format(&n, F::Rfc));
    let Some(t) = c.meta().main_terr(cc) else {
        c.count("unassigned_code");
        for s in [i, nat, r] { c.eq("unassigned", s, nsn.clone(), || format!("{n:?}")); }
        return;
    };
    let ext = n.extv().to_string();
    let list = if t.ifmts.is_empty() { &t.fmts } else { &t.ifmts };
    let fi = c.m().choose(list, &nsn);
    let strict = fi.map(|f| conserving(&f.format, f.pattern.full_re().captures_len() - 1)).unwrap_or(true);
    let head = format!("+{cc} ");
    c.ok("international-shape", i.starts_with(&head), || format!("international form of {n:?}: {i:?}"));
    if strict {
        c.count("international_strict");
        c.eq("international-digits", ascii_digits(&i), format!("{cc}{nsn}{ext}"), || format!("international form of {n:?}: {i:?}"));
        c.eq("rfc-digits", ascii_digits(&r), format!("{cc}{nsn}{ext}"), || format!("RFC 3966 form of {n:?}: {r:?}"));
    } else { c.count("international_reordered_by_plan"); }
    let (body, e) = r.split_once(";ext=").map(|(b, e)| (b, Some(e))).unwrap_or((r.as_str(), None));
    c.eq("rfc-extension", e.unwrap_or(""), ext.as_str(), || format!("RFC 3966 form of {n:?}: {r:?}"));
    let pre = format!("tel:+{cc}-");
    let groups_ok = body.strip_prefix(&pre).map(|g| !g.is_empty() && g.split('-').all(|x| !x.is_empty() && x.chars().all(|y| y.is_ascii_digit() || y == '*'))).unwrap_or(false);
    c.ok("rfc-shape", groups_ok, || format!("RFC 3966 form of {n:?}: {r:?}"));
    // national: the significant number plus at most the plan's prefix
    let fnat = c.m().choose(&t.fmts, &nsn);
    if fnat.map(|f| conserving(&f.format, f.pattern.full_re().captures_len() - 1)).unwrap_or(true) {
        let got = ascii_digits(&nat);
        let want = format!("{nsn}{ext}");
        let lit = fnat.map(|f| ascii_digits(&f.np_rule.replace("$1", ""))).unwrap_or_default();
        let lead = got.strip_suffix(&want);
        c.count("national_strict");
        c.ok("national-digits", lead == Some("") || lead == Some(lit.as_str()), || format!("national form of {n:?}: {nat:?} (plan prefix {lit:?})"));
    } else { c.count("national_reordered_by_plan"); }
    for f in [F::Intl, F::Nat, F::Rfc] { c.eq("format-model", a.format(&n, f), c.m().format(&n, f), || format!("{f:?} form of {n:?}")); }
}
pub fn c15_formats(c: &mut Case) {
    // every format of every plan in turn
    thread_local! { static ALL: std::cell::RefCell<Vec<(usize, bool, usize)>> = const { std::cell::RefCell::new(Vec::new()) } }
    let pick = ALL.with(|v| {
        let mut v = v.borrow_mut();
        if v.is_empty() || c.e.synthetic { v.clear(); for (i, t) in c.meta().terrs.iter().enumerate() { for k in 0..t.fmts.len() { v.push((i, false, k)) } for k in 0..t.ifmts.len() { v.push((i, true, k)) } } }
        (!v.is_empty()).then(|| v[c.idx as usize % v.len()])
    });
    let Some(pick) = pick else { return };
    let t = &c.meta().terrs[pick.0];
    let f = if pick.1 { &t.ifmts[pick.2] } else { &t.fmts[pick.2] };
    let mut s = c.fmt_nsn(f);
    for _ in 0..6 { if c.m().choose(if pick.1 { &t.ifmts } else { &t.fmts }, &s).map(|g| std::ptr::eq(g, f)).unwrap_or(false) { c.count("hit_the_format"); break; } s = c.fmt_nsn(f); }
    if c.r.chance(1, 6) { s = mutate_digits(&mut c.r, &s); }
    if s.is_empty() || s.len() > 19 { return; }
    let n = Num::of(t.cc, &s);
    check_format(c, n);
}
pub fn c15_any(c: &mut Case) { let n = c.any_num().0; check_format(c, n) }
fn check_format(c: &mut Case, n: Num) {
    if n.nnv() == 0 { return; }
    let n = c.with_ext(n, 1, 6);
    c.seen(&format!("{} {} {}", n.ccv(), n.nsn(), n.extv()));
    for f in ALLF { c.eq("format", c.api.format(&n, f), c.m().format(&n, f), || format!("{f:?} form of {n:?}")); }
    if let Some(t) = c.meta().main_terr(n.ccv()) {
        let nsn = n.nsn();
        let k = if c.m().choose(&t.fmts, &nsn).is_none() { "no_rule_applies" } else if t.ifmts.is_empty() { "national_list" } else { "international_list" };
        c.count(k);
    }
}

// ---- C16 ---------------------------------------------------------------------------------------------------------
pub fn c16(c: &mut Case) {
    let regions = &c.meta().regions;
    let from = match c.idx % 8 { 0 => c.region(), _ => regions[(c.idx / 8) as usize % regions.len()].clone() };
    let n = match c.r.below(10) {
        0 => { let (mut n, _) = c.any_num(); n.cc = Some(c.r.below(1000) as i32); n }
        1 | 2 => match c.meta().region(&from) { Some(t) => { let r = c.meta().by_cc[&t.cc].clone(); let k = r[c.r.below(r.len())].clone(); let t2 = c.meta().region(&k).unwrap(); let s = c.any_nsn(t2); Num::of(t2.cc, &s) } None => c.any_num().0 },
        3..=6 => c.valid_num().0,
        _ => c.any_num().0,
    };
    if n.nnv() == 0 { return; }
    let n = c.with_ext(n, 1, 4);
    let a = c.api;
    c.seen(&format!("{} {} from {from}", n.ccv(), n.nsn()));
    let got = a.ooc(&n, &from);
    let cc = n.ccv();
    let want = match c.meta().region(&from) {
        None => { c.count("unknown_region"); a.format(&n, F::Intl) }
        Some(_) if !c.meta().by_cc.contains_key(&cc) => { c.count("unassigned_code"); a.nsn(&n) }
        Some(f) if cc == 1 && f.cc == 1 => { c.count("within_nanpa"); format!("1 {}", a.format(&n, F::Nat)) }
        Some(f) if cc == f.cc => { c.count("same_code"); a.format(&n, F::Nat) }
        Some(f) => {
            let i = a.format(&n, F::Intl);
            let p = c.m().dial_prefix(f);
            if p.is_empty() { c.count("plus"); i } else { c.count("dialled_prefix"); format!("{p} {}", i.strip_prefix('+').unwrap_or(&i)) }
        }
    };
    c.eq("out-of-country", got.clone(), want, || format!("{n:?} from {from:?}"));
    c.eq("out-of-country-model", got, c.m().out_of_country(&n, &from), || format!("{n:?} from {from:?}"));
}

// ---- C17 ---------------------------------------------------------------------------------------------------------
pub fn c17(c: &mut Case) {
    let n = match c.r.below(10) {
        0 => { let (mut n, _) = c.any_num(); n.cc = Some(c.r.below(1000) as i32); n.raw = if c.r.chance(1, 2) { Some(c.weird(8)) } else { None }; n }
        1..=5 => c.valid_num().0,
        6 => { let k = *c.r.pick(&["BR", "MX", "CL", "UZ", "US", "CA", "JM"]); match c.meta().region(k) { Some(t) => { let s = c.valid_nsn(t); Num::of(t.cc, &s) } None => c.any_num().0 } }
        7 => { let t = c.terr(); match c.typed(t, Ty::NoIntl) { Some(s) => { c.count("not_diallable_from_abroad"); Num::of(t.cc, &s) } None => c.any_num().0 } }
        _ => c.any_num().0,
    };
    let mut n = c.with_ext(n, 1, 3);
    if c.r.chance(1, 3) { n.carrier = Some(match c.r.below(3) { 0 => String::new(), _ => c.r.digits(2) }); }
    if n.nnv() == 0 && n.raw.is_none() { return; }
    let main = c.meta().main_region(n.ccv()).to_string();
    let from = match c.r.below(4) { 0 | 1 => main.clone(), 2 => c.api.region_for(&n), _ => c.region() };
    c.seen(&format!("{} {} from {from}", n.ccv(), n.nsn()));
    let a = c.api;
    let (fm, un) = (a.mobile(&n, &from, true), a.mobile(&n, &from, false));
    c.eq("mobile-formatted", fm.clone(), c.m().mobile_dialing(&n, &from, true), || format!("mobile dialling {n:?} from {from:?}"));
    c.eq("mobile-plain", un.clone(), c.m().mobile_dialing(&n, &from, false), || format!("mobile dialling {n:?} from {from:?}, unformatted"));
    if !c.meta().by_cc.contains_key(&n.ccv()) { c.count("unassigned_code"); c.eq("mobile-unassigned", un, n.rawv().to_string(), || format!("{n:?}")); return; }
    if n.nnv() == 0 { return; }
    c.ok("only-diallable", un.chars().all(|x| x.is_ascii_digit() || "+*#".contains(x)), || format!("{n:?} from {from:?}: {un:?}"));
    if !c.e.synthetic { c.eq("formatting-is-only-grouping", diallable(&fm), un.clone(), || format!("{n:?} from {from:?}")); } // a plan may print signs of its own or leave digits out
    let mut bare = n.clone();
    bare.ext = None;
    c.eq("extension-dropped", a.mobile(&bare, &from, true), fm.clone(), || format!("{n:?} from {from:?}"));
    if from != main {
        let want = if a.valid(&bare) && a.intl_diallable(&bare) { c.count("from_abroad"); a.format(&bare, F::Intl) } else { c.count("not_from_abroad"); String::new() };
        c.eq("from-abroad", fm, want, || format!("{n:?} from {from:?}"));
    } else {
        c.count("from_own_region");
        let ok = [a.format(&bare, F::Nat), a.format(&bare, F::Intl)].contains(&fm) || main == "BR";
        c.ok("from-own-region", ok, || format!("{n:?} from {from:?}: {fm:?}"));
    }
}

// ---- C18 ---------------------------------------------------------------------------------------------------------
pub fn c18(c: &mut Case) {
    let (t, r) = if c.r.chance(1, 4) { c.text() } else {
        let (n, t) = if c.r.chance(3, 4) { c.valid_num() } else { c.any_num() };
        let from = if t.id != "001" && c.r.chance(3, 4) { t.id.clone() } else { c.geo_region() };
        let mut s = match c.r.below(3) { 0 => { let f = *c.r.pick(&ALLF); c.m().format(&n, f) } 1 => c.m().out_of_country(&n, &from), _ => { let d = c.dialled(&n, t, &from); c.spell_plain(&d) } };
        if c.r.chance(1, 8) { let e = c.ext(); s.push_str(&format!(" ext. {e}")); }
        (s, from)
    };
    let Ok(n) = c.api.parse_raw(&t, &r) else { return };
    let from = if c.r.chance(1, 6) { c.region() } else { r.clone() };
    original_check(c, &n, &from);
}
fn original_check(c: &mut Case, n: &Num, from: &str) {
    let a = c.api;
    let got = a.original(n, from);
    c.seen(&format!("{:?} {from}", n.raw));
    if !n.rawv().is_empty() {
        let parsed = !matches!(n.src, None | Some(Src::Unspecified));
        c.ok("diallable-characters", !parsed || diallable(&got) == diallable(n.rawv()), || format!("{n:?} from {from:?}: {got:?}"));
        if got == n.rawv() { c.count("raw_returned"); } else { c.count("regrouped"); }
        match n.src {
            _ if got == n.rawv() => {}
            Some(Src::Plus) => { c.count("style_plus"); c.eq("style-plus", got.clone(), a.format(n, F::Intl), || format!("{n:?}")); }
            Some(Src::Idd) => { c.count("style_idd"); c.eq("style-idd", got.clone(), a.ooc(n, from), || format!("{n:?} from {from:?}")); }
            Some(Src::NoPlus) => { c.count("style_bare_code"); c.eq("style-bare-code", format!("+{got}"), a.format(n, F::Intl), || format!("{n:?}")); }
            _ => c.count("style_national"),
        }
    }
    c.eq("original-model", got, c.m().original(n, from), || format!("original format of {n:?} from {from:?}"));
}
pub fn c18_dressed(c: &mut Case) {
    // provenance that a caller changed or mixed
    let (n, t) = if c.r.chance(2, 3) { c.valid_num() } else { c.any_num() };
    let n = c.with_ext(n, 1, 6);
    let mut n = c.dress(n);
    if n.nnv() == 0 { return; }
    if c.r.chance(1, 2) { let d = c.dialled(&n, t, &t.id); n.raw = Some(c.spell_plain(&d)); }
    let from = if t.id == "001" || c.r.chance(1, 3) { c.region() } else { t.id.clone() };
    original_check(c, &n, &from);
}

// ---- C19 ---------------------------------------------------------------------------------------------------------
pub fn c19(c: &mut Case) {
    let t = if c.idx % 2 == 0 { terr_at(c, c.idx / 2) } else { let k = *c.r.pick(&["BR", "CO", "CR", "AR", "SM", "CL", "US"]); match c.meta().region(k) { Some(t) => t, None => c.terr() } };
    let s = if c.r.chance(1, 3) && !t.fmts.is_empty() { let i = c.r.below(t.fmts.len()); c.fmt_nsn(&t.fmts[i]) } else { c.any_nsn(t) };
    if s.is_empty() || s.len() > 19 { return; }
    let mut n = Num::of(t.cc, &s);
    if c.r.chance(1, 12) { n.cc = Some(c.r.below(1000) as i32); }
    let n = c.with_ext(n, 1, 4);
    let mut n = n;
    if c.r.chance(1, 5) { n.carrier = Some(c.r.digits(2)); }
    let car = match c.r.below(6) { 0 => String::new(), 1 => "1".into(), 2 => c.r.pick(&["15", "0", "ABC", "*31#", " ", "é", "12345"]).to_string(), _ => { let k = c.r.range(1, 3); c.r.digits(k) } };
    if n.nnv() == 0 { return; }
    c.seen(&format!("{} {} carrier {car}", n.ccv(), n.nsn()));
    let a = c.api;
    let got = a.with_carrier(&n, &car);
    c.eq("carrier-model", got.clone(), c.m().with_carrier(&n, &car), || format!("{n:?} with carrier {car:?}"));
    let Some(mt) = c.meta().main_terr(n.ccv()) else { c.count("unassigned_code"); c.eq("carrier-unassigned", got, a.nsn(&n), || format!("{n:?}")); return };
    let nsn = n.nsn();
    let rule = c.m().choose(&mt.fmts, &nsn);
    let has = rule.map(|r| !r.cc_rule.is_empty()).unwrap_or(false) && !car.is_empty();
    if !has { c.count("no_carrier_rule"); c.eq("carrier-none", got, a.format(&n, F::Nat), || format!("{n:?} with carrier {car:?}")); } else {
        c.count("carrier_rule");
        c.ok("carrier-inserted", got.contains(&car), || format!("{n:?} with carrier {car:?}: {got:?}"));
    }
}

// ---- C20 ---------------------------------------------------------------------------------------------------------
pub fn c20(c: &mut Case) {
    let (n0, t) = if c.r.chance(4, 5) { c.valid_num() } else { c.any_num() };
    let home = if t.id == "001" { c.geo_region() } else { t.id.clone() };
    let d = c.dialled(&n0, t, &home);
    let v = if c.r.chance(3, 4) { c.vanity(&d) } else { d };
    let mut plain = c.r.chance(3, 4); // an ordinary spelling of the number, nothing else in it
    let mut s = if plain { c.spell_plain(&v) } else { c.spell(&v) };
    if c.r.chance(1, 5) { let e = c.ext(); let (l, _) = c.ext_label(); s = format!("{s}{l}{e}"); plain = false; }
    let n = match c.api.parse_raw(&s, &home) { Ok(n) => n, Err(_) => { plain = false; let mut n = c.dress(n0.clone()); n.raw = Some(s.clone()); n } };
    let mut n = n;
    match c.r.below(12) { 0 => n.raw = None, 1 => n.raw = Some(String::new()), 2 => n.cc = Some(c.r.below(1000) as i32), 3 => { let v = c.text().0; n.raw = Some(v); plain = false } _ => {} }
    let from = match c.r.below(4) { 0 => home.clone(), 1 => c.region(), _ => c.geo_region() };
    if n.nnv() == 0 { return; }
    c.seen(&format!("{:?} from {from}", n.raw));
    let a = c.api;
    let got = a.keep_alpha(&n, &from);
    c.eq("keep-alpha-model", got.clone(), c.m().keep_alpha(&n, &from), || format!("keeping letters of {n:?} from {from:?}"));
    if n.rawv().is_empty() { c.count("no_raw_input"); c.eq("no-letters", got, a.ooc(&n, &from), || format!("{n:?} from {from:?}")); return; }
    if !c.meta().by_cc.contains_key(&n.ccv()) { c.count("unassigned_code"); c.eq("keep-alpha-unassigned", got, n.rawv().to_string(), || format!("{n:?}")); return; }
    if !plain { return; }
    // letters typed from the national number on are kept, in order (the part the extension occupies aside)
    let kept: String = got.chars().filter(|x| x.is_ascii_alphanumeric()).collect();
    let typed = Model::grouping_symbols(n.rawv());
    let nsn = n.nsn();
    let tail = if nsn.len() > 3 { typed.find(&nsn[..3]).map(|i| typed[i..].to_string()).unwrap_or(typed) } else { typed };
    if n.extv().is_empty() && c.m().strip_ext(&format!("+{} {tail}", n.ccv())).1.is_none() {
        let want: String = tail.chars().filter(|x| x.is_ascii_alphanumeric()).collect();
        c.count(if want.chars().any(|x| x.is_ascii_alphabetic()) { "letters_kept" } else { "digits_only" });
        c.ok("letters-kept", kept.ends_with(&want), || format!("{n:?} from {from:?}: {got:?} should end with the characters of {tail:?}"));
    }
    if let Some(f) = c.meta().region(&from) {
        if f.cc != n.ccv() {
            let p = if Model::single_prefix(&f.intl_prefix.src) { f.intl_prefix.src.clone() } else { f.pref_intl_prefix.clone().unwrap_or_default() };
            let head = if p.is_empty() { c.count("plus"); format!("+{} ", n.ccv()) } else { c.count("dialled_prefix"); format!("{p} {} ", n.ccv()) };
            c.ok("keep-alpha-prefix", got.starts_with(&head), || format!("{n:?} from {from:?}: {got:?} should start with {head:?}"));
        }
    }
}

// ---- C21 ---------------------------------------------------------------------------------------------------------
pub fn c21(c: &mut Case) {
    let a = match c.r.below(6) { 0 => c.hostile_num(), _ => { let n = c.any_num().0; c.with_ext(n, 1, 2) } };
    let mut b = if c.r.chance(1, 8) { c.any_num().0 } else { a.clone() };
    for _ in 0..c.r.below(4) {
        match c.r.below(12) {
            0 => b.cc = None, 1 => b.cc = Some(0), 2 => b.cc = Some(c.terr().cc), 3 => b.ext = None, 4 => b.ext = Some(String::new()), 5 => b.ext = Some(c.ext()),
            6 => b.nn = Some(b.nnv() % 10u64.pow(c.r.range(1, 12) as u32)), 7 => b.nn = Some(b.nnv() / 10),
            8 => { b.ilz = if c.r.chance(1, 2) { Some(true) } else { None }; b.nlz = match c.r.below(4) { 0 => None, 1 => Some(1), 2 => Some(2), _ => Some(0) } }
            9 => b.nlz = Some(3), 10 => b.ilz = Some(false), _ => { let s = mutate_digits(&mut c.r, &b.nnv().to_string()); b.nn = s.parse().ok().or(Some(1)) }
        }
    }
    let mut a = a;
    if c.r.chance(1, 4) { a.cc = match c.r.below(3) { 0 => None, 1 => Some(0), _ => a.cc }; }
    if c.r.chance(1, 8) { a.ext = Some(String::new()); }
    let (da, db) = (c.dress(a.clone()), c.dress(b.clone()));
    c.seen(&format!("{a:?} {b:?}"));
    let got = c.api.matching(&a, &b);
    c.count(&format!("{got:?}"));
    c.eq("match-model", got, c.m().matching(&a, &b), || format!("match of {a:?} and {b:?}"));
    c.eq("symmetric", c.api.matching(&b, &a), got, || format!("match of {b:?} and {a:?}"));
    c.eq("provenance-ignored", c.api.matching(&da, &db), got, || format!("match of {da:?} and {db:?}"));
    c.eq("self-match", c.api.matching(&a, &da), if a.ccv() == 0 { M::Nsn } else { M::Exact }, || format!("match of {a:?} and {da:?}"));
    if a.ext.is_none() { let mut e = a.clone(); e.ext = Some(String::new()); c.eq("empty-extension", c.api.matching(&e, &b), got, || format!("match of {e:?} and {b:?}")); }
}

// ---- C22 ---------------------------------------------------------------------------------------------------------
pub fn c22(c: &mut Case) {
    let (n, t) = if c.r.chance(3, 4) { c.valid_num() } else { c.any_num() };
    let extra = match c.r.below(6) { 0 => 0, 1 => 5, _ => c.r.range(1, 4) };
    let mut s = n.nsn() + &c.r.digits(extra);
    s.truncate(19);
    let mut n = Num::of(if c.r.chance(1, 15) { c.r.below(1000) as i32 } else { t.cc }, &s);
    if c.r.chance(1, 3) { n = c.with_ext(n, 1, 2); n = c.dress(n); }
    if c.r.chance(1, 12) { n = c.hostile_num(); }
    c.seen(&format!("{n:?}"));
    let a = c.api;
    let (ok, out) = a.truncate(&n);
    c.count(if !ok { "untouched_false" } else if out == n { "already_valid" } else { "truncated" });
    c.eq("truncate-model", (ok, out.core()), { let (b, m) = c.m().truncate(&n); (b, m.core()) }, || format!("truncate {n:?}"));
    if !ok { c.eq("untouched", out.clone(), n.clone(), || format!("truncate {n:?} returned false")); } else {
        c.ok("result-valid", a.valid(&out), || format!("truncate {n:?} gave {out:?}"));
        c.eq("other-fields", Num { nn: None, ..out.clone() }, Num { nn: None, ..n.clone() }, || format!("truncate {n:?}"));
        c.ok("prefix", n.nnv().to_string().starts_with(&out.nnv().to_string()), || format!("truncate {n:?} gave {out:?}"));
        let mut longer = n.nnv();
        while longer > out.nnv() { let m = Num { nn: Some(longer), ..n.clone() }; if !c.ok("longest", !a.valid(&m), || format!("truncate {n:?} gave {out:?} though {longer} is valid")) { break } longer /= 10; }
        c.eq("idempotent", a.truncate(&out), (true, out.clone()), || format!("truncate {out:?} again"));
    }
}

// ---- C23 ---------------------------------------------------------------------------------------------------------
pub fn c23(c: &mut Case) {
    let t = terr_at(c, c.idx);
    let s = match c.r.below(4) { 0 => c.any_nsn(t), 1 => c.typed(t, Ty::FixedLine).unwrap_or("1234567".into()), 2 => c.typed(t, Ty::Mobile).unwrap_or("1234567".into()), _ => c.valid_nsn(t) };
    let mut n = Num::of(t.cc, &s);
    if n.nnv() == 0 { return; }
    if c.r.chance(1, 30) { n.cc = Some(c.r.below(1000) as i32); }
    if c.r.chance(1, 20) { n.ilz = Some(true); }
    let with = c.with_ext(n.clone(), 1, 1);
    c.seen(&format!("{} {}", n.ccv(), n.nsn()));
    let a = c.api;
    let (ndc, area) = (a.ndc_len(&n), a.area_len(&n));
    c.eq("ndc-model", ndc, c.m().ndc_len(&n), || format!("destination code length of {n:?}"));
    c.eq("area-model", area, c.m().area_len(&n), || format!("area code length of {n:?}"));
    c.ok("ndc-bounded", ndc <= a.nsn(&n).len(), || format!("{n:?}: {ndc}"));
    c.ok("area-is-ndc-or-zero", area == 0 || area == ndc, || format!("{n:?}: area {area}, destination code {ndc}"));
    c.ok("area-needs-geography", area == 0 || a.geographical(&n), || format!("{n:?}: area {area}"));
    c.eq("extension-irrelevant", (a.ndc_len(&with), a.area_len(&with)), (ndc, area), || format!("{with:?}"));
    let i = a.format(&n, F::Intl);
    let g: Vec<usize> = i.split(|x: char| !x.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.len()).collect();
    let want = if g.len() < 3 { 0 } else if n.ccv() == 54 && a.ntype(&n) == NType::Mobile { g[2] + 1 } else { g[1] };
    c.eq("ndc-is-second-group", ndc, want, || format!("{n:?} grouped {i:?}"));
    c.count(if area > 0 { "with_area_code" } else if ndc > 0 { "with_destination_code_only" } else { "without" });
    c.eq("geographical-model", a.geographical(&n), c.m().geographical(&n), || format!("{n:?}"));
}

// ---- C24 ---------------------------------------------------------------------------------------------------------
pub fn c24_chars(c: &mut Case) {
    for k in 0..64u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 64 + k) else { continue };
        let s = ch.to_string();
        let want: String = keypad(ch).map(|d| d.to_string()).unwrap_or_else(|| s.clone());
        c.eq("convert-character", c.api.convert_alpha(&s), want, || format!("U+{:04X}", ch as u32));
        let t = format!("650{ch}AB2530000");
        c.eq("alpha-character", c.api.is_alpha(&t), c.m().is_alpha_number(&t), || format!("is_alpha_number({t:?})"));
        c.count("characters");
    }
}
pub fn c24(c: &mut Case) {
    let (t, r) = match c.r.below(3) { 0 => c.text(), _ => {
        let (n, t) = c.any_num();
        let from = if t.id == "001" { c.geo_region() } else { t.id.clone() };
        let d = c.dialled(&n, t, &from);
        let v = c.vanity(&d);
        let mut s = c.spell_plain(&v);
        if c.r.chance(1, 4) { let (l, m) = c.ext_label(); let k = c.r.range(1, m.max(1)); s = format!("{s}{l}{}", c.r.digits(k)); }
        if c.r.chance(1, 6) { s = c.mutate_text(&s); }
        (s, from)
    } };
    c.seen(&t);
    let a = c.api;
    let conv = a.convert_alpha(&t);
    c.eq("convert", conv.clone(), c.m().convert_alpha(&t), || format!("convert({t:?})"));
    c.eq("convert-length", conv.chars().count(), t.chars().count(), || format!("convert({t:?})"));
    c.eq("convert-idempotent", a.convert_alpha(&conv), conv.clone(), || format!("convert({conv:?})"));
    let alpha = a.is_alpha(&t);
    c.count(if alpha { "alpha_numbers" } else { "other_texts" });
    c.eq("is-alpha", alpha, c.m().is_alpha_number(&t), || format!("is_alpha_number({t:?})"));
    // only the number proper is converted when an extension label follows, so compare without one
    if alpha && c.m().strip_ext(&t).1.is_none() && t.chars().all(|x| x.is_ascii() || is_plus(x)) && c.m().strip_ext(&conv).1.is_none() && c.m().extract(&t).ok() == Some(t.as_str()) && c.m().extract(&conv).map(|x| x.len()) == Ok(conv.len()) && !t.contains(";isub=") {
        let (x, y) = (a.parse(&t, &r), a.parse(&conv, &r));
        c.count("alpha_parsed");
        c.eq("convert-then-parse", y, x, || format!("{t:?} and {conv:?} in {r:?}"));
    }
}
fn c30(c: &mut Case) {
    use protobuf::Message;
    // numbers as the parser makes them, dressed ones, and messages built by hand
    let mut n = match c.r.below(4) {
        0 => { let (t, r) = c.text(); match c.api.parse_raw(&t, &r) { Ok(n) => { c.count("parsed"); n } Err(_) => c.any_num().0 } }
        1 => c.hostile_num(), _ => { let n = c.any_num().0; let n = c.with_ext(n, 1, 2); c.dress(n) }
    };
    if c.r.chance(1, 6) { n.nn = Some(c.r.u64() >> c.r.below(64)); }
    if c.r.chance(1, 12) { n.cc = Some(c.r.u64() as i32); }
    if c.r.chance(1, 12) { n.nlz = Some(c.r.u64() as i32 >> c.r.below(32)); }
    let whole = n.cc.is_some() && n.nn.is_some();
    let wire = n.to_wire();
    c.seen(&format!("{wire:?}"));
    let p = n.to_pb();
    let show = || format!("{n:?}");
    // what a reader finds when a field was never written
    let dflt = (n.nlz.unwrap_or(1), n.ilz.unwrap_or(false), n.extv().to_string(), n.rawv().to_string(), n.ccv(), n.nnv());
    c.eq("defaults", (p.number_of_leading_zeros(), p.italian_leading_zero(), p.extension().to_string(), p.raw_input().to_string(), p.country_code(), p.national_number()), dflt, show);
    c.eq("source-default", n.src.is_none() && p.country_code_source() != CountryCodeSource::UNSPECIFIED, false, show);
    let written = p.write_to_bytes().ok();
    c.eq("written-if-complete", written.is_some(), whole, show);
    let read = PhoneNumber::parse_from_bytes(&wire).ok();
    c.eq("read-if-complete", read.is_some(), whole, show);
    let (Some(w), Some(q)) = (written, read) else { c.count("incomplete"); return };
    c.count("stored");
    c.eq("written-as-published", Num::from_wire(&w), Some(n.clone()), show);
    c.eq("read-as-published", Num::from_pb(&q), n.clone(), show);
    c.eq("same-message", q == p && PhoneNumber::parse_from_bytes(&w).ok().as_ref() == Some(&p), true, show);
    // the library treats the number read back like the one that was stored
    if n.nlz.unwrap_or(0) > 1_000 { return; }
    let f = *c.r.pick(&[F::E164, F::Intl, F::Nat, F::Rfc]);
    let back = Num::from_pb(&q);
    let (a, b) = (c.api.format(&back, f), c.api.format(&n, f));
    c.eq("same-format", a, b, show);
    let (a, b) = (c.api.ntype(&back), c.api.ntype(&n));
    c.eq("same-type", a, b, show);
}
include!("props_special.rs");
pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = shipped();
    v.extend(crate::metawire::all()); v.extend(crate::quiet::all()); v.extend(crate::ranges::all());
    #[cfg(rlibphonenumber_verif)]
    v.extend(crate::plans::all());
    #[cfg(rlibphonenumber_verif_ops)]
    v.extend(crate::ops::all());
    v
}
fn shipped() -> Vec<Prop> {
    let p = |id: &'static str, rule: &'static str, streams: Vec<Stream>, need: Vec<(&'static str, u64)>| Prop { id, streams, rule, need };
    vec![
        p("C01", "hostile texts, region strings, messages and long inputs through every public method; non-trivial = distinct input", vec![st("text", 960_000, 24_000_000, c01_text), st("message", 600_000, 15_000_000, c01_num), st("long", 384, 8_000, c01_long)], vec![("number_ops", 100_000), ("long_inputs", 50), ("parsed", 10_000)]),
        p("C02", "numbers valid by the published plan (pattern-directed, all plans and types), formatted and parsed back; non-trivial = distinct valid number", vec![st("round-trip", 900_000, 30_000_000, c02)], vec![("e164", 50_000), ("national", 50_000)]),
        p("C03", "number texts respelled (scripts, separators, junk, plus variants, letters) against their plain spelling; every Unicode scalar value in and around a number; non-trivial = distinct spelling", vec![st("respell", 900_000, 24_000_000, c03_respell), st("vanity", 480_000, 12_000_000, c03_vanity), st("every-char", 69_632, 69_632, c03_every_char)], vec![("respelled", 50_000), ("vanity", 10_000), ("decimal_digits_of_unicode", 600)]),
        p("C04", "texts of every shape x default region, parsed and compared field by field with the reference algorithm; non-trivial = distinct text and region", vec![st("text", 1_800_000, 48_000_000, c04), st("lengths", 480_000, 6_000_000, c04_lengths), st("codes", 132_000, 2_640_000, c04_codes)], vec![("parsed", 50_000), ("err_not_viable", 1000), ("err_country_code", 1000), ("err_short_idd", 100), ("err_short_nsn", 100), ("err_long_nsn", 100), ("err_phone_context", 100)]),
        p("C05", "number texts x extension labels x digit counts around each limit, and formatting with, without and with empty extension; non-trivial = distinct text or number", vec![st("parse", 1_200_000, 30_000_000, c05_parse), st("unviable", 360_000, 6_000_000, c05_unviable), st("format", 300_000, 9_000_000, c05_format)], vec![("within_limit", 20_000), ("beyond_limit", 5_000)]),
        p("C06", "tel: URIs with parameters in any order, valid and malformed contexts; non-trivial = distinct text", vec![st("uri", 1_200_000, 24_000_000, c06), st("context", 900_000, 18_000_000, c06_context), st("order", 300_000, 6_000_000, c06_order)], vec![("with_phone_context", 10_000), ("context_valid", 5_000), ("context_invalid", 5_000)]),
        p("C07", "numbers dialled from every region with its own prefixes (sampled from the plan's patterns), codes and carriers; non-trivial = distinct text and region", vec![st("dialled", 1_500_000, 36_000_000, c07), st("bare-code", 900_000, 18_000_000, c07_code)], vec![("carrier_code_captured", 100), ("read_as_international", 5_000), ("read_as_bare_code", 5_000)]),
        p("C08", "each text parsed both ways; non-trivial = distinct text and region", vec![st("text", 1_500_000, 36_000_000, c08)], vec![("parsed", 50_000), ("from_plus", 5_000), ("from_idd", 2_000), ("from_bare_code", 500), ("from_default_region", 5_000)]),
        p("C09", "numbers matching each type of each plan and numbers one digit away; non-trivial = distinct number", vec![st("typed", 1_800_000, 48_000_000, c09), st("any", 900_000, 18_000_000, c09_any)], vec![("matching_a_type", 50_000), ("one_digit_away", 50_000), ("type_Unknown", 20_000)]),
        p("C10", "numbers of all plans, near misses and hostile messages, all queries cross-checked; non-trivial = distinct number", vec![st("coherence", 1_500_000, 36_000_000, c10)], vec![("valid", 30_000), ("invalid", 30_000), ("shared_code_resolved", 3_000)]),
        p("C11", "calling codes -1..1001 x 1..20 digits exhaustively plus sampled numbers; non-trivial = distinct code and length or number", vec![st("table", 24 * 1003, 400 * 1003, c11), st("any", 480_000, 12_000_000, c11_any)], vec![("verdict_Possible", 1000), ("verdict_TooShort", 1000), ("verdict_TooLong", 1000), ("verdict_LocalOnly", 100), ("verdict_Invalid", 100), ("verdict_BadCc", 1000)]),
        p("C12", "all regions, calling codes -100..1999 and random ones, random region strings; non-trivial = distinct key", vec![st("regions", 1, 1, c12_regions), st("codes", 18_000, 1_200_000, c12_codes), st("unknown", 120_000, 3_000_000, c12_unknown), st("near", 245, 2_450, c12_near)], vec![("names", 150_000), ("names_used", 10_000), ("supported_regions", 200), ("assigned", 200), ("unassigned", 500)]),
        p("C13", "every region's examples, every type on fresh instances, unsupported regions; non-trivial = distinct key", vec![st("regions", 245, 245, c13_regions), st("types", 100, 2_000, c13_types), st("unsupported", 18_000, 300_000, c13_unsupported)], vec![("examples", 200), ("invalid_examples", 200), ("type_examples", 200)]),
        p("C14", "numbers of all plans, with odd zeros, unassigned codes and extensions, in all formats; non-trivial = distinct number", vec![st("conservation", 1_500_000, 36_000_000, c14)], vec![("international_strict", 50_000), ("national_strict", 50_000), ("unassigned_code", 500)]),
        p("C15", "numbers directed at each format rule of each plan, near misses and any number; non-trivial = distinct number", vec![st("formats", 1_500_000, 36_000_000, c15_formats), st("any", 600_000, 12_000_000, c15_any)], vec![("hit_the_format", 50_000), ("no_rule_applies", 1_000), ("international_list", 10_000)]),
        p("C16", "number x calling region, every region in turn; non-trivial = distinct pair", vec![st("pairs", 1_500_000, 36_000_000, c16)], vec![("dialled_prefix", 20_000), ("plus", 5_000), ("same_code", 2_000), ("within_nanpa", 500), ("unknown_region", 1_000), ("unassigned_code", 1_000)]),
        p("C17", "number x calling region x formatting flag, with carriers and extensions; non-trivial = distinct pair", vec![st("pairs", 1_500_000, 36_000_000, c17)], vec![("from_abroad", 10_000), ("not_from_abroad", 5_000), ("from_own_region", 10_000), ("unassigned_code", 1_000), ("not_diallable_from_abroad", 100)]),
        p("C18", "texts parsed with raw input and reformatted; dressed messages; non-trivial = distinct raw input and region", vec![st("parsed", 1_200_000, 30_000_000, c18), st("dressed", 600_000, 12_000_000, c18_dressed)], vec![("regrouped", 20_000), ("style_plus", 1_000), ("style_idd", 1_000), ("style_bare_code", 200), ("style_national", 1_000), ("raw_returned", 5_000)]),
        p("C19", "numbers of every plan x carrier codes; non-trivial = distinct pair", vec![st("carrier", 1_200_000, 30_000_000, c19)], vec![("carrier_rule", 5_000), ("no_carrier_rule", 20_000), ("unassigned_code", 500)]),
        p("C20", "vanity spellings parsed with raw input x calling region; non-trivial = distinct raw input and region", vec![st("vanity", 1_500_000, 36_000_000, c20)], vec![("letters_kept", 10_000), ("no_raw_input", 2_000), ("dialled_prefix", 10_000), ("plus", 5_000)]),
        p("C21", "pairs of numbers differing in a few fields, both orders, with and without provenance; non-trivial = distinct pair", vec![st("pairs", 1_800_000, 48_000_000, c21)], vec![("No", 10_000), ("Short", 5_000), ("Nsn", 2_000), ("Exact", 10_000)]),
        p("C22", "valid numbers with digits appended, near misses, hostile messages; non-trivial = distinct number", vec![st("truncate", 720_000, 18_000_000, c22)], vec![("truncated", 10_000), ("already_valid", 5_000), ("untouched_false", 2_000)]),
        p("C23", "fixed, mobile and other numbers of every plan; non-trivial = distinct number", vec![st("lengths", 1_200_000, 30_000_000, c23)], vec![("with_area_code", 10_000), ("with_destination_code_only", 5_000), ("without", 5_000)]),
        p("C24", "every Unicode scalar value; vanity and other texts; non-trivial = distinct text", vec![st("characters", 17_408, 17_408, c24_chars), st("texts", 1_200_000, 30_000_000, c24)], vec![("alpha_numbers", 10_000), ("other_texts", 5_000), ("alpha_parsed", 5_000)]),
        p("C25", "rounds of barrier-released threads making mixed calls on one new shared instance, answers compared with single-threaded ones; non-trivial = distinct (round, order of completion)", vec![st("shared", 240, 6_000, c25_shared), st("wide", 24, 600, c25_wide), st("first-use", 24, 300, c25_first_use)], vec![("concurrent_calls", 20_000)]),
        p("C26", "the same call on fresh, aged and differently aged instances; live memory across novel inputs; non-trivial = distinct call", vec![st("memory", 1, 1, c26_memory), st("history", 400, 12_000, c26_history)], vec![("calls_compared", 5_000), ("novel_inputs", 20_000)]),
        p("C27", "every field of every territory of the compiled table against the XML; non-trivial = distinct field", vec![st("table", 1, 1, c27_table), st("behaviour", 720_000, 12_000_000, c27_behaviour)], vec![("fields", 5_000)]),
        p("C30", "parsed, dressed and hand-built numbers through the published wire format, written and read by hand; non-trivial = distinct message", vec![st("wire", 900_000, 24_000_000, c30)], vec![("stored", 100_000), ("parsed", 10_000), ("incomplete", 1_000)]),
    ]
}
