//! Operations the crate keeps to itself (reached through the hooks of `--cfg rlibphonenumber_verif_ops`), over the shipped
//! plans and over generated ones.
use crate::api::XErr;
use crate::core::*;
use crate::meta::{Fmt, Pat, Ty};
use crate::model::{desc_of, Len, F, M, NType};
use crate::num::Num;
use crate::plans;
use crate::props::{st, ALLF};
use std::collections::BTreeSet;

pub const NTYPES: [NType; 12] = [NType::FixedLine, NType::Mobile, NType::FixedLineOrMobile, NType::TollFree, NType::Premium, NType::SharedCost, NType::Voip, NType::Personal, NType::Pager, NType::Uan, NType::Voicemail, NType::Unknown];

fn core_of(r: Result<Num, XErr>) -> Result<Num, XErr> { r.map(|n| n.core()) }
// ---- what the plan says about itself -----------------------------------------------------------------------------
fn supported(t: &crate::meta::Terr) -> BTreeSet<String> {
    NTYPES.iter().filter(|n| !matches!(n, NType::FixedLineOrMobile | NType::Unknown)).filter(|n| t.d(desc_of(**n)).present).map(|n| format!("{n:?}")).collect()
}
/// everything a plan is asked by region or calling code
pub fn c32_plan(c: &mut Case) {
    let a = c.api;
    let t = &c.meta().terrs[c.idx as usize % c.meta().terrs.len()];
    c.seen(&format!("{} {}", t.id, t.cc));
    let unknown = { let s = c.r.pick(&["", "ZZ", "zz", "001", "us", "USA", "Q1", "ÅÄ", "U", "0"]).to_string(); s };
    let odd = *c.r.pick(&[0, -1, 999, 210, 1000, i32::MAX, i32::MIN, 21, 2]);
    if t.id != "001" {
        c.eq("types-of-region", a.types_of_region(&t.id), Some(supported(t)), || format!("supported types of {}", t.id));
        c.eq("national-prefix", a.ndd(&t.id, false), Some(t.np.clone()), || format!("national prefix of {}", t.id));
        c.eq("national-prefix-digits", a.ndd(&t.id, true), Some(t.np.replace('~', "")), || format!("national prefix of {}, digits only", t.id));
        if t.np.contains('~') { c.count("prefix_with_tilde"); }
        for ty in NTYPES {
            let want = match &t.d(desc_of(ty)).example { None => Err(XErr::CouldNot), Some(x) => c.m().parse(x, &t.id, false).map_err(XErr::Parse) };
            c.count(if want.is_ok() { "examples" } else { "no_example" });
            let got = core_of(a.example_of_type(&t.id, ty));
            c.eq("example-of-type", got.clone(), core_of(want), || format!("example number of {} for {ty:?}", t.id));
            if let (Ok(n), false) = (&got, c.e.synthetic) {
                let kind = a.ntype(n);
                let fit = ty == NType::Unknown || kind == ty || kind == NType::FixedLineOrMobile && matches!(ty, NType::FixedLine | NType::Mobile) || ty == NType::FixedLineOrMobile && kind == NType::FixedLine;
                // a pager or personal number may also match a type that is looked for earlier
                c.ok("example-is-valid", a.valid(n), || format!("example number of {} for {ty:?}: {n:?}", t.id));
                c.ok("example-type-fits", fit, || format!("example number of {} for {ty:?}: {n:?} is {kind:?}", t.id));
            }
        }
    } else {
        c.count("global_networks");
        c.eq("types-of-network", a.types_of_network(t.cc), Some(supported(t)), || format!("supported types of +{}", t.cc));
        let order = [Ty::Mobile, Ty::TollFree, Ty::SharedCost, Ty::Voip, Ty::Voicemail, Ty::Uan, Ty::Premium];
        let want = match order.iter().find_map(|y| t.d(*y).example.as_ref()) { None => Err(XErr::CouldNot), Some(x) => c.m().parse(&format!("+{}{x}", t.cc), "ZZ", false).map_err(XErr::Parse) };
        c.eq("example-of-network", core_of(a.example_of_network(t.cc)), core_of(want), || format!("example number of +{}", t.cc));
    }
    if c.meta().region(&unknown).is_none() {
        c.eq("no-types", a.types_of_region(&unknown), None, || format!("supported types of {unknown:?}"));
        c.eq("no-prefix", a.ndd(&unknown, true), None, || format!("national prefix of {unknown:?}"));
        for ty in NTYPES { c.eq("no-example", core_of(a.example_of_type(&unknown, ty)), Err(XErr::InvalidRegion), || format!("example number of {unknown:?}")); }
    }
    for cc in [odd, t.cc] {
        let here = c.meta().by_cc.contains_key(&cc);
        c.eq("code-is-assigned", a.code_assigned(cc), here, || format!("is {cc} a calling code"));
        if !c.meta().nongeo.contains_key(&cc) {
            c.eq("no-network-types", a.types_of_network(cc), None, || format!("supported types of network {cc}"));
            c.eq("no-network-example", core_of(a.example_of_network(cc)), Err(XErr::InvalidRegion), || format!("example number of network {cc}"));
        }
        c.eq("mobile-token", a.mobile_token(cc), (cc == 54).then_some('9'), || format!("mobile token of {cc}"));
    }
    if c.idx % 16 == 0 {
        // a type's example, whichever region has one; without any, a global network's
        for ty in NTYPES {
            let parsed = |x: &str, r: &str| c.m().parse(x, r, false).map_err(XErr::Parse);
            let of = |net: bool| c.meta().terrs.iter().filter(move |t| (t.id == "001") == net).filter_map(|t| t.d(desc_of(ty)).example.as_ref().map(|x| (t, x)));
            let mut allowed: Vec<_> = of(false).filter_map(|(t, x)| parsed(x, &t.id).ok().map(Ok)).collect();
            if allowed.is_empty() { allowed = of(true).map(|(t, x)| parsed(&format!("+{}{x}", t.cc), "ZZ")).collect(); if !allowed.is_empty() { c.count("example_of_a_network_only"); } }
            if allowed.is_empty() { allowed.push(Err(XErr::CouldNot)); }
            let allowed: Vec<_> = allowed.into_iter().map(core_of).collect();
            let got = core_of(a.example_type(ty));
            c.ok("example-of-any-plan", allowed.contains(&got), || format!("example number for {ty:?}: {got:?}, not one of {:?}", &allowed[..allowed.len().min(4)]));
        }
        let sorted = |mut v: Vec<i32>| { v.sort(); v };
        c.eq("calling-codes", sorted(a.calling_codes()), c.meta().by_cc.keys().copied().collect::<Vec<_>>(), || "supported calling codes".into());
        c.eq("network-codes", sorted(a.network_codes()), sorted(c.meta().nongeo.keys().copied().collect()), || "supported global network calling codes".into());
    }
}
/// length verdicts per type
pub fn c32_lengths(c: &mut Case) {
    let a = c.api;
    let t = &c.meta().terrs[c.idx as usize % c.meta().terrs.len()];
    let cc = if c.r.chance(1, 40) { c.r.below(1000) as i32 } else { t.cc };
    for len in 1..=18usize {
        let s = if len <= 2 || c.r.chance(1, 2) { c.r.digits(len) } else { let v = c.any_nsn(t); v.chars().chain("1234567890123456789".chars()).take(len).collect() };
        let n = Num::of(cc, &s);
        if n.nsn().len() != len { continue; }
        for ty in NTYPES {
            let want = c.m().possible_for(&n, ty);
            c.count(&format!("verdict_{want:?}"));
            c.eq("length-for-type", a.possible_for_reason(&n, ty), want, || format!("possible length of {n:?} for {ty:?}"));
            c.eq("possible-for-type", a.possible_for(&n, ty), matches!(want, Len::Possible | Len::LocalOnly), || format!("possible {n:?} for {ty:?}"));
        }
        if len % 6 == 0 { c.seen(&format!("{} {}", n.ccv(), n.nsn())); }
        c.eq("unknown-type-is-any", a.possible_for_reason(&n, NType::Unknown), a.possible_reason(&n), || format!("{n:?}"));
        let ty = a.ntype(&n);
        // a number of a type has a length of that type (each shipped plan says so; a recombined one need not)
        if !c.e.synthetic && ty != NType::Unknown && c.meta().by_cc.get(&cc).map(|v| v.len() == 1).unwrap_or(false) {
            c.count("typed_numbers");
            let v = a.possible_for_reason(&n, ty);
            c.ok("typed-implies-length", v == Len::Possible, || format!("{n:?} is {ty:?} but its length is {v:?} for that type"));
        }
    }
}
pub fn c34_text(c: &mut Case) {
    let (s, r) = c.text();
    c.seen(&s);
    let want = match c.m().parse(&s, &r, false) { Ok(n) => matches!(c.m().possible(&n), Len::Possible | Len::LocalOnly), Err(_) => false };
    c.count(if want { "possible_text" } else { "impossible_text" });
    c.eq("possible-text", c.api.possible_text(&s, &r), want, || format!("possible number {s:?} in {r:?}"));
}
// ---- the caller's own formats ------------------------------------------------------------------------------------
fn own_rules(c: &mut Case, n: &Num) -> Vec<Fmt> {
    let k = c.r.below(4);
    let mut v = vec![];
    for _ in 0..k {
        let len = n.nsn().len();
        let (pattern, format) = match c.r.below(3) {
            0 => { let t = c.terr(); let all: Vec<&Fmt> = t.fmts.iter().collect(); if all.is_empty() { continue } let f = c.r.pick(&all); (f.pattern.src.clone(), f.format.clone()) }
            1 if len > 4 && len < 25 => {
                // exactly this length, cut anywhere
                let a = c.r.range(1, len - 3);
                let b = c.r.range(1, len - a - 1);
                let d = if len > 11 { "[0-9]" } else { "\\d" }; // the library keeps every pattern it has seen: small ones
                (format!("({d}{{{a}}})({d}{{{b}}})({d}{{{}}})", len - a - b), c.r.pick(&["$1 $2 $3", "$1-$2-$3", "($1) $2-$3", "$1.$2.$3", "$1/$2 $3", "$1$2$3", "00 $1 $2 $3"]).to_string())
            }
            _ => { let (p, f) = *c.r.pick(&[("(\\d{3})(\\d{3})(\\d{4})", "($1) $2-$3"), ("(\\d+)", "$1"), ("(\\d)(\\d+)", "$1 $2"), ("(\\d{2})(\\d{5,})", "$1-$2"), ("(\\d{2,4})(\\d{6,7})", "$1 $2"), ("\\d{3}(\\d+)", "-$1"), ("(\\d{4})(\\d{4})", "$1 $2")]); (p.into(), f.into()) }
        };
        let lead = match c.r.below(5) { 0 => vec![Pat::new(&n.nsn().chars().take(1).collect::<String>())], 1 => vec![Pat::new("[0-4]"), Pat::new(*c.r.pick(&["[0-4][0-5]", "1|2", "[3-9]"]))], 2 => vec![Pat::new("[2-9]")], _ => vec![] };
        let np_rule = match c.r.below(3) { 0 => String::new(), _ => c.r.pick(&["$NP$FG", "($NP$FG)", "$NP $FG", "$FG", "$NP-($FG)", "($FG)", "[$NP] $FG", "*$FG"]).to_string() };
        v.push(Fmt { pattern: Pat::new(&pattern), format, leading: lead, np_rule, np_optional: c.r.chance(1, 4), cc_rule: if c.r.chance(1, 4) { "$NP $CC $FG".into() } else { String::new() } });
    }
    v
}
pub fn c33(c: &mut Case) {
    let mut n = match c.r.below(8) { 0 => c.any_num().0, 1 => c.hostile_num(), _ => c.valid_num().0 };
    n = c.with_ext(n, 1, 4);
    if c.r.chance(1, 4) { n = c.dress(n); }
    let rules = own_rules(c, &n);
    c.seen(&format!("{} {} {}", n.ccv(), n.nsn(), rules.iter().map(|f| format!("{}>{}>{}", f.pattern.src, f.format, f.np_rule)).collect::<Vec<_>>().join(";")));
    let nsn = n.nsn();
    match c.m().choose(&rules, &nsn) { Some(_) => c.count("rule_applied"), None => c.count("no_rule_applied") }
    if let (Some(t), Some(r)) = (c.meta().main_terr(n.ccv()), c.m().choose(&rules, &nsn)) { if !r.np_rule.is_empty() { c.count(if t.np.is_empty() { "prefix_rule_without_prefix" } else { "prefix_rule" }); } }
    for f in ALLF {
        let got = c.api.by_pattern(&n, f, &rules);
        c.eq("by-rule", got.clone(), c.m().by_pattern(&n, f, &rules), || format!("{n:?} as {f:?} by {:?}", rules.iter().map(|f| (&f.pattern.src, &f.format, &f.np_rule, f.leading.iter().map(|l| l.src.clone()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    }
    // the plan's own rules, handed in by the caller, give the plan's own format
    if let Some(t) = c.meta().main_terr(n.ccv()) {
        if n.nnv() != 0 {
            let own = c.api.by_pattern(&n, F::Nat, &t.fmts);
            if !t.fmts.iter().any(|f| !f.np_rule.is_empty()) || !t.np.is_empty() { c.eq("plan-rules", own, c.api.format(&n, F::Nat), || format!("{n:?} by its plan's own rules")); c.count("plan_rules"); }
        }
    }
    let fallback = match c.r.below(4) { 0 => String::new(), 1 => c.carrier_text(), _ => c.r.digits(2) };
    let carrier = n.carrier.clone().filter(|x| !x.is_empty()).unwrap_or(fallback.clone());
    if n.nnv() != 0 || n.raw.is_none() {
        c.count(if n.carrier.as_deref().unwrap_or("").is_empty() { "fallback_carrier" } else { "preferred_carrier" });
        c.eq("preferred-carrier", c.api.preferred_carrier(&n, &fallback), c.api.with_carrier(&n, &carrier), || format!("{n:?} with fallback carrier {fallback:?}"));
    }
}
impl Case<'_> {
    fn carrier_text(&mut self) -> String { self.r.pick(&["12", "015", "X", "$", "1 2", "é"]).to_string() }
}
// ---- matching texts ----------------------------------------------------------------------------------------------
fn as_text(c: &mut Case, n: &Num) -> String {
    let t = c.meta().main_terr(n.ccv());
    let s = match c.r.below(9) {
        0 | 1 => { let f = *c.r.pick(&ALLF); c.m().format(n, f) }
        2 => format!("+{}{}", n.ccv(), n.nsn()),
        3 => n.nsn(),
        4 => { let s = n.nsn(); c.spell(&s) }
        5 => { let p = t.map(|t| c.nat_prefix(t)).unwrap_or_default(); format!("{p}{}", n.nsn()) }
        6 => { let s = format!("{}{}", n.ccv(), n.nsn()); let s = c.spell(&s); let p = c.plus(); format!("{p}{s}") }
        7 => c.tel_uri(n),
        _ => format!("{}{}", n.ccv(), n.nsn()),
    };
    if c.r.chance(1, 6) { let e = match &n.ext { Some(e) if !e.is_empty() => e.clone(), _ => c.ext() }; format!("{s} ext. {e}") } else { s }
}
pub fn c34(c: &mut Case) {
    let n = c.any_num().0;
    let n = c.with_ext(n, 1, 4);
    let mut b = if c.r.chance(1, 8) { c.any_num().0 } else { n.clone() };
    match c.r.below(6) { 0 => { let s = b.nsn(); let k = c.r.below(s.len().max(1)); b = Num { ext: b.ext.clone(), ..Num::of(b.ccv(), &s[k.min(s.len().saturating_sub(1))..]) } } 1 => b.cc = Some(c.terr().cc), 2 => { let s = b.nsn(); let m = crate::gen::mutate_digits(&mut c.r, &s); if !m.is_empty() && m.len() < 19 { b = Num::of(b.ccv(), &m) } } _ => {} }
    let (s, t) = (as_text(c, &n), if c.r.chance(1, 10) { c.text().0 } else { as_text(c, &b) });
    let t = if c.r.chance(1, 12) { c.mutate_text(&t) } else { t };
    c.seen(&format!("{s} | {t}"));
    let two = c.api.match_texts(&s, &t);
    match &two { Ok(m) => c.count(&format!("texts_{m:?}")), Err(e) => c.count(&format!("refused_{e:?}")) }
    c.eq("two-texts", two, c.m().match_texts(&s, &t), || format!("{s:?} against {t:?}"));
    let first = match c.r.below(10) { 0 => Num { cc: None, ..n.clone() }, 1 => Num { cc: Some(c.r.below(1000) as i32), ..n.clone() }, 2 => c.hostile_num(), 3 => c.dress(n.clone()), _ => n.clone() };
    let one = c.api.match_text(&first, &t);
    c.eq("one-text", one, c.m().match_text(&first, &t), || format!("{first:?} against {t:?}"));
    match &one { Ok(m) => c.count(&format!("text_{m:?}")), Err(_) => {} }
    // with the calling code written out, a text is its number
    if let Ok(p) = c.api.parse(&t, "ZZ") {
        c.count("text_with_code");
        let direct = c.api.matching(&first, &p);
        c.eq("text-is-its-number", one, Ok(direct), || format!("{first:?} against {t:?}"));
    } else if let (Ok(m), false) = (one, matches!(c.api.parse(&t, "ZZ"), Ok(_))) { c.ok("no-exact-without-code", m != M::Exact || first.ccv() == 0, || format!("{first:?} against {t:?}: {m:?}")); }
}
// ---- reduction of texts ------------------------------------------------------------------------------------------
fn diallable(s: &str) -> String { s.chars().filter(|x| x.is_ascii_digit() || matches!(x, '+' | '*' | '#')).collect() }
fn c35_text_of(c: &mut Case, s: &str) {
    let a = c.api;
    let digits = a.digits_only(s);
    c.eq("digits-only", digits.clone(), c.m().digits_only(s), || format!("digits of {s:?}"));
    let dial = a.diallable_only(s);
    c.eq("diallable-only", dial.clone(), diallable(s), || format!("diallable characters of {s:?}"));
    let norm = a.normalize(s);
    c.eq("normalize", norm.clone(), c.m().normalize(s), || format!("normalization of {s:?}"));
    c.count(if c.m().is_alpha_text(s) { "with_letters" } else { "without_letters" });
    c.eq("idempotent", (a.digits_only(&digits), a.diallable_only(&dial), a.normalize(&norm)), (digits, dial, norm), || format!("reductions of {s:?} again"));
    let viable = a.viable(s);
    c.count(if viable { "viable" } else { "not_viable" });
    c.eq("viable", viable, c.m().viable(s), || format!("is {s:?} viable"));
}
pub fn c35_chars(c: &mut Case) {
    for k in 0..32u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 32 + k) else { continue };
        let s = ch.to_string();
        c35_text_of(c, &s);
        c.eq("digit-in-text", c.api.digits_only(&format!("1{ch}2")), { let d = c.m().digits_only(&s); format!("1{d}2") }, || format!("U+{:04X} among digits", ch as u32));
        for t in [format!("1{ch}2"), format!("650{ch}2530000"), format!("65{ch}"), format!("650 253 0000{ch}12")] { c.eq("viable", c.api.viable(&t), c.m().viable(&t), || format!("is {t:?} viable")); }
        c.count("characters");
    }
}
pub fn c35(c: &mut Case) {
    let s = match c.r.below(6) { 0 => c.weird(12), 1 => { let d = c.r.range(0, 20); let d = c.r.digits(d); c.spell(&d) } 2 => { let d = c.r.range(1, 14); let d = c.r.digits(d); let v = c.vanity(&d); c.spell_plain(&v) } 3 => { let w = c.word(); let x = c.weird(6); format!("{w}{x}") } 4 => c.ext_text(), _ => c.text().0 };
    let s = if c.r.chance(1, 5) { c.mutate_text(&s) } else { s };
    c.seen(&s);
    c35_text_of(c, &s);
    // character by character
    let cut = { let k: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect(); *c.r.pick(&k) };
    let (x, y) = s.split_at(cut);
    c.eq("in-parts", (c.api.digits_only(x) + &c.api.digits_only(y), c.api.diallable_only(x) + &c.api.diallable_only(y)), (c.api.digits_only(&s), c.api.diallable_only(&s)), || format!("reductions of {x:?} and {y:?}"));
}
/// "$1", then any "$d", among punctuation
fn eligible(f: &str) -> bool {
    let v: Vec<char> = f.chars().collect();
    let (mut i, mut n) = (0, 0);
    while i < v.len() {
        if crate::model::is_punct(v[i]) && v[i] != 'X' { i += 1; continue; }
        if v[i] != '$' || i + 1 >= v.len() || !v[i + 1].is_ascii_digit() || n == 0 && v[i + 1] != '1' { return false; }
        n += 1;
        i += 2;
    }
    n > 0
}
pub fn c35_formats(c: &mut Case) {
    let t = c.terr();
    let f = if t.fmts.is_empty() || c.r.chance(1, 3) {
        let k = c.r.below(6);
        (0..k).map(|_| match c.r.below(8) { 0..=3 => format!("${}", c.r.range(1, 4)), 4 | 5 => c.sep().to_string(), 6 => c.weird_char().to_string(), _ => c.r.pick(&["$", "1", "*", "($1)", "$0", "$FG", "-"]).to_string() }).collect::<String>()
    } else { let nat = t.ifmts.is_empty() || c.r.chance(1, 2); c.r.pick(if nat { &t.fmts } else { &t.ifmts }).format.clone() };
    c.seen(&f);
    // a digit of another script as a group number is beyond what any plan can hold
    if f.chars().all(|x| x.is_ascii_digit() || c.m().digit(x).is_none()) {
        let got = c.api.as_you_type(&f);
        c.count(if got { "eligible" } else { "not_eligible" });
        c.eq("eligible", got, eligible(&f), || format!("is {f:?} for formatting as you type"));
    }
    let rule = match c.r.below(4) { 0 => c.r.pick(&["", "$1", "($1", "$1)", "($1)", "($1) ", "0$1", "$2", "(($1))", "()", "$1$1", "[$1]", "$1\n", "\u{FF08}$1\u{FF09}", "$FG", "$"]).to_string(), 1 => c.weird(4), _ => if t.fmts.is_empty() { String::new() } else { c.r.pick(&t.fmts).np_rule.clone() } };
    let got = c.api.first_group_only(&rule);
    c.count(if got { "first_group_only" } else { "more_than_first_group" });
    c.eq("first-group-only", got, matches!(rule.as_str(), "" | "$1" | "($1" | "$1)" | "($1)"), || format!("rule {rule:?}"));
}
const SUBS: [(&str, CaseFn); 5] = [("plan", c32_plan), ("lengths", c32_lengths), ("text", c34_text), ("rules", c33), ("match", c34)];
fn over(c: &mut Case, subs: &[(&str, CaseFn)], n: usize) {
    let subs = subs.to_vec();
    plans::over_plans(c, None, move |c| plans::run_subs(c, &subs, n));
}
fn c32_over(c: &mut Case) { over(c, &SUBS[..2], 60) }
fn c32_networks(c: &mut Case) {
    let doc = plans::networks(&mut c.r, &c.e.repo);
    plans::over_plans(c, Some(doc), |c| {
        let idx = c.idx;
        for i in 0..c.meta().terrs.len() { c.idx = i as u64; c32_plan(c); c32_lengths(c); }
        c.idx = idx;
    });
}
fn c33_over(c: &mut Case) { over(c, &SUBS[3..4], 250) }
fn c34_over(c: &mut Case) { over(c, &[SUBS[4], SUBS[4], SUBS[2]], 300) }
pub fn all() -> Vec<Prop> {
    let p = |id: &'static str, rule: &'static str, streams: Vec<Stream>, need: Vec<(&'static str, u64)>| Prop { id, streams, rule, need };
    vec![
        p("C32", "every plan asked for its types, examples, prefix and lengths per type, over the shipped plans and generated ones; non-trivial = distinct plan or number", vec![st("shipped", 4_000, 40_000, c32_plan), st("lengths", 60_000, 2_000_000, c32_lengths), st("plans", 1_200, 40_000, c32_over), st("networks", 1_500, 40_000, c32_networks)],
            vec![("examples", 10_000), ("global_networks", 100), ("verdict_LocalOnly", 1_000), ("verdict_TooLong", 1_000), ("verdict_Invalid", 1_000), ("plan_collections", 500)]),
        p("C33", "numbers with 0-3 formats of the caller's, over the shipped plans and generated ones; non-trivial = distinct number and formats", vec![st("shipped", 100_000, 6_000_000, c33), st("plans", 600, 30_000, c33_over)],
            vec![("rule_applied", 50_000), ("no_rule_applied", 50_000), ("prefix_rule", 20_000), ("prefix_rule_without_prefix", 1_000), ("plan_rules", 50_000), ("preferred_carrier", 1_000), ("plan_collections", 500)]),
        p("C34", "pairs of texts, and a number with a text, spelled with and without calling code, over the shipped plans and generated ones; non-trivial = distinct pair", vec![st("shipped", 500_000, 15_000_000, c34), st("texts", 300_000, 9_000_000, c34_text), st("plans", 1_000, 40_000, c34_over)],
            vec![("texts_Exact", 10_000), ("texts_Nsn", 5_000), ("texts_Short", 5_000), ("texts_No", 5_000), ("text_Nsn", 5_000), ("possible_text", 10_000), ("plan_collections", 500)]),
        p("C35", "every Unicode character alone and among digits, numbers spelled in any script, vanity numbers, junk; formats and rules of the plans and invented ones; non-trivial = distinct text", vec![st("characters", 0x110000 / 32, 0x110000 / 32, c35_chars), st("texts", 400_000, 20_000_000, c35), st("formats", 60_000, 2_000_000, c35_formats)],
            vec![("characters", 1_000_000), ("with_letters", 20_000), ("without_letters", 100_000), ("viable", 50_000), ("not_viable", 50_000), ("eligible", 10_000), ("not_eligible", 5_000), ("first_group_only", 5_000), ("more_than_first_group", 5_000)]),
    ]
}
