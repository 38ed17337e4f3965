//! The observation boundary: every call into the library goes through here, in the monitors' own types.
use crate::model::{Len, M, F, NType, PErr};
use crate::num::Num;
use rlibphonenumber::{self as lib, PhoneNumberUtil};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Default)]
pub struct Slot { pub seq: AtomicU64, pub stream: AtomicU64, pub idx: AtomicU64, pub tid: AtomicU64 }
thread_local! {
    pub static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    pub static LAST_PANIC_CALL: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    /// bytes the most recent call requested from the allocator
    pub static LAST_BYTES: Cell<u64> = const { Cell::new(0) };
    /// when set: the most bytes one call has requested since, and which call it was (lists of all regions apart)
    pub static HEAVIEST: Cell<Option<(u64, &'static str)>> = const { Cell::new(None) };
    /// when set: the most CPU time one call has used since, in microseconds, and which call it was
    pub static TIMED: Cell<Option<(u64, &'static str)>> = const { Cell::new(None) };
}
#[repr(C)] struct Timespec { s: i64, n: i64 }
extern "C" { fn clock_gettime(clock: i32, t: *mut Timespec) -> i32; }
/// CPU time of this thread in microseconds: independent of how loaded the machine is
pub fn cpu_us() -> u64 { let mut t = Timespec { s: 0, n: 0 }; unsafe { clock_gettime(3, &mut t); } t.s as u64 * 1_000_000 + t.n as u64 / 1000 }
fn tick() { SLOT.with(|s| if let Some(s) = &*s.borrow() { s.seq.fetch_add(1, Ordering::Relaxed); }) }
struct Guard<'a> { desc: &'a dyn Fn() -> String, op: &'static str, at: u64, cpu: u64 }
impl<'a> Guard<'a> {
    fn new(op: &'static str, desc: &'a dyn Fn() -> String) -> Self {
        tick();
        CALLS.with(|c| c.set(c.get() + 1));
        crate::alloc::watch(true);
        let cpu = if TIMED.with(|t| t.get()).is_some() { cpu_us() } else { 0 };
        Guard { desc, op, at: crate::alloc::total(), cpu }
    }
}
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        if let Some((most, _)) = TIMED.with(|t| t.get()) { let d = cpu_us() - self.cpu; if d > most { TIMED.with(|t| t.set(Some((d, self.op)))); } }
        crate::alloc::watch(false);
        let bytes = crate::alloc::total() - self.at;
        LAST_BYTES.with(|b| b.set(bytes));
        if let Some((most, _)) = HEAVIEST.with(|t| t.get()) { if bytes > most && self.op != "get_supported_regions" { HEAVIEST.with(|t| t.set(Some((bytes, self.op)))); } }
        tick();
        if std::thread::panicking() { let d = (self.desc)(); LAST_PANIC_CALL.with(|l| *l.borrow_mut() = Some(d)); }
    }
}
macro_rules! call {
    ($op:expr, ($($a:expr),*), $e:expr) => {{
        let desc = || { let mut s = String::from($op); s.push('('); $( s.push_str(&format!("{:?}, ", $a)); )* s.push(')'); s };
        let g = Guard::new($op, &desc);
        let r = $e;
        drop(g);
        r
    }};
}
pub fn ntype(t: lib::PhoneNumberType) -> NType {
    use lib::PhoneNumberType as P;
    match t {
        P::FixedLine => NType::FixedLine, P::Mobile => NType::Mobile, P::FixedLineOrMobile => NType::FixedLineOrMobile, P::TollFree => NType::TollFree,
        P::PremiumRate => NType::Premium, P::SharedCost => NType::SharedCost, P::VoIP => NType::Voip, P::PersonalNumber => NType::Personal,
        P::Pager => NType::Pager, P::UAN => NType::Uan, P::VoiceMail => NType::Voicemail, P::Unknown => NType::Unknown,
    }
}
pub fn ptype(t: NType) -> lib::PhoneNumberType {
    use lib::PhoneNumberType as P;
    match t {
        NType::FixedLine => P::FixedLine, NType::Mobile => P::Mobile, NType::FixedLineOrMobile => P::FixedLineOrMobile, NType::TollFree => P::TollFree,
        NType::Premium => P::PremiumRate, NType::SharedCost => P::SharedCost, NType::Voip => P::VoIP, NType::Personal => P::PersonalNumber,
        NType::Pager => P::Pager, NType::Uan => P::UAN, NType::Voicemail => P::VoiceMail, NType::Unknown => P::Unknown,
    }
}
fn pf(f: F) -> lib::PhoneNumberFormat {
    match f { F::E164 => lib::PhoneNumberFormat::E164, F::Intl => lib::PhoneNumberFormat::International, F::Nat => lib::PhoneNumberFormat::National, F::Rfc => lib::PhoneNumberFormat::RFC3966 }
}
pub fn perr(e: lib::ParseError) -> PErr {
    use lib::{ExtractNumberError as X, NotANumberError as N, ParseError as E};
    match e {
        E::InvalidCountryCode => PErr::InvalidCountryCode,
        E::NotANumber(N::NotMatchedValidNumberPattern) => PErr::NotViable,
        E::NotANumber(N::InvalidPhoneContext) => PErr::PhoneContext,
        E::NotANumber(N::FailedToParseNumberAsInt(_)) => PErr::IntParse,
        E::NotANumber(N::FailedToExtractNumber(X::NoValidStartCharacter)) => PErr::NoStart,
        E::NotANumber(N::FailedToExtractNumber(X::NotANumber)) => PErr::Extract,
        E::TooShortAfterIdd => PErr::TooShortIdd,
        E::TooShortNsn => PErr::TooShortNsn,
        E::TooLongNsn => PErr::TooLongNsn,
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum XErr { Parse(PErr), NoExample, CouldNot, InvalidRegion }
fn xerr(e: lib::GetExampleNumberError) -> XErr {
    use lib::GetExampleNumberError as E;
    match e { E::FailedToParse(p) => XErr::Parse(perr(p)), E::NoExampleNumber => XErr::NoExample, E::CouldNotGetNumber => XErr::CouldNot, E::InvalidRegionCode => XErr::InvalidRegion }
}
#[derive(Clone, Copy)]
pub struct Api<'a> { pub u: &'a PhoneNumberUtil }
pub type PRes = Result<Num, PErr>;
impl<'a> Api<'a> {
    pub fn parse(&self, t: &str, r: &str) -> PRes { call!("parse", (t, r), self.u.parse(t, r)).map(|n| Num::from_pb(&n)).map_err(perr) }
    pub fn parse_raw(&self, t: &str, r: &str) -> PRes { call!("parse_and_keep_raw_input", (t, r), self.u.parse_and_keep_raw_input(t, r)).map(|n| Num::from_pb(&n)).map_err(perr) }
    pub fn format(&self, n: &Num, f: F) -> String { let p = n.to_pb(); call!("format", (n, f), self.u.format(&p, pf(f)).into_owned()) }
    pub fn original(&self, n: &Num, r: &str) -> String { let p = n.to_pb(); call!("format_in_original_format", (n, r), self.u.format_in_original_format(&p, r).into_owned()) }
    pub fn with_carrier(&self, n: &Num, c: &str) -> String { let p = n.to_pb(); call!("format_national_number_with_carrier_code", (n, c), self.u.format_national_number_with_carrier_code(&p, c)).to_string() }
    pub fn mobile(&self, n: &Num, r: &str, fmt: bool) -> String { let p = n.to_pb(); call!("format_number_for_mobile_dialing", (n, r, fmt), self.u.format_number_for_mobile_dialing(&p, r, fmt).into_owned()) }
    pub fn ooc(&self, n: &Num, r: &str) -> String { let p = n.to_pb(); call!("format_out_of_country_calling_number", (n, r), self.u.format_out_of_country_calling_number(&p, r).into_owned()) }
    pub fn keep_alpha(&self, n: &Num, r: &str) -> String { let p = n.to_pb(); call!("format_out_of_country_keeping_alpha_chars", (n, r), self.u.format_out_of_country_keeping_alpha_chars(&p, r).into_owned()) }
    pub fn cc_for_region(&self, r: &str) -> Option<i32> { call!("get_country_code_for_region", (r), self.u.get_country_code_for_region(r)) }
    pub fn example(&self, r: &str) -> Result<Num, XErr> { call!("get_example_number", (r), self.u.get_example_number(r)).map(|n| Num::from_pb(&n)).map_err(xerr) }
    pub fn example_type(&self, t: NType) -> Result<Num, XErr> { call!("get_example_number_for_type", (t), self.u.get_example_number_for_type(ptype(t))).map(|n| Num::from_pb(&n)).map_err(xerr) }
    pub fn invalid_example(&self, r: &str) -> Result<Num, XErr> { call!("get_invalid_example_number", (r), self.u.get_invalid_example_number(r)).map(|n| Num::from_pb(&n)).map_err(xerr) }
    pub fn area_len(&self, n: &Num) -> usize { let p = n.to_pb(); call!("get_length_of_geographical_area_code", (n), self.u.get_length_of_geographical_area_code(&p)) as usize }
    pub fn ndc_len(&self, n: &Num) -> usize { let p = n.to_pb(); call!("get_length_of_national_destination_code", (n), self.u.get_length_of_national_destination_code(&p)) as usize }
    pub fn nsn(&self, n: &Num) -> String { let p = n.to_pb(); call!("get_national_significant_number", (n), self.u.get_national_significant_number(&p)).to_string() }
    pub fn ntype(&self, n: &Num) -> NType { let p = n.to_pb(); ntype(call!("get_number_type", (n), self.u.get_number_type(&p))) }
    pub fn region_for_cc(&self, cc: i32) -> String { call!("get_region_code_for_country_code", (cc), self.u.get_region_code_for_country_code(cc)).to_string() }
    pub fn region_for(&self, n: &Num) -> String { let p = n.to_pb(); call!("get_region_code_for_number", (n), self.u.get_region_code_for_number(&p).to_string()) }
    pub fn regions_for_cc(&self, cc: i32) -> Option<Vec<String>> { call!("get_region_codes_for_country_code", (cc), self.u.get_region_codes_for_country_code(cc).map(|v| v.map(|s| s.to_string()).collect())) }
    pub fn supported(&self) -> Vec<String> { call!("get_supported_regions", (), self.u.get_supported_regions().map(|s| s.to_string()).collect()) }
    pub fn is_alpha(&self, t: &str) -> bool { call!("is_alpha_number", (t), self.u.is_alpha_number(t)) }
    pub fn convert_alpha(&self, t: &str) -> String { call!("convert_alpha_characters_in_number", (t), self.u.convert_alpha_characters_in_number(t)) }
    pub fn is_nanpa(&self, r: &str) -> bool { call!("is_nanpa_country", (r), self.u.is_nanpa_country(r)) }
    pub fn geographical(&self, n: &Num) -> bool { let p = n.to_pb(); call!("is_number_geographical", (n), self.u.is_number_geographical(&p)) }
    pub fn intl_diallable(&self, n: &Num) -> bool { let p = n.to_pb(); call!("can_be_internationally_dialled", (n), self.u.can_be_internationally_dialled(&p)) }
    pub fn matching(&self, a: &Num, b: &Num) -> M {
        let (p, q) = (a.to_pb(), b.to_pb());
        mtype(call!("is_number_match", (a, b), self.u.is_number_match(&p, &q)))
    }
    pub fn possible(&self, n: &Num) -> bool { let p = n.to_pb(); call!("is_possible_number", (n), self.u.is_possible_number(&p)) }
    pub fn possible_reason(&self, n: &Num) -> Len {
        use lib::ValidationError as V;
        let p = n.to_pb();
        match call!("is_possible_number_with_reason", (n), self.u.is_possible_number_with_reason(&p)) {
            Ok(lib::NumberLengthType::IsPossible) => Len::Possible, Ok(lib::NumberLengthType::IsPossibleLocalOnly) => Len::LocalOnly,
            Err(V::InvalidCountryCode) => Len::BadCc, Err(V::TooShort) => Len::TooShort, Err(V::InvalidLength) => Len::Invalid, Err(V::TooLong) => Len::TooLong,
        }
    }
    pub fn valid(&self, n: &Num) -> bool { let p = n.to_pb(); call!("is_valid_number", (n), self.u.is_valid_number(&p)) }
    pub fn valid_for(&self, n: &Num, r: &str) -> bool { let p = n.to_pb(); call!("is_valid_number_for_region", (n, r), self.u.is_valid_number_for_region(&p, r)) }
    pub fn truncate(&self, n: &Num) -> (bool, Num) {
        let mut p = n.to_pb();
        let b = call!("truncate_too_long_number", (n), self.u.truncate_too_long_number(&mut p));
        (b, Num::from_pb(&p))
    }
}

/// operations the crate keeps to itself
#[cfg(rlibphonenumber_verif_ops)]
impl Api<'_> {
    pub fn types_of_region(&self, r: &str) -> Option<std::collections::BTreeSet<String>> { call!("get_supported_types_for_region", (r), self.u.verif_supported_types_for_region(r)).map(|v| v.into_iter().map(|t| format!("{:?}", ntype(t))).collect()) }
    pub fn types_of_network(&self, cc: i32) -> Option<std::collections::BTreeSet<String>> { call!("get_supported_types_for_non_geo_entity", (cc), self.u.verif_supported_types_for_non_geo_entity(cc)).map(|v| v.into_iter().map(|t| format!("{:?}", ntype(t))).collect()) }
    pub fn calling_codes(&self) -> Vec<i32> { call!("get_supported_calling_codes", (), self.u.verif_supported_calling_codes()) }
    pub fn network_codes(&self) -> Vec<i32> { call!("get_supported_global_network_calling_codes", (), self.u.verif_supported_global_network_calling_codes()) }
    pub fn ndd(&self, r: &str, strip: bool) -> Option<String> { call!("get_ndd_prefix_for_region", (r, strip), self.u.verif_ndd_prefix_for_region(r, strip)) }
    pub fn code_assigned(&self, cc: i32) -> bool { call!("has_valid_country_calling_code", (cc), self.u.verif_has_valid_country_calling_code(cc)) }
    pub fn mobile_token(&self, cc: i32) -> Option<char> { call!("get_country_mobile_token", (cc), self.u.verif_country_mobile_token(cc)) }
    pub fn by_pattern(&self, n: &Num, f: F, rules: &[crate::meta::Fmt]) -> String {
        let (p, r) = (n.to_pb(), crate::plans::rules(rules));
        call!("format_by_pattern", (n, f, r), self.u.verif_format_by_pattern(&p, pf(f), &r)).unwrap_or_else(|e| format!("error: {e}"))
    }
    pub fn preferred_carrier(&self, n: &Num, fallback: &str) -> String { let p = n.to_pb(); call!("format_national_number_with_preferred_carrier_code", (n, fallback), self.u.verif_format_with_preferred_carrier_code(&p, fallback)).unwrap_or_else(|e| format!("error: {e}")) }
    pub fn possible_for(&self, n: &Num, t: NType) -> bool { let p = n.to_pb(); call!("is_possible_number_for_type", (n, t), self.u.verif_is_possible_number_for_type(&p, ptype(t))) }
    pub fn possible_for_reason(&self, n: &Num, t: NType) -> Len {
        use lib::ValidationError as V;
        let p = n.to_pb();
        match call!("is_possible_number_for_type_with_reason", (n, t), self.u.verif_is_possible_number_for_type_with_reason(&p, ptype(t))) {
            Ok(lib::NumberLengthType::IsPossible) => Len::Possible, Ok(lib::NumberLengthType::IsPossibleLocalOnly) => Len::LocalOnly,
            Err(V::InvalidCountryCode) => Len::BadCc, Err(V::TooShort) => Len::TooShort, Err(V::InvalidLength) => Len::Invalid, Err(V::TooLong) => Len::TooLong,
        }
    }
    pub fn possible_text(&self, s: &str, r: &str) -> bool { call!("is_possible_number_for_string", (s, r), self.u.verif_is_possible_number_for_string(s, r)) }
    pub fn example_of_type(&self, r: &str, t: NType) -> Result<Num, XErr> { call!("get_example_number_for_type_and_region_code", (r, t), self.u.verif_example_number_for_type_and_region(r, ptype(t))).map(|n| Num::from_pb(&n)).map_err(xerr) }
    pub fn example_of_network(&self, cc: i32) -> Result<Num, XErr> { call!("get_example_number_for_non_geo_entity", (cc), self.u.verif_example_number_for_non_geo_entity(cc)).map(|n| Num::from_pb(&n)).map_err(xerr) }
    pub fn normalize(&self, s: &str) -> String { call!("normalize", (s), self.u.verif_normalize(s)) }
    pub fn digits_only(&self, s: &str) -> String { call!("normalize_digits_only", (s), self.u.verif_normalize_digits_only(s)) }
    pub fn diallable_only(&self, s: &str) -> String { call!("normalize_diallable_chars_only", (s), self.u.verif_normalize_diallable_chars_only(s)) }
    pub fn viable(&self, s: &str) -> bool { call!("is_viable_phone_number", (s), self.u.verif_is_viable_phone_number(s)) }
    pub fn as_you_type(&self, f: &str) -> bool { call!("is_format_eligible_for_as_you_type_formatter", (f), self.u.verif_is_format_eligible_for_as_you_type_formatter(f)) }
    pub fn first_group_only(&self, f: &str) -> bool { call!("formatting_rule_has_first_group_only", (f), self.u.verif_formatting_rule_has_first_group_only(f)) }
    pub fn match_texts(&self, s: &str, t: &str) -> Result<M, PErr> { call!("is_number_match_with_two_strings", (s, t), self.u.verif_match_texts(s, t)).map(mtype).map_err(|e| perr(e.0)) }
    pub fn match_text(&self, n: &Num, t: &str) -> Result<M, PErr> { let p = n.to_pb(); call!("is_number_match_with_one_string", (n, t), self.u.verif_match_text(&p, t)).map(mtype).map_err(|e| perr(e.0)) }
}
fn mtype(m: lib::MatchType) -> M {
    match m { lib::MatchType::NoMatch => M::No, lib::MatchType::ShortNsnMatch => M::Short, lib::MatchType::NsnMatch => M::Nsn, lib::MatchType::ExactMatch => M::Exact }
}
