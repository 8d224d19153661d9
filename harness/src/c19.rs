//! C19: status codes have the numbers and reason phrases of HTTP.
use crate::c11::{leak, with};
use crate::common::*;
use crate::rt;
use octane::StatusCode as S;

const CODES: &[(S, u32, &str)] = &[
    (S::SwitchingProtocol, 101, "SWITCHING PROTOCOL"), (S::Continue, 100, "CONTINUE"), (S::Processing, 102, "PROCESSING"), (S::EarlyHints, 103, "EARLY HINTS"),
    (S::Ok, 200, "OK"), (S::Created, 201, "CREATED"), (S::Accepted, 202, "ACCEPTED"), (S::NonauthoritativeInformation, 203, "NON-AUTHORITATIVE INFORMATION"), (S::NoContent, 204, "NO CONTENT"), (S::ResetContent, 205, "RESET CONTENT"), (S::PartialContent, 206, "PARTIAL CONTENT"), (S::Multistatus, 207, "MULTI-STATUS"), (S::AlreadyReported, 208, "ALREADY REPORTED"), (S::ImUsed, 226, "IM USED"),
    (S::MultipleChoice, 300, "MULTIPLE CHOICE"), (S::MovedPermanently, 301, "MOVED PERMANENTLY"), (S::Found, 302, "FOUND"), (S::SeeOther, 303, "SEE OTHER"), (S::NotModified, 304, "NOT MODIFIED"), (S::TemporaryRedirect, 307, "TEMPORARY REDIRECT"), (S::PermanentRedirect, 308, "PERMANENT REDIRECT"),
    (S::BadRequest, 400, "BAD REQUEST"), (S::Unauthorized, 401, "UNAUTHORIZED"), (S::PaymentRequired, 402, "PAYMENT REQUIRED"), (S::Forbidden, 403, "FORBIDDEN"), (S::NotFound, 404, "NOT FOUND"), (S::MethodNotAllowed, 405, "METHOD NOT ALLOWED"), (S::NotAcceptable, 406, "NOT ACCEPTABLE"), (S::ProxyAuthenticationRequired, 407, "PROXY AUTHENTICATION REQUIRED"), (S::RequestTimeout, 408, "REQUEST TIMEOUT"), (S::Conflict, 409, "CONFLICT"), (S::Gone, 410, "GONE"), (S::LengthRequired, 411, "LENGTH REQUIRED"), (S::PreconditionFailed, 412, "PRECONDITION FAILED"), (S::PayloadTooLarge, 413, "PAYLOAD TOO LARGE"), (S::UriTooLong, 414, "URI TOO LONG"), (S::UnsupportedMediaType, 415, "UNSUPPORTED MEDIA TYPE"), (S::RangeNotSatisfiable, 416, "RANGE NOT SATISFIABLE"), (S::ExpectationFailed, 417, "EXPECTATION FAILED"), (S::ImATeapot, 418, "I'M A TEAPOT"), (S::MisdirectedRequest, 421, "MISDIRECTED REQUEST"), (S::UnprocessableEntity, 422, "UNPROCESSABLE ENTITY"), (S::Locked, 423, "LOCKED"), (S::FailedDependency, 424, "FAILED DEPENDENCY"), (S::TooEarly, 425, "TOO EARLY"), (S::UpgradeRequired, 426, "UPGRADE REQUIRED"), (S::PreconditionRequired, 428, "PRECONDITION REQUIRED"), (S::TooManyRequests, 429, "TOO MANY REQUESTS"), (S::RequestHeaderFieldsTooLarge, 431, "REQUEST HEADER FIELDS TOO LARGE"), (S::UnavailableForLegalReasons, 451, "UNAVAILABLE FOR LEGAL REASONS"),
    (S::InternalServerError, 500, "INTERNAL SERVER ERROR"), (S::NotImplemented, 501, "NOT IMPLEMENTED"), (S::BadGateway, 502, "BAD GATEWAY"), (S::ServiceUnavailable, 503, "SERVICE UNAVAILABLE"), (S::GatewayTimeout, 504, "GATEWAY TIMEOUT"), (S::HttpVersionNotSupported, 505, "HTTP VERSION NOT SUPPORTED"), (S::VariantAlsoNegotiates, 506, "VARIANT ALSO NEGOTIATES"), (S::InsufficientStorage, 507, "INSUFFICIENT STORAGE"), (S::LoopDetected, 508, "LOOP DETECTED"), (S::NotExtended, 510, "NOT EXTENDED"), (S::NetworkAuthenticationRequired, 511, "NETWORK AUTHENTICATION REQUIRED"),
];
/// every status there is
#[no_mangle]
pub extern "C" fn c19_table(_: u64, _: u64) {
    let (s, n, t) = CODES[rt::choice(CODES.len() as u64, "s")];
    let body = rt::vec(2, "body");
    let b = body.clone();
    let r = with(move |res| res.status(s).send(&b));
    rt::check(r.status == n && r.reason == t && r.body == body, "C19 a response has the number and the reason phrase of its status");
    let i: i32 = s.into();
    rt::check(i == n as i32 && s.fetch().0 == i && s.fetch().1.to_uppercase() == t && s.to_string() == s.fetch().1, "C19 a status converts to its number and name");
    rt::note(r.status as u64, "status");
    rt::cover("table");
}
/// statuses of the application's own: any number of three digits and any text of n characters
#[no_mangle]
pub extern "C" fn c19_other(n: u64, _: u64) {
    let d = rt::vec(3, "digits");
    let mut code = 0u32;
    for b in &d {
        rt::assume(b.is_ascii_digit());
        code = code * 10 + (*b - b'0') as u32;
    }
    rt::assume(d[0] != b'0');
    let s = leak(text(n as usize, "reason"));
    let st = S::Other(code as i32, s);
    let r = with(move |res| res.status(st).send(""));
    rt::check(r.status == code, "C19 a status of the application's own has its number");
    rt::check(r.reason.len() == s.len() && r.reason.bytes().zip(s.bytes()).all(|(a, b)| a == b.to_ascii_uppercase()), "C19 a status of the application's own has its text");
    rt::check(st.fetch() == (code as i32, s), "C19 a status of the application's own can be read back");
    rt::cover("other");
}
/// long texts
#[no_mangle]
pub extern "C" fn c19_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let t = leak(long_text());
    let code = [100, 200, 299, 404, 599, 999][rt::choice(6, "code")];
    let r = with(move |res| res.status(S::Other(code, t)).send("x"));
    rt::check(r.status == code as u32 && r.reason == t.to_ascii_uppercase() && r.body == b"x", "C19 a status of the application's own has its text");
    rt::cover("long");
}
