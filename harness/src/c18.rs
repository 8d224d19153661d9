//! C18: the media type of a download follows from the file name.
use crate::c11::{leak, only, with};
use crate::common::*;
use crate::rt;

/// extension -> media type (MDN's list of common types)
pub const TYPES: &[(&str, &str)] = &[
    ("css", "text/css"), ("csv", "text/csv"), ("html", "text/html"), ("htm", "text/html"), ("ics", "text/calendar"), ("js", "text/javascript"), ("mjs", "text/javascript"), ("txt", "text/plain"),
    ("abw", "application/x-abiword"), ("arc", "application/x-freearc"), ("azw", "application/vnd.amazon.ebook"), ("bin", "application/octet-stream"), ("bz", "application/x-bzip"), ("bz2", "application/x-bzip2"),
    ("csh", "application/x-csh"), ("doc", "application/msword"), ("docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"), ("eot", "application/vnd.ms-fontobject"), ("epub", "application/epub+zip"),
    ("gz", "application/gzip"), ("java", "application/java-archive"), ("json", "application/json"), ("jsonld", "application/ld+json"), ("mpkg", "application/vnd.apple.installer+xml"),
    ("odp", "application/vnd.oasis.opendocument.presentation"), ("ods", "application/vnd.oasis.opendocument.spreadsheet"), ("odt", "application/vnd.oasis.opendocument.text"), ("ogx", "application/ogg"), ("pdf", "application/pdf"),
    ("php", "application/x-httpd-php"), ("ppt", "application/vnd.ms-powerpoint"), ("pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"), ("rar", "application/vnd.rar"), ("rtf", "application/rtf"),
    ("sh", "application/x-sh"), ("swf", "application/x-shockwave-flash"), ("tar", "application/x-tar"), ("vsd", "application/vnd.visio"), ("xhtml", "application/xhtml+xml"), ("xls", "application/vnd.ms-excel"),
    ("xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"), ("xml", "application/xml"), ("xul", "application/vnd.mozilla.xul+xml"), ("zip", "application/zip"), ("7z", "application/x-7z-compressed"),
    ("bmp", "image/bmp"), ("gif", "image/gif"), ("ico", "image/vnd.microsoft.icon"), ("jpeg", "image/jpeg"), ("jpg", "image/jpeg"), ("png", "image/png"), ("svg", "image/svg+xml"), ("tif", "image/tiff"), ("tiff", "image/tiff"), ("webp", "image/webp"),
    ("aac", "audio/aac"), ("mid", "audio/midi"), ("midi", "audio/x-midi"), ("mp3", "audio/mpeg"), ("oga", "audio/ogg"), ("opus", "audio/opus"), ("wav", "audio/wav"), ("weba", "audio/webm"),
    ("avi", "video/x-msvideo"), ("mpeg", "video/mpeg"), ("ogv", "video/ogg"), ("ts", "video/mp2t"), ("webm", "video/webm"),
    ("otf", "font/otf"), ("ttf", "font/ttf"), ("woff", "font/woff"), ("woff2", "font/woff2"),
];

/// the extension of the last component of a file name
pub fn extension(name: &str) -> &str {
    let mut s = name;
    // trailing separators and `.` components are no part of a name
    loop {
        if s.len() > 1 && s.ends_with('/') {
            s = &s[..s.len() - 1];
        } else if s.ends_with("/.") {
            s = &s[..s.len() - 1];
        } else {
            break;
        }
    }
    let s = match s.bytes().rposition(|b| b == b'/') {
        Some(i) => &s[i + 1..],
        None => s,
    };
    if s == ".." {
        return "";
    }
    match s.bytes().rposition(|b| b == b'.') {
        Some(i) if i > 0 => &s[i + 1..],
        _ => "",
    }
}
pub fn media_type(ext: &str) -> &'static str {
    for (e, t) in TYPES {
        if e.eq_ignore_ascii_case(ext) {
            return t;
        }
    }
    "text/plain"
}
fn go(name: String) {
    let n = leak(name);
    let r = with(move |res| {
        res.attachment_with_filename(n).send("x");
    });
    let t = media_type(extension(n));
    only(&r, &[("Content-Disposition", &["attachment; filename = \"", n, "\""].concat()), ("Content-Type", t)]);
    if t == "text/plain" {
        rt::cover("default");
    } else {
        rt::cover("known");
    }
}
fn plain(v: &[u8]) {
    for b in v {
        rt::assume(*b >= 0x20 && *b < 0x7f && *b != b'"' && *b != b'\\' && *b != b'\'');
    }
}
/// any extension of n characters
#[no_mangle]
pub extern "C" fn c18_extension(n: u64, _: u64) {
    let v = rt::vec(n as usize, "ext");
    plain(&v);
    go(["f.", &String::from_utf8(v).unwrap()].concat());
}
/// every known extension, with any one character of it in either case or replaced
#[no_mangle]
pub extern "C" fn c18_table(_: u64, _: u64) {
    let e = TYPES[rt::choice(TYPES.len() as u64, "e")].0;
    let mut v = e.as_bytes().to_vec();
    let at = rt::choice(v.len() as u64, "at");
    rt::bytes(&mut v[at..at + 1], "c");
    plain(&v);
    go(["my file.", &String::from_utf8(v).unwrap()].concat());
}
/// any case of every letter
#[no_mangle]
pub extern "C" fn c18_case(_: u64, _: u64) {
    let e = TYPES[rt::choice(TYPES.len() as u64, "e")].0;
    let mut v = e.as_bytes().to_vec();
    for b in v.iter_mut() {
        if b.is_ascii_lowercase() && rt::range(1, "upper") == 1 {
            *b -= 32;
        }
    }
    go(["a.b.", &String::from_utf8(v).unwrap()].concat());
}
/// file names: any n characters replaced
#[no_mangle]
pub extern "C" fn c18_name(n: u64, k: u64) {
    let mut v = [b"a.png" as &[u8], b"d.x/js", b".gz", b"a/../b.css"][k as usize].to_vec();
    window(&mut v, n as usize);
    plain(&v);
    go(String::from_utf8(v).unwrap());
}
/// any words as name and extension
#[no_mangle]
pub extern "C" fn c18_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let sep = [&b"."[..], b"/", b".tar."][rt::choice(3, "sep")];
    go(String::from_utf8([&a[..], sep, &b].concat()).unwrap());
}
/// names that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c18_known(_: u64, _: u64) {
    let f = FILES[rt::choice(FILES.len() as u64, "file")];
    // (how a backslash is quoted is not decided)
    if !f.contains('\\') {
        go([["", "d/", "d.html/", "/"][rt::choice(4, "dir")], f].concat());
    }
}
/// long names and extensions
#[no_mangle]
pub extern "C" fn c18_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let t = long_text();
    go(match rt::choice(5, "place") {
        0 => t + ".png",
        1 => ["a.", &t].concat(),
        2 => [&t, "/b.Html"].concat(),
        3 => t,
        _ => ["a/", &t, ".x.pdf"].concat(),
    });
}
