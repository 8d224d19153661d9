//! C20: settings hold what was configured last.
use crate::c11::leak;
use crate::common::*;
use crate::rt;
use octane::config::{OctaneConfig, Ssl};
use octane::prelude::*;
use std::path::Path;
use std::time::Duration;

#[derive(Clone)]
struct Model {
    key: String,
    cert: String,
    port: u16,
    keep: Option<Duration>,
}
fn fresh() -> Model {
    Model { key: String::new(), cert: String::new(), port: 443, keep: Some(Duration::from_secs(5)) }
}
fn check(c: &OctaneConfig, m: &Model, id: &str) {
    rt::check(c.ssl.port == m.port, id);
    rt::check(c.ssl.key == Path::new(&m.key) && c.ssl.cert == Path::new(&m.cert), id);
    rt::check(c.keep_alive == m.keep, id);
}
fn num(name: &str) -> u64 {
    let b = rt::vec(2, name);
    b[0] as u64 | (b[1] as u64) << 8
}
/// one operation on something that has settings, and on its model
fn apply<C: Config>(c: &mut C, m: &mut Model, k: u64) {
    match k {
        0 => {
            let (s, n) = (rt::vec(8, "secs"), rt::vec(4, "nanos"));
            let n = u32::from_le_bytes([n[0], n[1], n[2], n[3]]);
            rt::assume(n < 1_000_000_000);
            let d = Duration::new(u64::from_le_bytes([s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]), n);
            c.set_keepalive(d);
            m.keep = Some(d);
        }
        1 => {
            let p = num("port") as u16;
            c.ssl(p);
            m.port = p;
        }
        2 => {
            let p = num("port") as u16;
            let (a, b) = (text(2, "key"), text(2, "cert"));
            c.ssl(p).key(&a).cert(&b);
            m.port = p;
            m.key = a;
            m.cert = b;
        }
        3 => {
            let mut s = Ssl::new();
            let a = text(2, "key");
            s.key(&a).cert("c.pem");
            s.port = num("port") as u16;
            m.port = s.port;
            m.key = a;
            m.cert = "c.pem".into();
            c.with_ssl_config(s);
        }
        4 => {
            let p = num("port") as u16;
            let a = text(1, "key");
            c.ssl(p).key(&a);
            m.port = p;
            m.key = a;
        }
        _ => {
            let b = text(1, "cert");
            let p = m.port;
            c.ssl(p).cert(&b);
            m.cert = b;
        }
    }
}
const OPS: u64 = 6;
/// any n operations on a server
#[no_mangle]
pub extern "C" fn c20_app(n: u64, _: u64) {
    let mut app = Octane::new();
    let mut m = fresh();
    check(&app.settings, &m, "C20 a new server has the default settings");
    for _ in 0..n {
        let k = rt::range(OPS + 3, "op");
        if k < OPS {
            apply(&mut app, &mut m, k);
            rt::cover("set");
        } else if k == OPS + 3 {
            app.settings.keep_alive = None;
            m.keep = None;
        } else {
            // a configuration made separately replaces the settings
            let mut c = OctaneConfig::new();
            let mut cm = fresh();
            if k == OPS + 2 {
                c.keep_alive = None;
                cm.keep = None;
            }
            if k == OPS + 1 {
                apply(&mut c, &mut cm, rt::range(OPS - 1, "inner"));
                c.worker_threads(3);
            }
            app.with_config(c);
            m = cm;
            rt::cover("replaced");
        }
        check(&app.settings, &m, "C20 the settings of a server are those configured last");
        rt::note(app.settings.ssl.port as u64, "port");
    }
}
/// any n operations on a configuration
#[no_mangle]
pub extern "C" fn c20_config(n: u64, _: u64) {
    let mut c = OctaneConfig::default();
    let mut m = fresh();
    for _ in 0..n {
        apply(&mut c, &mut m, rt::range(OPS - 1, "op"));
    }
    check(&c, &m, "C20 a configuration holds what was set last");
    let s = c.ssl.clone();
    rt::check(s.port == m.port && s.key == Path::new(&m.key), "C20 settings can be copied");
    rt::cover("config");
    let _ = leak;
}
