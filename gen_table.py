#!/usr/bin/env python3
"""Write harness/src/lib.rs: the table of entries for the native replay."""
import os, re
D = os.path.dirname(os.path.abspath(__file__)) + '/harness/src/'
mods = sorted(f[:-3] for f in os.listdir(D) if re.fullmatch(r'c\d+\.rs', f))
out = 'pub mod common;\npub mod rt;\n' + ''.join('mod %s;\n' % m for m in mods)
if os.path.exists(D + 'json.rs'): out += 'mod json;\npub use json::*;\n'
out += '''
macro_rules! table {
    ($($m:ident::$f:ident,)*) => {
        const TABLE: &[(&str, extern "C" fn(u64, u64))] = &[$((stringify!($f), $m::$f),)*];
    };
}
table! {
'''
for m in mods:
    for f in re.findall(r'^pub extern "C" fn (%s_\w+)\(' % m, open(D + m + '.rs').read(), re.M): out += '    %s::%s,\n' % (m, f)
out += '''}
/// native replay
pub fn dispatch(name: &str, a: u64, b: u64) {
    let f = TABLE.iter().find(|x| x.0 == name).expect("unknown entry");
    (f.1)(a, b)
}
'''
open(D + 'lib.rs', 'w').write(out)
