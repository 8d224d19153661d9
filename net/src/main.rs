//! Native replay of a recorded path: replay FILE
fn main() {
    let f = std::env::args().nth(1).expect("replay file");
    let t = std::fs::read_to_string(&f).unwrap();
    let l = t.lines().find_map(|l| l.strip_prefix("entry ")).expect("entry line");
    let mut w = l.split(' ');
    let name = w.next().unwrap();
    let a: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
    octane_net::rt::load(&f);
    octane_net::dispatch(name, a.first().copied().unwrap_or(0), a.get(1).copied().unwrap_or(0));
}
