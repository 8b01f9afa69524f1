#![allow(dead_code)]
mod kit;
mod names;
mod svm;
mod world;
use kit::*;
fn main() {
    let mut c = Chain::start(&["o1"]);
    let q = c.queue("o1", 0, 5000);
    must(c.request(&Req::new(&q)));
    c.wait(1);
    let id = c.ids(&q)[0];
    let o = c.provide("o1", &q, "p1", id, &[]);
    println!("{:?}", o);
    claim(o.ok && c.ids(&q).is_empty(), "served");
}
