//! Span edits on a source text.
use proc_macro2::Span;

#[derive(Default)]
pub struct Edits {
    v: Vec<(usize, usize, u32, String)>,
    n: u32,
}

pub fn range(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl Edits {
    pub fn replace(&mut self, a: usize, b: usize, t: impl Into<String>) {
        assert!(a <= b);
        self.n += 1;
        self.v.push((a, b, self.n, t.into()));
    }
    pub fn insert(&mut self, a: usize, t: impl Into<String>) {
        self.replace(a, a, t)
    }
    pub fn delete(&mut self, a: usize, b: usize) {
        self.replace(a, b, "")
    }
    /// Apply the edits that lie within [lo, hi); an edit contained in an earlier replaced range is dropped.
    pub fn apply(&self, src: &str, lo: usize, hi: usize) -> String {
        let mut v: Vec<_> = self.v.iter().filter(|e| e.0 >= lo && e.1 <= hi).collect();
        // wider ranges first at the same start, inserts (in order of creation) before them
        v.sort_by(|x, y| {
            let xi = x.0 == x.1;
            let yi = y.0 == y.1;
            x.0.cmp(&y.0)
                .then(yi.cmp(&xi))
                .then((if xi { 0 } else { y.1 }).cmp(&(if yi { 0 } else { x.1 })))
                .then(x.2.cmp(&y.2))
        });
        let mut out = String::new();
        let mut pos = lo;
        for (a, b, _, t) in v {
            if *a < pos {
                continue;
            }
            out.push_str(&src[pos..*a]);
            out.push_str(t);
            pos = *b;
        }
        out.push_str(&src[pos..hi]);
        out
    }
}
