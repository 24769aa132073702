//! Unrelated calls between the judged ones: answers must not depend on what was called before.
use crate::calls::*;
use crate::gen::Gen;
use crate::model::Model;
use crate::replay::random_case;
use std::cell::RefCell;

thread_local! {
    static SOURCE: RefCell<Option<(Gen<'static>, &'static Model)>> = RefCell::new(None);
}
/// From now on, this thread makes noise.
pub fn start(seed: u64, dict: &[u64], md: &Model) {
    let dict: &'static [u64] = Box::leak(dict.to_vec().into_boxed_slice());
    let md: &'static Model = Box::leak(Box::new(md.clone()));
    SOURCE.with(|s| *s.borrow_mut() = Some((Gen::new(seed, dict), md)));
}
pub fn stop() {
    SOURCE.with(|s| *s.borrow_mut() = None);
}
/// Perhaps a few calls, whose answers are ignored.
pub fn some() {
    let Some((mut g, md)) = SOURCE.with(|s| s.borrow_mut().take()) else { return };
    for _ in 0..g.rng.below(3) {
        if g.rng.below(16) == 0 {
            let v = md.table[g.rng.below(md.assigned as u64) as usize];
            match g.rng.below(4) {
                0 => { ev_variant(&v); }
                1 => { ev_vprice(&v); }
                2 => { ev_swap(&v); }
                _ => { ev_lookup(&v); }
            }
        } else {
            let c = random_case(&mut g, md);
            c.ok(md);
        }
    }
    SOURCE.with(|s| *s.borrow_mut() = Some((g, md)));
}
