//! The flags of a decision diagram's node (a private module of the crate, compiled here as it is).
#[path = "../../core/src/vp.rs"]
mod vp;
fn p(i: u32) -> usize {
    vp::param(i) as usize
}
#[path = "/repo/src/mdd/node_flags.rs"]
#[allow(dead_code)]
mod node_flags;
use node_flags::NodeFlags as F;

fn read(f: F) -> [bool; 6] {
    [f.test(F::F_EXACT), f.is_relaxed(), f.is_marked(), f.is_cutset(), f.is_deleted(), f.is_pruned_by_barrier()]
}
/// Any sequence of param 50 operations on a node's flags: each flag is what was last set for it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_flags() {
    let relaxed = vp::sym(1, 0, 1) == 1;
    let mut f = F::new(relaxed);
    vp::check(f == if relaxed { F::new_relaxed() } else { F::new_exact() }, 170);
    vp::check(relaxed || f == F::default(), 170);
    let mut want = [!relaxed, relaxed, false, false, false, false];
    let masks = [F::F_EXACT, F::F_RELAXED, F::F_MARKED, F::F_CUTSET, F::F_DELETED, F::F_BARRIER];
    for i in 0..=p(50) {
        let got = read(f);
        for k in 0..6 {
            vp::check(got[k] == want[k], 171);
        }
        vp::check(f.is_exact() == vp::and(want[0], !want[1]), 172);
        if i == p(50) {
            break;
        }
        let v = vp::sym(100 + i as u32, 0, 1) == 1;
        let op = vp::conc(vp::sym(200 + i as u32, 0, 8));
        match op {
            0 => f.set_exact(v),
            1 => f.set_relaxed(v),
            2 => f.set_marked(v),
            3 => f.set_cutset(v),
            4 => f.set_deleted(v),
            5 => f.set_pruned_by_barrier(v),
            _ => {
                // any combination of flags at once
                let m = vp::sym(300 + i as u32, 0, 63) as u8;
                match op {
                    6 => f.set(m, v),
                    7 => f.add(m),
                    _ => f.remove(m),
                }
                let v = match op {
                    6 => v,
                    7 => true,
                    _ => false,
                };
                for k in 0..6 {
                    want[k] = vp::ite(m & masks[k] != 0, v as isize, want[k] as isize) == 1;
                }
                let all = vp::all((0..6).map(|k| vp::or(m & masks[k] == 0, want[k])));
                vp::check(f.test(m) == all, 173);
                vp::reach(171);
                continue;
            }
        }
        want[op as usize] = v;
        vp::reach(170);
    }
    vp::out(170, f.is_exact() as isize);
}
