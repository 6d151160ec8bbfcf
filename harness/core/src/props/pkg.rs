//! Shared generation of packages.
use crate::engine::*;
use crate::ext::{EXT, EXT2, REG};
use crate::gen_::{Profile, program};
use hugr::Hugr;
use hugr::extension::ExtensionRegistry;
use hugr::package::Package;
use hugr::std_extensions::STD_REG;

pub fn any_profile(t: &mut Tape, size: usize) -> Profile {
    Profile {
        size: 2 + t.below(size),
        aliases: t.chance(1, 8),
        odd_names: t.chance(1, 2),
        bounded: t.flag(),
        partial: t.flag(),
        panics: t.flag(),
        recursion: t.flag(),
        effects: t.flag(),
        depth: 1 + t.below(4),
        funcs: t.below(4),
        consty: t.chance(1, 4),
        collections: t.flag(),
        nonlocal: t.flag(),
        ..Default::default()
    }
}
pub fn any_hugr(t: &mut Tape, size: usize) -> Hugr {
    let p = any_profile(t, size);
    program(t, &p).hugr
}
pub struct P {
    pub pkg: Package,
    /// What to supply on loading.
    pub reg: ExtensionRegistry,
    pub embedded: usize,
}
pub fn package(t: &mut Tape, size: usize, tweak: impl Fn(&mut Profile)) -> P {
    let n = match t.below(8) {
        0..=4 => 1,
        5 => 2,
        6 => 3,
        _ => 0,
    };
    let mut modules = vec![];
    for _ in 0..n {
        let mut p = any_profile(t, (size / n.max(1)).max(4));
        tweak(&mut p);
        modules.push(program(t, &p).hugr);
    }
    let mut pkg = Package::new(modules);
    let mut reg = STD_REG.clone();
    let mut embedded = 0;
    for (i, e) in [&*EXT, &*EXT2].into_iter().enumerate() {
        let embed = t.flag();
        if embed {
            pkg.extensions.register(e.clone()).unwrap();
            embedded |= 1 << i;
        }
        if !embed || t.chance(1, 4) {
            reg.register(e.clone()).unwrap();
        }
    }
    if t.chance(1, 8) {
        reg = REG.clone();
    }
    P { pkg, reg, embedded }
}
