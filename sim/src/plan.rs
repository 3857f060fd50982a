//! Which scenarios decide which property.
use crate::ctor;
use crate::conc::{self, CFocus, Kind};
use crate::hist::{self, Cl, Focus};
use simcore::world::*;

#[derive(Clone, Copy)]
pub struct Scn {
    pub name: &'static str,
    pub weight: u32,
    pub f: &'static dyn Fn(),
}

fn scn(name: &'static str, weight: u32, f: impl Fn() + 'static) -> Scn {
    Scn { name, weight, f: Box::leak(Box::new(f)) }
}

const COUNTED: &[ItemKind] = &[ItemKind::Trk, ItemKind::Trk, ItemKind::Spa, ItemKind::Pad, ItemKind::Big];

#[cfg(not(feature = "cfg-vmem"))]
const STACKS: &[Variant] = &[Variant::ConcStack, Variant::LocalStack];
#[cfg(feature = "cfg-vmem")]
const STACKS: &[Variant] = &[];

pub fn scenarios(p: u32) -> Vec<Scn> {
    use Cl::*;
    let h = |f: Focus| move || hist::run(&f);
    let c = |f: CFocus| move || conc::run(&f);
    let all_kinds: &[Kind] = &[Kind::Free, Kind::Drain, Kind::DropRace, Kind::Exec];
    let vmem = cfg!(feature = "cfg-vmem");
    let det = [(Detach, 14), (GoBack, 20), (SetIdx, 10), (DReset, 6), (Sync, 6), (Attach, 4)];
    let rst = [(Reset, 14), (DReset, 14), (Avail, 1)];
    let asy = [(ToAsync, 12), (FStart, 30), (FPoll, 30), (FDrop, 6)];
    let slices = [(PushS, 30), (PushSI, 16), (NextSlices, 24), (Exact, 24), (AvailS, 24), (Mul, 24), (PeekN, 20), (PeekAvail, 16), (CopyS, 24), (CloneS, 24)];
    match p {
        1 => vec![
            scn("hist", 6, h(Focus::new())),
            scn("hist-long", 1, h(Focus { max_ops: 400, ..Focus::new() })),
            scn("conc", 2, c(CFocus::new())),
        ],
        2 => vec![
            scn("conc", 5, c(CFocus::new())),
            scn("conc-drain", 3, c(CFocus { kinds: &[Kind::Drain], ..CFocus::new() })),
            scn("conc-exec", 1, c(CFocus { kinds: &[Kind::Exec], ..CFocus::new() })),
        ],
        3 => vec![
            scn("conc", 5, c(CFocus::new())),
            scn("conc-slices", 2, c(CFocus::new().with(&slices))),
            scn("conc-detached", 2, c(CFocus::new().with(&det))),
            scn("conc-exec", 1, c(CFocus { kinds: &[Kind::Exec], ..CFocus::new() })),
        ],
        4 => vec![
            scn("hist", 5, h(Focus::new())),
            scn("hist-moves", 2, h(Focus::new().with(&det).with(&rst))),
            scn("conc", 3, c(CFocus::new().with(&[(Reset, 4), (Detach, 6)]))),
        ],
        5 => vec![
            scn("hist", 6, h(Focus::new().with(&[(Avail, 10), (Wait, 3)]))),
            scn("conc", 3, c(CFocus::new().with(&[(Avail, 12)]))),
        ],
        6 => vec![
            scn("hist-slices", 6, h(Focus { big: 20, ..Focus::new() }.with(&slices))),
            scn("hist", 2, h(Focus::new())),
            scn("conc-slices", 2, c(CFocus::new().with(&slices))),
        ],
        7 => vec![
            scn("conc-drop", 5, c(CFocus { kinds: &[Kind::DropRace], ..CFocus::new() })),
            scn("conc-life", 3, c(CFocus { kinds: &[Kind::Free, Kind::Free, Kind::Drain], ..CFocus::new() })),
            scn("hist-drop", 3, h(Focus { max_ops: 30, ..Focus::new() }.with(&[(Drop, 6), (Detach, 6), (ToAsync, 6)]))),
        ],
        8 => vec![
            scn("hist-counted", 6, h(Focus { items: COUNTED, clone_faults: 3, ..Focus::new() }.with(&[(PopMove, 20), (PushInit, 20), (PushSI, 20)]))),
            scn("hist-zeroed", 2, h(Focus { items: COUNTED, ctors: &[Ctor::Zeroed], clone_faults: 3, ..Focus::new() }.with(&[(PopMove, 20), (PushInit, 20), (PushSI, 20)]))),
            scn("conc-counted", 2, c(CFocus { items: COUNTED, kinds: all_kinds, clone_faults: 2, ..CFocus::new() })),
        ],
        9 => vec![
            scn("hist-zeroed", 6, h(Focus { items: COUNTED, ctors: &[Ctor::Zeroed, Ctor::Zeroed, Ctor::Default], clone_faults: 1, ..Focus::new() }
                .with(&[(PopMove, 25), (PushInit, 20), (PushSI, 20), (NextInit, 20)]))),
            scn("conc-zeroed", 2, c(CFocus { items: COUNTED, ctors: &[Ctor::Zeroed], ..CFocus::new() }.with(&[(PopMove, 25)]))),
        ],
        10 => vec![
            scn("conc-drain", 5, c(CFocus { kinds: &[Kind::Drain], stalls: 6, ..CFocus::new() })),
            scn("conc-free", 3, c(CFocus { kinds: &[Kind::Free], stalls: 10, ..CFocus::new() })),
            scn("conc-exec", 1, c(CFocus { kinds: &[Kind::Exec], stalls: 6, ..CFocus::new() })),
            scn("hist", 1, h(Focus::new())),
        ],
        11 => vec![
            scn("hist-reset", 6, h(Focus::new().with(&rst))),
            scn("conc-reset", 3, c(CFocus::new().with(&[(Reset, 14), (DReset, 10), (Detach, 3)]))),
        ],
        12 => vec![
            scn("hist-detached", 6, h(Focus::new().with(&det))),
            scn("conc-detached", 3, c(CFocus::new().with(&det))),
        ],
        13 => vec![
            scn("lockstep", 3, h(Focus { lockstep: true, clone_faults: 0, ..Focus::new() })),
            scn("lockstep-det", 1, h(Focus { lockstep: true, clone_faults: 0, ..Focus::new() }.with(&det))),
        ]
        .into_iter()
        .chain((!vmem).then(|| scn("lockstep-stack", 1, h(Focus { lockstep: true, clone_faults: 0, resplit: 12, variants: STACKS, ..Focus::new() }))))
        .collect(),
        14 => vec![
            scn("hist-async", 6, h(Focus { asplit: 8, ..Focus::new() }.with(&asy))),
            scn("hist-async-counted", 2, h(Focus { asplit: 8, items: COUNTED, clone_faults: 2, ..Focus::new() }.with(&asy))),
            scn("hist-twin", 3, h(Focus { lockstep: true, twin: true, clone_faults: 0, ..Focus::new() })),
            scn("exec", 2, c(CFocus { kinds: &[Kind::Exec], stalls: 2, ..CFocus::new() })),
            scn("conc-async", 1, c(CFocus { asplit: 10, ..CFocus::new() }.with(&asy))),
        ],
        15 => vec![
            scn("exec", 5, c(CFocus { kinds: &[Kind::Exec], stalls: 2, ..CFocus::new() })),
            scn("exec-copy-init", 1, c(CFocus { kinds: &[Kind::Exec], stalls: 2, ctors: &[Ctor::Zeroed], ..CFocus::new() })),
        ],
        18 => {
            let re = Focus { resplit: 14, ..Focus::new() };
            if vmem {
                vec![scn("ctor-heap", 2, ctor::heap), scn("hist", 1, h(re))]
            } else if cfg!(feature = "cfg-noalloc") {
                vec![scn("ctor-stack", 1, ctor::stack), scn("hist-resplit", 4, h(re))]
            } else {
                vec![
                    scn("ctor-heap", 4, ctor::heap),
                    scn("ctor-stack", 1, ctor::stack),
                    scn("hist-resplit", 5, h(Focus { variants: &[Variant::ConcStack, Variant::LocalStack], ..re.clone() })),
                    scn("hist", 1, h(re)),
                ]
            }
        }
        17 => vec![
            scn("hist-vmem", 3, h(Focus { mmap_faults: 1, ..Focus::new() })),
            scn("hist-vmem-slices", 2, h(Focus { big: 20, ..Focus::new() }.with(&slices))),
            scn("hist-vmem-counted", 1, h(Focus { items: COUNTED, ..Focus::new() })),
            scn("ctor-heap", 1, ctor::heap),
            scn("conc-vmem", 2, c(CFocus { kinds: all_kinds, ..CFocus::new() })),
        ],
        _ => vec![scn("hist", 1, h(Focus::new()))],
    }
}
