//! What each property's runs concentrate on.
use crate::layout::{act, aty};
use crate::work::{Op, Profile};

pub fn base() -> Profile {
    Profile {
        ops: vec![
            (Op::Create, 6),
            (Op::AddRole, 14),
            (Op::Update, 8),
            (Op::Remove, 3),
            (Op::Replace, 4),
            (Op::Session, 5),
            (Op::Sign, 30),
            (Op::SignAll, 8),
            (Op::Sub1Create, 3),
            (Op::Sub1Sign, 3),
            (Op::Sub1Toggle, 2),
            (Op::Sub1Withdraw, 3),
            (Op::Sub2Create, 3),
            (Op::Sub2Sign, 4),
            (Op::Sub2Toggle, 2),
            (Op::Sub2Withdraw, 3),
            (Op::Claimer, 2),
            (Op::CloseToken, 3),
            (Op::CloseSwig, 2),
            (Op::Migrate, 2),
            (Op::TransferAssets, 2),
            (Op::Clock, 10),
            (Op::Fund, 14),
            (Op::Save, 1),
            (Op::Restore, 1),
            (Op::Deliver, 3),
            (Op::Replay, 3),
            (Op::Reuse, 4),
            (Op::Garbage, 2),
            (Op::Recreate, 1),
            (Op::Probe, 3),
        ],
        acts: vec![
            (act::SOL, 8),
            (act::SOL_REC, 6),
            (act::PROGRAM, 8),
            (act::SCOPE, 5),
            (act::TOK, 6),
            (act::TOK_REC, 5),
            (act::ALL, 2),
            (act::MANAGE, 3),
            (act::SUB, 4),
            (act::STAKE, 3),
            (act::STAKE_REC, 3),
            (act::STAKE_ALL, 2),
            (act::PROG_ALL, 4),
            (act::PROG_CUR, 4),
            (act::ALL_BUT, 2),
            (act::SOL_DST, 4),
            (act::SOL_REC_DST, 4),
            (act::TOK_DST, 3),
            (act::TOK_REC_DST, 3),
            (act::CLOSE, 3),
            (act::REPLACE, 2),
            (act::V2_CREATE, 3),
            (act::V2_ALL, 2),
            (act::V2_SIGN, 2),
            (act::V2_WITHDRAW, 2),
            (act::V2_TOGGLE, 2),
        ],
        auths: vec![
            (aty::ED, 10),
            (aty::ED_S, 4),
            (aty::K1, 4),
            (aty::K1_S, 2),
            (aty::R1, 4),
            (aty::R1_S, 2),
            (aty::PX, 3),
            (aty::PX_S, 2),
        ],
        twist: 8,
        mutate: 6,
        faults: 8,
        wrap: 33,
        legacy: 10,
        steps: 90,
    }
}
fn ops(p: &mut Profile, v: &[(Op, u32)]) {
    for (o, w) in v {
        match p.ops.iter_mut().find(|x| x.0 == *o) {
            Some(x) => x.1 = *w,
            None => p.ops.push((*o, *w)),
        }
    }
}
fn acts(p: &mut Profile, v: &[(u16, u32)]) {
    for (o, w) in v {
        if let Some(x) = p.acts.iter_mut().find(|x| x.0 == *o) {
            x.1 = *w;
        }
    }
}
fn auths(p: &mut Profile, v: &[(u16, u32)]) {
    p.auths = v.to_vec();
}
pub fn for_prop(id: u32) -> Profile {
    let mut p = base();
    let ed = &[(aty::ED, 12), (aty::ED_S, 1), (aty::K1, 1), (aty::R1, 1)];
    match id {
        1 => {
            ops(&mut p, &[(Op::Sign, 90)]);
            acts(&mut p, &[(act::SOL, 40), (act::SOL_REC, 15), (act::SOL_DST, 8), (act::PROG_ALL, 12)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        2 => {
            ops(&mut p, &[(Op::Sign, 80), (Op::Clock, 40)]);
            acts(&mut p, &[(act::SOL_REC, 30), (act::TOK_REC, 25), (act::STAKE_REC, 25), (act::SOL_REC_DST, 15), (act::TOK_REC_DST, 10), (act::PROG_ALL, 15)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        3 => {
            ops(&mut p, &[(Op::Sign, 80), (Op::Fund, 30)]);
            acts(&mut p, &[(act::TOK, 40), (act::TOK_REC, 25), (act::TOK_DST, 8), (act::CLOSE, 8), (act::PROG_ALL, 12)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        4 => {
            ops(&mut p, &[(Op::Sign, 80), (Op::Clock, 20), (Op::Fund, 25)]);
            acts(&mut p, &[(act::SOL_DST, 30), (act::SOL_REC_DST, 30), (act::TOK_DST, 25), (act::TOK_REC_DST, 25), (act::SOL, 15), (act::TOK, 15), (act::PROG_ALL, 20)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        5 => {
            ops(&mut p, &[(Op::Sign, 80), (Op::Fund, 40)]);
            acts(&mut p, &[(act::STAKE, 40), (act::STAKE_REC, 30), (act::STAKE_ALL, 10), (act::PROG_ALL, 20)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        6 => {
            ops(&mut p, &[(Op::Sign, 90), (Op::Clock, 20)]);
            acts(&mut p, &[(act::SCOPE, 90), (act::PROG_ALL, 20)]);
            auths(&mut p, ed);
            p.twist = 2;
            p.mutate = 2;
        },
        7 => {
            ops(&mut p, &[(Op::Sign, 90)]);
            acts(&mut p, &[(act::PROGRAM, 60), (act::PROG_CUR, 20), (act::PROG_ALL, 4), (act::SOL, 15)]);
            auths(&mut p, ed);
            p.twist = 2;
        },
        8 => {
            ops(&mut p, &[(Op::Sign, 90), (Op::Fund, 25)]);
            acts(&mut p, &[(act::PROG_ALL, 25), (act::CLOSE, 8), (act::SOL, 15)]);
            auths(&mut p, ed);
            p.twist = 2;
        },
        9 => {
            p.twist = 35;
            p.mutate = 15;
            ops(&mut p, &[(Op::Reuse, 15)]);
        },
        10 => {
            auths(&mut p, &[(aty::K1, 10), (aty::K1_S, 4), (aty::R1, 8), (aty::R1_S, 4)]);
            p.twist = 20;
            p.faults = 15;
            ops(&mut p, &[(Op::Reuse, 30), (Op::Replay, 20), (Op::Save, 4), (Op::Restore, 4), (Op::Session, 10)]);
        },
        11 => {
            auths(&mut p, &[(aty::ED, 1), (aty::ED_S, 8), (aty::K1_S, 5), (aty::R1_S, 5), (aty::PX_S, 5)]);
            p.twist = 20;
            ops(&mut p, &[(Op::Session, 40), (Op::Clock, 20), (Op::Reuse, 10)]);
        },
        12 => {
            auths(&mut p, &[(aty::R1, 10), (aty::R1_S, 4)]);
            p.twist = 40;
            ops(&mut p, &[(Op::Session, 8)]);
        },
        13 => {
            auths(&mut p, &[(aty::PX, 10), (aty::PX_S, 4), (aty::ED, 2)]);
            p.twist = 40;
            ops(&mut p, &[(Op::Session, 8), (Op::Replace, 10)]);
        },
        14 | 15 | 16 => {
            ops(&mut p, &[(Op::AddRole, 40), (Op::Update, 45), (Op::Remove, 20), (Op::Replace, 8), (Op::Claimer, 5), (Op::Sub2Create, 6)]);
            acts(&mut p, &[(act::MANAGE, 8)]);
            if id == 16 {
                ops(&mut p, &[(Op::Remove, 45)]);
            }
        },
        17 => {
            ops(&mut p, &[(Op::Replace, 70), (Op::Session, 10), (Op::Reuse, 10)]);
            acts(&mut p, &[(act::REPLACE, 25), (act::MANAGE, 8)]);
        },
        18 => {
            ops(&mut p, &[(Op::Sub1Create, 30), (Op::Sub1Sign, 40), (Op::Sub1Toggle, 15), (Op::Sub1Withdraw, 15), (Op::Fund, 25)]);
            acts(&mut p, &[(act::SUB, 50), (act::MANAGE, 6)]);
        },
        19 => {
            ops(&mut p, &[(Op::Sub2Create, 30), (Op::Sub2Sign, 40), (Op::Sub2Toggle, 20), (Op::Sub2Withdraw, 25), (Op::Fund, 20)]);
            acts(&mut p, &[(act::V2_CREATE, 25), (act::V2_ALL, 10), (act::V2_SIGN, 15), (act::V2_WITHDRAW, 15), (act::V2_TOGGLE, 15)]);
        },
        20 => {
            ops(&mut p, &[(Op::Sub1Create, 25), (Op::Sub1Withdraw, 40), (Op::Sub2Create, 25), (Op::Sub2Withdraw, 40), (Op::Fund, 40)]);
            acts(&mut p, &[(act::SUB, 30), (act::V2_CREATE, 25), (act::V2_WITHDRAW, 15), (act::MANAGE, 6)]);
        },
        21 => {
            ops(&mut p, &[(Op::CloseSwig, 30), (Op::Recreate, 15), (Op::Create, 15), (Op::Claimer, 5)]);
            acts(&mut p, &[(act::CLOSE, 15)]);
        },
        22 => {
            ops(&mut p, &[(Op::Claimer, 40), (Op::CloseSwig, 15), (Op::CloseToken, 25), (Op::Create, 10), (Op::Fund, 25)]);
            acts(&mut p, &[(act::CLOSE, 15)]);
        },
        23 => {
            ops(&mut p, &[(Op::CloseToken, 60), (Op::Fund, 50)]);
            acts(&mut p, &[(act::CLOSE, 20)]);
        },
        24 => {
            ops(&mut p, &[(Op::Create, 60), (Op::Recreate, 30), (Op::CloseSwig, 8)]);
            p.mutate = 10;
        },
        25 => {
            ops(&mut p, &[(Op::Migrate, 30), (Op::TransferAssets, 30), (Op::Create, 12), (Op::Fund, 30)]);
            p.legacy = 60;
        },
        26 => {
            p.mutate = 50;
            p.twist = 15;
            ops(&mut p, &[(Op::Garbage, 30), (Op::Sub1Create, 8), (Op::Sub1Withdraw, 14), (Op::Sub1Sign, 8), (Op::Sub2Create, 8), (Op::Sub2Withdraw, 12), (Op::Sub2Sign, 8), (Op::CloseToken, 6)]);
            acts(&mut p, &[(act::SUB, 10), (act::V2_CREATE, 8), (act::V2_ALL, 6), (act::ALL, 6)]);
        },
        27 => {
            ops(&mut p, &[(Op::Sign, 60), (Op::SignAll, 60), (Op::Sub1Sign, 15), (Op::Sub2Sign, 15), (Op::Sub1Create, 8), (Op::Sub2Create, 8)]);
            acts(&mut p, &[(act::ALL, 15), (act::ALL_BUT, 8), (act::PROG_ALL, 15)]);
            p.mutate = 15;
        },
        28 => {
            p.faults = 20;
            p.twist = 5;
            ops(&mut p, &[(Op::Probe, 20), (Op::Save, 3), (Op::Restore, 3), (Op::Update, 15)]);
        },
        29 => {
            ops(&mut p, &[(Op::SignAll, 40), (Op::Sign, 60), (Op::Sub1Create, 6), (Op::Sub1Sign, 25), (Op::Sub2Create, 6), (Op::Sub2Sign, 25)]);
            acts(&mut p, &[(act::PROG_ALL, 25), (act::ALL, 10), (act::SUB, 20), (act::V2_CREATE, 10), (act::V2_ALL, 10)]);
            auths(&mut p, ed);
            p.wrap = 200;
        },
        30 => {
            ops(&mut p, &[(Op::Update, 30), (Op::AddRole, 25), (Op::Remove, 12), (Op::Sub2Create, 10), (Op::Claimer, 6), (Op::Create, 12)]);
        },
        31 => {
            ops(&mut p, &[(Op::Sign, 30), (Op::SignAll, 30), (Op::Sub1Sign, 10), (Op::Sub2Sign, 10), (Op::Sub1Create, 8), (Op::Sub2Create, 8), (Op::AddRole, 20), (Op::Remove, 8), (Op::Update, 15), (Op::Claimer, 6)]);
            p.twist = 5;
            p.mutate = 5;
        },
        32 | 33 => {
            ops(&mut p, &[(Op::Create, 8), (Op::AddRole, 30), (Op::Update, 20), (Op::Remove, 12), (Op::Replace, 14), (Op::Session, 14), (Op::Sign, 25), (Op::SignAll, 15), (Op::Sub1Create, 25), (Op::Sub1Sign, 25), (Op::Sub1Toggle, 15), (Op::Sub1Withdraw, 25), (Op::Sub2Create, 25), (Op::Sub2Sign, 25), (Op::Sub2Toggle, 15), (Op::Sub2Withdraw, 25), (Op::Claimer, 8), (Op::CloseToken, 15), (Op::CloseSwig, 8), (Op::TransferAssets, 6), (Op::Fund, 30), (Op::Garbage, 0), (Op::Replay, 1), (Op::Reuse, 1)]);
            acts(&mut p, &[(act::SUB, 20), (act::V2_CREATE, 15), (act::V2_ALL, 8), (act::V2_SIGN, 6), (act::V2_WITHDRAW, 6), (act::V2_TOGGLE, 6), (act::CLOSE, 8), (act::REPLACE, 8), (act::MANAGE, 6), (act::ALL, 6)]);
            auths(&mut p, &[(aty::ED, 6), (aty::ED_S, 2), (aty::K1, 8), (aty::K1_S, 3), (aty::R1, 8), (aty::R1_S, 3), (aty::PX, 10), (aty::PX_S, 3)]);
            p.twist = 2;
            p.mutate = 1;
            p.faults = 3;
            p.wrap = 5;
            p.steps = 60;
        },
        _ => {},
    }
    p
}
