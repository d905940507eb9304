//! A catalogue of small statements that covers every feature of the constraint-system API.
use crate::circuit::*;

pub fn all_lc(n: usize, m: i64, c: i64) -> L {
    L { t: (0..n).map(|i| (i, (i as i64 + 2) * m - 1)).collect(), c }
}
fn close(mut p: Prog) -> Prog {
    let n = nvars(&p);
    p.push(Op::Constrain(all_lc(n, 1, 5), 0));
    p
}
pub fn catalogue() -> Vec<(&'static str, Prog)> {
    let one = |i: usize| Op::Constrain(lc(&[(i, 3)], -2), 0);
    vec![
        ("commit", close(vec![Op::Commit(3)])),
        ("commits", close(vec![Op::Commit(3), Op::Commit(-4)])),
        ("gate", close(vec![Op::AllocMul(3, 4)])),
        ("mul", close(vec![Op::Commit(2), Op::Mul(lc(&[(0, 1)], 1), lc(&[(0, 2)], -3))])),
        ("alloc3", close(vec![Op::Alloc(3), Op::Alloc(4), Op::Alloc(7)])),
        ("gates3", close(vec![Op::AllocMul(3, 4), Op::AllocMul(2, 5), Op::Mul(lc(&[(2, 1)], 0), lc(&[(5, 1)], 1))])),
        ("vec", close(vec![Op::CommitVec(vec![3, 4]), Op::AllocMul(2, 9)])),
        ("vec-long", close(vec![Op::CommitVec(vec![3, 4, 5])])),
        ("vecs", close(vec![Op::CommitVec(vec![3]), Op::CommitVec(vec![5, 6]), Op::AllocMul(2, 9), Op::AllocMul(3, -1)])),
        ("vecs3", close(vec![Op::CommitVec(vec![3]), Op::CommitVec(vec![5, 6]), Op::CommitVec(vec![7]), Op::AllocMul(2, 9)])),
        ("mixed", close(vec![Op::Commit(8), Op::CommitVec(vec![5, 6]), Op::Commit(1), Op::Mul(lc(&[(0, 1)], 1), lc(&[(1, 2)], -3)), one(2)])),
        ("phase2-lin", close(vec![Op::Commit(8), Op::AllocMul(2, 9), Op::Phase2(vec![Op2::ConstrainC(all_lc(4, 2, 1), 0)])])),
        ("phase2", close(vec![Op::AllocMul(2, 9), Op::Phase2(vec![Op2::MulC(lc(&[(0, 1)], 2), lc(&[(1, 1)], 3)), Op2::AllocC(4)])])),
        ("phase2-only", close(vec![Op::Commit(6), Op::Phase2(vec![Op2::MulC(lc(&[(0, 1)], 2), lc(&[], 3))]), Op::Phase2(vec![Op2::AllocMulC(2, 1)])])),
        ("vec-phase2", close(vec![Op::CommitVec(vec![1, 2]), Op::AllocMul(2, 3), Op::Phase2(vec![Op2::ConstrainC(all_lc(5, 2, 1), 0)])])),
        ("gates5", close((0..5).map(|i| Op::AllocMul(i + 2, i + 3)).collect())),
    ]
}
/// Values that do not occur elsewhere, for replaced points and scalars.
pub fn big(prog: &Prog) -> usize {
    let (a, b) = gates(prog);
    (a + b).next_power_of_two()
}
