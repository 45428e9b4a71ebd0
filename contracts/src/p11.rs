//! P11: instructions that may be part of an endless execution request a pause.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

fn machine(pc: usize) -> vm::Cpu {
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, 0);
    cpu.set_reg(L0 + 5, 0);
    cpu.set_pc(pc);
    assert!(!cpu.yield_pending());
    cpu
}

/// Jumps that do not go forward pause.
fn jump(n: &mut impl Nd) {
    let (pc, target) = (n.u16() as usize, n.u16());
    let mut cpu = machine(pc);
    let e = cpu.step(Op::Jump, Op::Jump.make([u32::from(target), 0, 0]), &[]);
    if usize::from(target) <= pc {
        assert!(cpu.yield_pending(), "a loop that cannot be interrupted");
    }
    std::mem::forget((cpu, e));
}

fn branch(n: &mut impl Nd, target: u16) {
    let pc = n.u16() as usize;
    let value = n.bool();
    let mut cpu = machine(pc);
    cpu.set_reg(L0, value as u64);
    let e = cpu.step(Op::JumpIfFalse, Op::JumpIfFalse.make([L0 as u32, u32::from(target), 0]), &[]);
    if !value && usize::from(target) <= pc {
        assert!(cpu.yield_pending(), "a loop that cannot be interrupted");
    }
    std::mem::forget((cpu, e));
}

fn branch_0(n: &mut impl Nd) {
    branch(n, 0);
}
fn branch_300(n: &mut impl Nd) {
    branch(n, 300);
}
fn branch_65535(n: &mut impl Nd) {
    branch(n, 65535);
}

/// Every return pauses.  As the depth of the stack is limited, an endless sequence of calls has to
/// return endlessly often.
fn gosub(n: &mut impl Nd) {
    let mut cpu = machine(n.u16() as usize);
    let e1 = cpu.step(Op::Gosub, Op::Gosub.make([54321, 0, 0]), &[]);
    let e2 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(cpu.yield_pending(), "a recursion that cannot be interrupted");
    std::mem::forget((cpu, e1, e2));
}
fn call(n: &mut impl Nd) {
    let mut cpu = machine(n.u16() as usize);
    let e1 = cpu.step(Op::Call, Op::Call.make([L0 as u32 + 5, 54321, 0]), &[]);
    let e2 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(cpu.yield_pending(), "a recursion that cannot be interrupted");
    std::mem::forget((cpu, e1, e2));
}

/// A requested pause happens right before the next instruction that starts a statement, and only
/// there, and resuming continues as if it had not happened.
fn pauses(n: &mut impl Nd) {
    let len = 2 + n.below(8);
    let mut code = vec![];
    let mut stmts = vec![];
    let mut targets = vec![];
    for i in 0..len {
        let t = n.below(len + 1);
        stmts.push(n.bool());
        targets.push(t);
        code.push(match n.below(4) {
            0 => Op::Jump.make([t as u32, 0, 0]),
            1 => Op::JumpIfFalse.make([L0 as u32 + n.below(2) as u32, t as u32, 0]),
            2 => Op::LoadInteger.make([L0 as u32 + n.below(2) as u32, n.below(2) as u32, 0]),
            _ => Op::Nop.make([0; 3]),
        });
        let _ = i;
    }
    code.push(Op::Eof.make([0; 3]));
    stmts.push(n.bool());
    // An execution without any statement start in a loop has no place to pause.
    let mut m = vm::Machine::new(code.clone(), &stmts, vec![], 4, 8);
    let (mut pc, mut regs, mut pending) = (0usize, [0u64; 2], false);
    for _ in 0..6 {
        // Direct simulation until the next stop.
        let mut steps = 0;
        let stop = loop {
            if pending && stmts[pc] {
                pending = false;
                break false;
            }
            if code[pc] == Op::Eof.make([0; 3]) {
                break true;
            }
            steps += 1;
            n.assume(steps < 100);
            let i = code[pc];
            let jump = |t: usize, pc: &mut usize, pending: &mut bool| {
                *pending = *pending || t <= *pc;
                *pc = t;
            };
            let t = targets[pc];
            if i == Op::Jump.make([t as u32, 0, 0]) {
                jump(t, &mut pc, &mut pending);
                continue;
            }
            let mut done = false;
            for r in 0..2 {
                if i == Op::JumpIfFalse.make([(L0 + r) as u32, t as u32, 0]) {
                    if regs[r] == 0 {
                        jump(t, &mut pc, &mut pending);
                    } else {
                        pc += 1;
                    }
                    done = true;
                }
                for v in 0..2 {
                    if !done && i == Op::LoadInteger.make([(L0 + r) as u32, v, 0]) {
                        regs[r] = u64::from(v);
                        pc += 1;
                        done = true;
                    }
                }
            }
            if !done {
                pc += 1;
            }
        };
        match (stop, m.run()) {
            (true, vm::Stop::Eof) => {
                assert!(m.pc() == pc && m.reg(L0) == regs[0] && m.reg(L0 + 1) == regs[1]);
                return;
            }
            (false, vm::Stop::Yield) => {
                assert!(m.pc() == pc, "paused elsewhere");
                assert!(m.reg(L0) == regs[0] && m.reg(L0 + 1) == regs[1]);
            }
            (s, got) => panic!("expected {} but got {got:?}", if s { "the end" } else { "a pause" }),
        }
    }
}

crate::suite! { "P11";
    proved jump [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    proved branch_0 [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 1000;
    proved branch_300 [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 1000;
    proved branch_65535 [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 1000;
    proved gosub [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 1000;
    proved call [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 1000;
    bounded pauses * 20000;
}
