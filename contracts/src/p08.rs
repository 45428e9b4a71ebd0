//! P08: jumps.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

/// `JMPF` jumps exactly if its register holds false.
fn branch_with(n: &mut impl Nd, target: u16) {
    let b = n.bool();
    let pc = 7;
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, b as u64);
    cpu.set_reg(L0 + 1, KEEP);
    cpu.set_pc(pc);
    let e = cpu.step(Op::JumpIfFalse, Op::JumpIfFalse.make([L0 as u32, u32::from(target), 0]), &[]);
    assert!(e.is_none());
    assert!(cpu.pc() == if b { pc + 1 } else { usize::from(target) }, "took the wrong branch");
    assert!(cpu.reg(L0) == b as u64 && cpu.reg(L0 + 1) == KEEP, "a jump changed a variable");
    assert!(cpu.fp() == L0 && cpu.depth() == 0);
    std::mem::forget((cpu, e));
}

fn branch_forward(n: &mut impl Nd) {
    branch_with(n, 54321);
}
fn branch_backward(n: &mut impl Nd) {
    branch_with(n, 3);
}
fn branch_start(n: &mut impl Nd) {
    branch_with(n, 0);
}

/// `JUMP` always jumps and changes nothing else.
fn jump(n: &mut impl Nd) {
    let target = n.u16();
    let pc = n.u16() as usize;
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, KEEP);
    cpu.set_pc(pc);
    let e = cpu.step(Op::Jump, Op::Jump.make([u32::from(target), 0, 0]), &[]);
    assert!(e.is_none());
    assert!(cpu.pc() == usize::from(target), "jumped elsewhere");
    assert!(cpu.reg(L0) == KEEP && cpu.fp() == L0 && cpu.depth() == 0);
    std::mem::forget((cpu, e));
}

crate::suite! { "P08";
    proved branch_forward [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 100;
    proved branch_backward [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 100;
    proved branch_start [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 100;
    proved jump [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
}
