//! P10: configuration of the error handler.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;
use vm::Handler;

/// `ON ERROR` replaces the handler, whichever it was, and changes nothing else.
fn set_with(n: &mut impl Nd, mode: u32, expected: impl Fn(u16) -> Handler) {
    let first = n.below(3) as u32;
    let value = n.u64();
    let target = n.u16();
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, value);
    assert!(cpu.handler() == Handler::None, "errors are not handled by default");
    cpu.set_pc(6);
    let e = cpu.step(Op::SetErrorHandler, Op::SetErrorHandler.make([first, 3, 0]), &[]);
    assert!(e.is_none() && cpu.pc() == 7);
    let e = cpu.step(Op::SetErrorHandler, Op::SetErrorHandler.make([mode, u32::from(target), 0]), &[]);
    assert!(e.is_none() && cpu.pc() == 8);
    assert!(cpu.handler() == expected(target), "wrong handler");
    assert!(cpu.reg(L0) == value && cpu.fp() == L0 && cpu.depth() == 0);
    std::mem::forget((cpu, e));
}

fn set_none(n: &mut impl Nd) {
    set_with(n, 0, |_| Handler::None);
}
fn set_jump(n: &mut impl Nd) {
    set_with(n, 2, |t| Handler::Jump(false, usize::from(t)));
}
fn set_resume(n: &mut impl Nd) {
    set_with(n, 1, |_| Handler::ResumeNext);
}

crate::suite! { "P10";
    proved set_none [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 3000;
    proved set_jump [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 3000;
    proved set_resume [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 3000;
}
