//! P12: the end of a program.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

/// `END` stops with its exit code or, if out of range, fails.
fn end(n: &mut impl Nd) {
    let code = n.i32();
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, raw(code));
    cpu.set_pc(7);
    let e = cpu.step(Op::End, Op::End.make([L0 as u32, 0, 0]), &[]);
    let stop = cpu.take_stop();
    if (0..=127).contains(&code) {
        assert!(e.is_none());
        assert!(matches!(stop, Some(vm::Stop::End(c)) if c == code), "wrong exit code");
    } else {
        assert!(matches!(&e, Some((7, _))), "exit code out of range accepted");
        assert!(stop.is_none());
    }
    assert!(cpu.reg(L0) == raw(code));
    std::mem::forget((cpu, e, stop));
}

/// The end of the code stops without an exit code and stays there.
fn eof(n: &mut impl Nd) {
    let pc = n.u16() as usize;
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_pc(pc);
    let e = cpu.step(Op::Eof, Op::Eof.make([0; 3]), &[]);
    let stop = cpu.take_stop();
    assert!(e.is_none() && matches!(stop, Some(vm::Stop::Eof)));
    assert!(cpu.pc() == pc, "code added later would be skipped");
    std::mem::forget((cpu, e, stop));
}

crate::suite! { "P12";
    proved end [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 5000;
    proved eof [kani::unwind(20)] * 2000;
}
