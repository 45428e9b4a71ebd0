//! P07: the call stack.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

/// Where calls jump to.  Concrete because the encoded instruction has to be; arbitrary targets are
/// in `history`, and the encoding of all of them is in P05.
const TARGET: u16 = 54321;

fn machine(max: usize, pc: usize) -> vm::Cpu {
    let mut cpu = vm::Cpu::new(max, 8);
    cpu.set_reg(L0, KEEP);
    cpu.set_pc(pc);
    cpu
}

/// `GOSUB` jumps without touching the registers and `RETURN` comes back to the next instruction.
fn gosub(n: &mut impl Nd) {
    let (pc, target) = (n.u16() as usize, TARGET);
    let value = n.u64();
    let mut cpu = machine(4, pc);
    let e1 = cpu.step(Op::Gosub, Op::Gosub.make([u32::from(target), 0, 0]), &[]);
    assert!(e1.is_none(), "call rejected although there is room in the stack");
    assert!(cpu.pc() == usize::from(target), "jumped elsewhere");
    assert!(cpu.fp() == L0 && cpu.depth() == 1, "GOSUB must not create a new scope");
    assert!(cpu.reg(L0) == KEEP, "GOSUB changed a variable");
    cpu.set_reg(L0, value);
    let e2 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(e2.is_none(), "RETURN rejected");
    assert!(cpu.pc() == pc + 1, "returned elsewhere");
    assert!(cpu.fp() == L0 && cpu.depth() == 0);
    assert!(cpu.reg(L0) == value, "RETURN lost a variable");
    std::mem::forget((cpu, e1, e2));
}

/// A function call gets its own registers and its result reaches the requested one.
fn call_with(n: &mut impl Nd, reg: u32) {
    let (pc, target) = (n.u16() as usize, TARGET);
    let value = n.u64();
    let mut cpu = machine(4, pc);
    cpu.set_reg(L0 + 1, KEEP + 1);
    let instr = Op::Call.make([reg, u32::from(target), 0]);
    let e1 = cpu.step(Op::Call, instr, &[]);
    assert!(e1.is_none(), "call rejected although there is room in the stack");
    assert!(cpu.pc() == usize::from(target), "jumped elsewhere");
    assert!(cpu.fp() == reg as usize, "the scope of the callee must start at the result");
    assert!(cpu.depth() == 1);
    // The callee sets its result, which is its first register.
    cpu.set_reg(reg as usize, value);
    let e2 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(e2.is_none(), "RETURN rejected");
    assert!(cpu.pc() == pc + 1, "returned elsewhere");
    assert!(cpu.fp() == L0 && cpu.depth() == 0, "the scope of the caller was not restored");
    assert!(cpu.reg(reg as usize) == value, "the result was lost");
    if reg != L0 as u32 {
        assert!(cpu.reg(L0) == KEEP, "the callee changed a variable of the caller");
    }
    if reg != L0 as u32 + 1 {
        assert!(cpu.reg(L0 + 1) == KEEP + 1, "the callee changed a variable of the caller");
    }
    std::mem::forget((cpu, e1, e2));
}

fn call_0(n: &mut impl Nd) {
    call_with(n, 64);
}
fn call_5(n: &mut impl Nd) {
    call_with(n, 69);
}
fn call_last(n: &mut impl Nd) {
    call_with(n, 254);
}

/// A full stack rejects calls and leaves the machine as it was.
fn overflow(n: &mut impl Nd) {
    let (pc, target) = (n.u16() as usize, n.u16());
    let is_call = n.bool();
    let mut cpu = machine(2, pc);
    for _ in 0..2 {
        let e = cpu.step(Op::Gosub, Op::Gosub.make([pc as u32, 0, 0]), &[]);
        assert!(e.is_none(), "call rejected although there is room in the stack");
        std::mem::forget(e);
    }
    let e = if is_call {
        cpu.step(Op::Call, Op::Call.make([70, u32::from(target), 0]), &[])
    } else {
        cpu.step(Op::Gosub, Op::Gosub.make([u32::from(target), 0, 0]), &[])
    };
    match &e {
        Some((at, message)) => {
            assert!(*at == pc, "error reported elsewhere");
            assert!(message.as_bytes() == b"Out of call stack space", "unexpected error");
        }
        None => panic!("stack exceeded its limit"),
    }
    assert!(cpu.pc() == pc && cpu.fp() == L0 && cpu.depth() == 2, "failed call had an effect");
    assert!(cpu.reg(L0) == KEEP);
    std::mem::forget((cpu, e));
}

/// Returning from nowhere is an error.
fn underflow(n: &mut impl Nd) {
    let pc = n.u16() as usize;
    let mut cpu = machine(2, pc);
    let e = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    match &e {
        Some((at, _)) => assert!(*at == pc, "error reported elsewhere"),
        None => panic!("RETURN without a call succeeded"),
    }
    assert!(cpu.pc() == pc && cpu.fp() == L0 && cpu.depth() == 0, "failed RETURN had an effect");
    assert!(cpu.reg(L0) == KEEP);
    std::mem::forget((cpu, e));
}

/// Calls nest: a call from a callee returns to the callee, and then to its caller.
fn nested(n: &mut impl Nd) {
    let (pc, t1, t2) = (n.u16() as usize, TARGET, TARGET / 2);
    let (v1, v2) = (n.u64(), n.u64());
    let mut cpu = machine(4, pc);
    let e1 = cpu.step(Op::Call, Op::Call.make([67, u32::from(t1), 0]), &[]);
    let e2 = cpu.step(Op::Call, Op::Call.make([66, u32::from(t2), 0]), &[]);
    assert!(cpu.fp() == 69 && cpu.depth() == 2 && cpu.pc() == usize::from(t2));
    cpu.set_reg(69, v1);
    let e3 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(cpu.fp() == 67 && cpu.pc() == usize::from(t1) + 1, "returned to the wrong caller");
    assert!(cpu.reg(69) == v1, "the result was lost");
    cpu.set_reg(67, v2);
    let e4 = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
    assert!(cpu.fp() == L0 && cpu.pc() == pc + 1, "returned to the wrong caller");
    assert!(cpu.reg(67) == v2 && cpu.reg(L0) == KEEP, "the result was lost");
    assert!(e1.is_none() && e2.is_none() && e3.is_none() && e4.is_none());
    std::mem::forget((cpu, e1, e2, e3, e4));
}

/// Long random histories of calls and returns against an explicit stack.
fn history(n: &mut impl Nd) {
    let max = n.below(20);
    let mut cpu = machine(max, 0);
    let mut stack: Vec<(usize, usize, Option<u32>)> = vec![];
    for _ in 0..n.below(60) {
        let (pc, fp) = (cpu.pc(), cpu.fp());
        let target = n.u16();
        match n.below(3) {
            0 => {
                let e = cpu.step(Op::Gosub, Op::Gosub.make([u32::from(target), 0, 0]), &[]);
                assert_eq!(stack.len() < max, e.is_none());
                if e.is_none() {
                    stack.push((pc, fp, None));
                    assert_eq!((usize::from(target), fp), (cpu.pc(), cpu.fp()));
                } else {
                    assert_eq!((pc, fp), (cpu.pc(), cpu.fp()));
                }
            }
            1 => {
                let reg = 64 + n.below(192) as u32;
                let e = cpu.step(Op::Call, Op::Call.make([reg, u32::from(target), 0]), &[]);
                assert_eq!(stack.len() < max, e.is_none());
                if e.is_none() {
                    stack.push((pc, fp, Some(reg)));
                    assert_eq!((usize::from(target), fp + reg as usize - 64), (cpu.pc(), cpu.fp()));
                } else {
                    assert_eq!((pc, fp), (cpu.pc(), cpu.fp()));
                }
            }
            _ => {
                let v = n.u64();
                cpu.set_reg(fp, v);
                let e = cpu.step(Op::Return, Op::Return.make([0; 3]), &[]);
                match stack.pop() {
                    Some((opc, ofp, reg)) => {
                        assert!(e.is_none());
                        assert_eq!((opc + 1, ofp), (cpu.pc(), cpu.fp()));
                        if let Some(reg) = reg {
                            assert_eq!(v, cpu.reg(ofp + reg as usize - 64));
                        }
                    }
                    None => {
                        assert_eq!("RETURN without GOSUB or FUNCTION call", e.unwrap().1);
                        assert_eq!((pc, fp), (cpu.pc(), cpu.fp()));
                    }
                }
            }
        }
        assert_eq!(stack.len(), cpu.depth());
    }
}

crate::suite! { "P07";
    proved gosub [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    proved call_0 [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    proved call_5 [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    proved call_last [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    proved overflow [kani::unwind(30)] * 5000;
    proved underflow [kani::unwind(40)] * 5000;
    proved nested [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    bounded history * 20000;
}
