//! P09: strings in the heap.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

/// Raw discriminant of the type of strings.
const TEXT: u32 = 3;

/// `ALLOC` gives the shared empty string and allocates nothing.
fn alloc(n: &mut impl Nd) {
    let old = n.u64();
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, old);
    cpu.set_reg(L0 + 1, KEEP);
    cpu.set_pc(7);
    let e = cpu.step(Op::Alloc, Op::Alloc.make([L0 as u32, TEXT, 0]), &[]);
    assert!(e.is_none() && cpu.pc() == 8);
    assert!(cpu.heap_len() == 1, "the empty string is shared");
    let (empty, _) = vm::heap_ptr_roundtrip(0);
    assert!(cpu.reg(L0) == empty, "a new string is not empty");
    assert!(cpu.reg(L0 + 1) == KEEP);
    std::mem::forget((cpu, e));
}

/// Entries get distinct pointers until the limit, whatever it is, and then none.
fn limit(n: &mut impl Nd) {
    let max = n.u32();
    n.assume(max < 1 << 24);
    let mut cpu = vm::Cpu::new(4, max);
    let mut len = cpu.heap_len();
    assert!(len == 1);
    for _ in 0..2 {
        let p = cpu.push_text("x");
        if len < max as usize {
            assert!(p == Some(vm::heap_ptr_roundtrip(len as u32).0), "wrong pointer");
            len += 1;
        } else {
            assert!(p.is_none(), "the heap grew beyond its limit");
        }
        assert!(cpu.heap_len() == len);
    }
    let p = cpu.push_text("");
    assert!(p == Some(vm::heap_ptr_roundtrip(0).0), "empty strings are shared and always fit");
    assert!(cpu.heap_len() == len);
    std::mem::forget(cpu);
}

/// `CONCAT` with a full heap fails and changes nothing.
fn concat_full(n: &mut impl Nd) {
    let keep = n.u64();
    let mut cpu = vm::Cpu::new(4, 2);
    let x = cpu.push_text("x").unwrap();
    cpu.set_reg(L0, x);
    cpu.set_reg(L0 + 1, vm::heap_ptr_roundtrip(0).0);
    cpu.set_reg(L0 + 2, keep);
    cpu.set_pc(7);
    let l = L0 as u32;
    let e = cpu.step(Op::Concat, Op::Concat.make([l + 2, l, l + 1]), &[]);
    assert!(matches!(&e, Some((7, _))), "no error");
    assert!(cpu.reg(L0 + 2) == keep && cpu.pc() == 7 && cpu.heap_len() == 2);
    assert!(cpu.reg(L0) == x);
    std::mem::forget((cpu, e));
}

/// `CONCAT` makes a new entry and keeps its operands, including when it overwrites one of them.
fn concat(n: &mut impl Nd) {
    let same = n.bool();
    let mut cpu = vm::Cpu::new(4, 8);
    let x = cpu.push_text("x").unwrap();
    let y = cpu.push_text("y").unwrap();
    cpu.set_reg(L0, x);
    cpu.set_reg(L0 + 1, y);
    cpu.set_reg(L0 + 2, KEEP);
    cpu.set_pc(7);
    let l = L0 as u32;
    let src2 = if same { l } else { l + 1 };
    let e = cpu.step(Op::Concat, Op::Concat.make([l + 2, l, src2]), &[]);
    assert!(e.is_none() && cpu.pc() == 8);
    assert!(cpu.reg(L0) == x && cpu.reg(L0 + 1) == y, "an operand changed");
    assert!(cpu.heap_len() == 4 && cpu.reg(L0 + 2) == vm::heap_ptr_roundtrip(3).0);
    std::mem::forget((cpu, e));
}

crate::suite! { "P09";
    proved alloc [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 2000;
    deep limit [kani::unwind(20)] * 5000;
    bounded_proof concat_full [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 2000;
    bounded_proof concat [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 2000;
}
