//! P06: arrays.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm as vm;

/// Checks `flat_index` for `N` dimensions against the definition of the layout: the first
/// dimension varies fastest.
fn flat<const N: usize>(n: &mut impl Nd, dims: [usize; N], subs: [i32; N]) {
    let _ = &n;
    let mut inside = true;
    let mut expected = 0usize;
    let mut stride = 1usize;
    for i in 0..N {
        inside = inside && subs[i] >= 0 && (subs[i] as i64) < dims[i] as i64;
        expected = expected.wrapping_add((subs[i] as usize).wrapping_mul(stride));
        stride *= dims[i];
    }
    let r = vm::flat_index(dims.to_vec(), &subs);
    match &r {
        Ok(i) => {
            assert!(inside, "subscripts out of range accepted");
            assert!(*i == expected, "wrong element");
            assert!(*i < stride, "element is outside of the array");
        }
        Err(_) => assert!(!inside, "subscripts in range rejected"),
    }
    std::mem::forget(r);
}

fn flat_1(n: &mut impl Nd) {
    let d = n.u32() as usize;
    n.assume(d >= 1 && d <= i32::MAX as usize);
    let s = n.i32();
    flat(n, [d], [s]);
}

fn dim(n: &mut impl Nd, limit: usize) -> usize {
    1 + n.below(limit)
}

/// Any subscript, though most often a small one when generated.
fn sub(n: &mut impl Nd) -> i32 {
    let s = n.i32();
    if n.bool() {
        s & 7
    } else {
        s
    }
}

fn flat_2(n: &mut impl Nd) {
    let d = [dim(n, 255), dim(n, 255)];
    let s = [sub(n), sub(n)];
    flat(n, d, s);
}

fn flat_3(n: &mut impl Nd) {
    let d = [dim(n, 15), dim(n, 15), dim(n, 15)];
    let s = [sub(n), sub(n), sub(n)];
    flat(n, d, s);
}

/// Different subscripts name different elements.
fn distinct(n: &mut impl Nd) {
    let d = [dim(n, 7), dim(n, 7), dim(n, 7)];
    let a = [n.below(d[0]) as i32, n.below(d[1]) as i32, n.below(d[2]) as i32];
    let b = [n.below(d[0]) as i32, n.below(d[1]) as i32, n.below(d[2]) as i32];
    n.assume(a[0] != b[0] || a[1] != b[1] || a[2] != b[2]);
    let x = vm::flat_index(d.to_vec(), &a);
    let y = vm::flat_index(d.to_vec(), &b);
    match (&x, &y) {
        (Ok(x), Ok(y)) => assert!(x != y, "two different elements share their place"),
        _ => panic!("subscripts in range rejected"),
    }
    std::mem::forget((x, y));
}

/// A processor with a 3x2 array in local 0 and subscripts in locals 2 and 3.
fn machine(subs: [i32; 2]) -> (vm::Cpu, [u64; 6]) {
    let mut cpu = vm::Cpu::new(4, 8);
    let values = [11, 12, 13, 14, 15, 16];
    let ptr = cpu.push_array(vec![3, 2], values.to_vec()).unwrap();
    cpu.set_reg(L0, ptr);
    cpu.set_reg(L0 + 1, KEEP);
    cpu.set_reg(L0 + 2, raw(subs[0]));
    cpu.set_reg(L0 + 3, raw(subs[1]));
    cpu.set_pc(7);
    (cpu, values)
}

fn load(n: &mut impl Nd) {
    let subs = [sub(n), sub(n)];
    let (mut cpu, values) = machine(subs);
    let instr = Op::LoadArray.make([L0 as u32 + 1, L0 as u32, L0 as u32 + 2]);
    let error = cpu.step(Op::LoadArray, instr, &[]);
    let inside = subs[0] >= 0 && subs[0] < 3 && subs[1] >= 0 && subs[1] < 2;
    if inside {
        assert!(error.is_none(), "subscripts in range rejected");
        assert!(cpu.reg(L0 + 1) == values[(subs[0] + 3 * subs[1]) as usize], "wrong element");
        assert!(cpu.pc() == 8);
    } else {
        assert!(error.is_some(), "subscripts out of range accepted");
        assert!(cpu.reg(L0 + 1) == KEEP && cpu.pc() == 7, "failed access had an effect");
    }
    std::mem::forget((cpu, error));
}

/// Stores one value and loads the element at other subscripts.
fn store(n: &mut impl Nd) {
    let subs = [sub(n), sub(n)];
    let value = n.u64();
    let other = [n.below(3) as i32, n.below(2) as i32];
    let (mut cpu, values) = machine(subs);
    cpu.set_reg(L0 + 1, value);
    let instr = Op::StoreArray.make([L0 as u32, L0 as u32 + 1, L0 as u32 + 2]);
    let e1 = cpu.step(Op::StoreArray, instr, &[]);
    let inside = subs[0] >= 0 && subs[0] < 3 && subs[1] >= 0 && subs[1] < 2;
    assert!(e1.is_none() == inside, "subscripts accepted or rejected wrongly");
    assert!(cpu.pc() == if inside { 8 } else { 7 });
    cpu.set_reg(L0 + 2, raw(other[0]));
    cpu.set_reg(L0 + 3, raw(other[1]));
    let instr = Op::LoadArray.make([L0 as u32 + 5, L0 as u32, L0 as u32 + 2]);
    let e2 = cpu.step(Op::LoadArray, instr, &[]);
    assert!(e2.is_none());
    let expected = if inside && other[0] == subs[0] && other[1] == subs[1] { value } else { values[(other[0] + 3 * other[1]) as usize] };
    assert!(cpu.reg(L0 + 5) == expected, "element does not hold the last value stored in it");
    std::mem::forget((cpu, e1, e2));
}

/// Dimensions that are not positive are rejected before allocating anything.
fn dim_rejects(n: &mut impl Nd) {
    let d = [n.i32(), n.i32()];
    n.assume(d[0] <= 0 || d[1] <= 0);
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_reg(L0, KEEP);
    cpu.set_reg(L0 + 1, raw(d[0]));
    cpu.set_reg(L0 + 2, raw(d[1]));
    cpu.set_pc(7);
    let before = cpu.heap_len();
    let instr = Op::AllocArray.make([L0 as u32, (2 << 8) | 2, L0 as u32 + 1]);
    let error = cpu.step(Op::AllocArray, instr, &[]);
    assert!(error.is_some(), "empty array accepted");
    assert!(cpu.reg(L0) == KEEP && cpu.pc() == 7 && cpu.heap_len() == before);
    std::mem::forget((cpu, error));
}

/// Arrays whose size does not even fit in memory are rejected, whatever their dimensions.
fn dim_overflow(n: &mut impl Nd) {
    let count = 2 + n.below(14);
    let mut cpu = vm::Cpu::new(4, 8);
    let mut total = 1f64;
    cpu.set_reg(L0, KEEP);
    for i in 0..count {
        let d = match n.below(3) {
            0 => i32::MAX,
            1 => 1 << n.below(31),
            _ => n.i32(),
        };
        n.assume(d > 0);
        total *= d as f64;
        cpu.set_reg(L0 + 1 + i, raw(d));
    }
    n.assume(total > 2f64.powi(61));
    cpu.set_pc(7);
    let etype = n.below(4) as u32;
    let instr = Op::AllocArray.make([L0 as u32, (etype << 8) | count as u32, L0 as u32 + 1]);
    let error = cpu.step(Op::AllocArray, instr, &[]);
    assert_eq!(Some((7, "Out of heap space".to_owned())), error);
    assert!(cpu.reg(L0) == KEEP && cpu.pc() == 7 && cpu.heap_len() == 1);
}

crate::suite! { "P06";
    proved flat_1 [kani::unwind(4), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    deep flat_2 [kani::unwind(4), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    bounded_proof flat_3 [kani::unwind(5), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    bounded_proof distinct [kani::unwind(5), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    deep load [kani::unwind(4), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 10000;
    deep store [kani::unwind(4), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    bounded_proof dim_rejects [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 10000;
    bounded dim_overflow * 20000;
}
