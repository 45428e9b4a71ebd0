//! P05: encoding and decoding of instructions and pointers.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::{Field, Op};
use endbasic_core::verif_vm as vm;
use endbasic_core::ExprType;

fn etype(i: usize) -> ExprType {
    [ExprType::Boolean, ExprType::Double, ExprType::Integer, ExprType::Text][i]
}

/// Picks a value for a field: any register, any immediate, any type, any packed array type.
fn field(n: &mut impl Nd, kind: Field) -> u32 {
    match kind {
        Field::None => 0,
        Field::Reg => u32::from(n.u8()),
        Field::Imm16 => u32::from(n.u16()),
        Field::Type => u32::from(etype(n.below(4)) as u8),
        Field::Packed => (u32::from(etype(n.below(4)) as u8) << 8) | n.below(16) as u32,
        Field::Mode => n.below(3) as u32,
    }
}

/// For the opcodes in `from..to`: decoding what was encoded yields the same fields and the
/// instruction is recognized as that opcode and no other.
fn codec(n: &mut impl Nd, from: usize, to: usize) {
    for op in &Op::ALL[from..to.min(Op::ALL.len())] {
        let kinds = op.fields();
        let fields = [field(n, kinds[0]), field(n, kinds[1]), field(n, kinds[2])];
        let instr = op.make(fields);
        assert!(op.is(instr), "encoded instruction has another opcode");
        let got = op.parse(instr);
        assert!(got[0] == fields[0], "first field changed");
        assert!(got[1] == fields[1], "second field changed");
        assert!(got[2] == fields[2], "third field changed");
    }
}

fn codec_0(n: &mut impl Nd) {
    codec(n, 0, 8);
}
fn codec_1(n: &mut impl Nd) {
    codec(n, 8, 16);
}
fn codec_2(n: &mut impl Nd) {
    codec(n, 16, 24);
}
fn codec_3(n: &mut impl Nd) {
    codec(n, 24, 32);
}
fn codec_4(n: &mut impl Nd) {
    codec(n, 32, 40);
}
fn codec_5(n: &mut impl Nd) {
    codec(n, 40, 48);
}
fn codec_6(n: &mut impl Nd) {
    codec(n, 48, 56);
}
fn codec_7(n: &mut impl Nd) {
    codec(n, 56, 64);
}

/// No two opcodes share an encoding.
fn distinct(n: &mut impl Nd) {
    let (i, j) = (n.below(Op::ALL.len()), n.below(Op::ALL.len()));
    n.assume(i != j);
    let (a, b) = (Op::ALL[i], Op::ALL[j]);
    let kinds = a.fields();
    let instr = a.make([field(n, kinds[0]), field(n, kinds[1]), field(n, kinds[2])]);
    assert!(!b.is(instr), "instruction is ambiguous");
}

/// References to registers.
fn tagged(n: &mut impl Nd) {
    let reg = n.u8();
    let fp = n.u32() as usize;
    // Positions are encoded in 32 bits.
    n.assume(fp + 192 <= u32::MAX as usize);
    let t = etype(n.below(4));
    let (pos, got) = vm::tagged_ref_roundtrip(reg, fp, t);
    let expected = if reg < 64 { usize::from(reg) } else { fp + usize::from(reg) - 64 };
    assert!(pos == expected, "reference points to another register");
    assert!(got as u8 == t as u8, "reference has another type");
}

/// Pointers to the heap.
fn heap_ptr(n: &mut impl Nd) {
    let i = n.u32();
    n.assume(i < (1 << 24));
    let (raw, got) = vm::heap_ptr_roundtrip(i);
    assert!(got == i as usize, "pointer refers to another heap entry");
    assert!(vm::constant_ptr(raw).is_none(), "heap pointer decoded as a constant");
}

/// Pointers to constants.
fn const_ptr(n: &mut impl Nd) {
    let i = n.u32();
    n.assume(i < (1 << 24));
    assert!(vm::constant_ptr(u64::from(i)) == Some(i), "pointer refers to another constant");
}

/// Pointers to constants are loaded as 16-bit immediates.
fn load_immediate(n: &mut impl Nd) {
    let i = n.u16();
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_pc(7);
    let error = cpu.step(Op::LoadInteger, Op::LoadInteger.make([L0 as u32, u32::from(i), 0]), &[]);
    assert!(error.is_none(), "loading an immediate cannot fail");
    assert!(cpu.pc() == 8);
    assert!(cpu.reg(L0) == u64::from(i), "immediate changed");
    assert!(vm::constant_ptr(cpu.reg(L0)) == Some(u32::from(i)), "pointer refers to another constant");
    std::mem::forget((cpu, error));
}

/// Registers numbers of 64 and up are relative to the frame; those below are global.
fn move_(n: &mut impl Nd) {
    let (dest, src) = (n.u8(), n.u8());
    let fp = if cfg!(kani) { 71 } else { 64 + n.below(3) * 7 };
    let value = n.u64();
    let pos = |r: u8| if r < 64 { usize::from(r) } else { fp + usize::from(r) - 64 };
    // The proof leaves out the growth of the register file, which deep recursion needs.
    n.assume(!cfg!(kani) || (pos(dest) < 255 && pos(src) < 255));
    let mut cpu = vm::Cpu::new(4, 8);
    cpu.set_fp(fp);
    cpu.set_reg(pos(src), value);
    let other = n.below(280);
    n.assume(other != pos(dest));
    let before = cpu.reg(other);
    let instr = Op::Move.make([u32::from(dest), u32::from(src), 0]);
    let error = cpu.step(Op::Move, instr, &[]);
    assert!(error.is_none());
    assert!(cpu.reg(pos(dest)) == value, "value did not reach the destination");
    assert!(cpu.reg(other) == before, "another register changed");
    std::mem::forget((cpu, error));
}

/// The execution loop runs the same function as the one under contract for each opcode.
fn dispatch(n: &mut impl Nd) {
    use vm::{Cpu, Machine, Stop};
    let op = Op::ALL[n.below(Op::ALL.len())];
    let k = op.fields();
    let frame = 64 + n.below(2) * 5;
    let mut vals: Vec<u64> = vec![];
    let texts = ["", "a", "b", "ab"];
    let is_text = format!("{op:?}").contains("Text") || op == Op::Concat;
    let is_array = matches!(op, Op::LoadArray | Op::StoreArray);
    let is_double = format!("{op:?}").contains("Double") && op != Op::IntegerToDouble;
    // Registers 0..3 (global) and 64..68 (local).
    let regs = [0u32, 1, 2, 64, 65, 66, 67];
    for _ in 0..regs.len() {
        vals.push(if is_double { n.f64().to_bits() } else { raw([n.i32(), n.below(3) as i32, n.below(7) as i32][n.below(3)]) });
    }
    let pick = |n: &mut _, kind: Field, slot: usize| match kind {
        Field::Reg if matches!(op, Op::Call | Op::Upcall | Op::UpcallAsync)
            || (op == Op::AllocArray && slot == 2)
            || (is_array && slot == 2) => [64u32, 65][Nd::below(n, 2)],
        Field::Reg => regs[Nd::below(n, regs.len())],
        Field::Imm16 if op == Op::LoadConstant => Nd::below(n, 2) as u32,
        Field::Imm16 => Nd::below(n, 3) as u32,
        Field::Type if op == Op::Alloc => ExprType::Text as u32,
        Field::Packed => (field(n, kind) & 0xff00) | (1 + Nd::below(n, 2) as u32),
        kind => field(n, kind),
    };
    let f = [pick(n, k[0], 0), pick(n, k[1], 1), pick(n, k[2], 2)];
    let instr = op.make(f);
    let constants = || vec![endbasic_core::ConstantDatum::Integer(-70000), endbasic_core::ConstantDatum::Double(2.5)];
    // The instruction under test, followed by enough places to land.
    let target = 1 + n.below(4);
    let eof = Op::Eof.make([0; 3]);
    let mut code = vec![eof; 8];
    code[target] = instr;
    let mut m = Machine::new(code, &[true; 8], constants(), 3, 12);
    let mut c = Cpu::new(3, 12);
    let pos = |r: u32| if r < 64 { r as usize } else { frame + r as usize - 64 };
    macro_rules! setup {
        ($x:expr) => {
            $x.set_fp(frame);
            for (i, r) in regs.iter().enumerate() {
                $x.set_reg(pos(*r), vals[i]);
            }
            if is_text {
                for (i, r) in regs.iter().enumerate() {
                    let p = $x.push_text(texts[(vals[i] % 4) as usize]).unwrap();
                    $x.set_reg(pos(*r), p);
                }
            }
            if is_array {
                let p = $x.push_array(vec![3, 2], vec![11, 12, 13, 14, 15, 16]).unwrap();
                let reg = if op == Op::LoadArray { f[1] } else { f[0] };
                $x.set_reg(pos(reg), p);
            }
            $x.set_pc(target);
        };
    }
    // Limits the sizes of arrays and the extent of powers.
    if op == Op::AllocArray {
        for v in vals.iter_mut() {
            *v = raw((*v as i32) % 9);
        }
    }
    setup!(m);
    setup!(c);
    if n.below(3) == 0 && op == Op::Return {
        let g = Op::Gosub.make([target as u32, 0, 0]);
        // Only the single-step machine can be given a frame this way, so check it alone.
        c.set_pc(5);
        assert!(c.step(Op::Gosub, g, &[]).is_none());
        assert!(c.pc() == target && c.depth() == 1);
        assert!(c.step(op, instr, &[]).is_none());
        assert!(c.pc() == 6 && c.depth() == 0);
        return;
    }
    let cerror = c.step(op, instr, &constants());
    let cstop = c.take_stop();
    let endless = (op == Op::Jump || op == Op::JumpIfFalse || op == Op::Gosub || op == Op::Call) && c.pc() == target;
    if endless {
        return;
    }
    // The loop continues to the end of the program unless the instruction stopped it.
    let mstop = m.run();
    match (&cerror, &cstop, &mstop) {
        (Some((p1, e1)), None, Stop::Exception(p2, e2)) => {
            assert_eq!((p1, e1), (p2, e2), "{op:?}: different exceptions");
        }
        (None, Some(Stop::End(a)), Stop::End(b)) => assert_eq!(a, b),
        (None, Some(Stop::Eof), Stop::Eof) => {}
        (None, Some(Stop::Upcall(a, b, c)), Stop::Upcall(x, y, z))
        | (None, Some(Stop::UpcallAsync(a, b, c)), Stop::UpcallAsync(x, y, z)) => {
            assert_eq!((a, b, c), (x, y, z), "{op:?}: different upcalls")
        }
        (None, None, Stop::Eof) => {}
        (None, None, Stop::Yield) => assert!(c.yield_pending(), "{op:?}: unexpected yield"),
        other => panic!("{op:?}: different outcomes: {other:?}"),
    }
    assert_eq!(c.pc(), m.pc(), "{op:?}: continues elsewhere");
    assert_eq!(c.fp(), m.fp(), "{op:?}: different frames");
    assert_eq!(c.depth(), m.depth(), "{op:?}: different stacks");
    assert_eq!(c.heap_len(), m.heap_len(), "{op:?}: different heaps");
    assert_eq!(c.handler(), m.handler(), "{op:?}: different handlers");
    for i in 0..300 {
        assert_eq!(c.reg(i), m.reg(i), "{op:?}: different registers");
    }
}

crate::suite! { "P05";
    proved codec_0 [kani::unwind(20)] * 500;
    proved codec_1 [kani::unwind(20)] * 500;
    proved codec_2 [kani::unwind(20)] * 500;
    proved codec_3 [kani::unwind(20)] * 500;
    proved codec_4 [kani::unwind(20)] * 500;
    proved codec_5 [kani::unwind(20)] * 500;
    proved codec_6 [kani::unwind(20)] * 500;
    proved codec_7 [kani::unwind(20)] * 500;
    proved distinct [kani::unwind(20)] * 20000;
    proved tagged [kani::unwind(20)] * 5000;
    proved heap_ptr [kani::unwind(20)] * 5000;
    proved const_ptr [kani::unwind(20)] * 5000;
    proved load_immediate [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth)] * 5000;
    deep move_ [kani::unwind(20), kani::stub(std::vec::Vec::resize, crate::isa::no_growth), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    bounded dispatch * 100000;
}
