//! Helpers to execute single instructions of the real virtual machine.

use crate::nd::Nd;
use endbasic_core::verif::Op;
use endbasic_core::verif_vm::Cpu;

/// First local register of the outermost frame, both as a register number and as a position.
pub const L0: usize = 64;

/// Value of the destination of an instruction before its execution.
pub const KEEP: u64 = 0x5555_5555_5555_5555;

/// Outcome of a single instruction.
pub struct Done {
    pub cpu: Cpu,
    pub error: Option<(usize, String)>,
}

impl Done {
    /// Releases the machine without running destructors, which are irrelevant to any contract.
    pub fn forget(self) {
        std::mem::forget(self);
    }

    /// Returns the integer in local register `i`.
    pub fn int(&self, i: usize) -> i32 {
        self.cpu.reg(L0 + i) as i32
    }
}

/// Executes the three-operand instruction `op` on raw values, placing the result in local 2.
pub fn binary(op: Op, lhs: u64, rhs: u64) -> Done {
    let mut cpu = Cpu::new(4, 8);
    cpu.set_reg(L0, lhs);
    cpu.set_reg(L0 + 1, rhs);
    cpu.set_reg(L0 + 2, KEEP);
    cpu.set_pc(7);
    let instr = op.make([L0 as u32 + 2, L0 as u32, L0 as u32 + 1]);
    let error = cpu.step(op, instr, &[]);
    Done { cpu, error }
}

/// Executes the in-place instruction `op` on the raw value `value` held in local 0.
pub fn unary(op: Op, value: u64) -> Done {
    let mut cpu = Cpu::new(4, 8);
    cpu.set_reg(L0, value);
    cpu.set_reg(L0 + 1, KEEP);
    cpu.set_pc(7);
    let instr = op.make([L0 as u32, 0, 0]);
    let error = cpu.step(op, instr, &[]);
    Done { cpu, error }
}

/// Checks the result of an integer operation: `expected` is the exact mathematical result, or none
/// if the operation is undefined.  A result that does not fit must have raised an exception with
/// the message `message` and must not have touched the destination nor moved the program counter.
pub fn check_int(done: Done, dest: usize, before: u64, expected: Option<i64>, messages: &[&str]) {
    let fits = matches!(expected, Some(v) if v >= i32::MIN as i64 && v <= i32::MAX as i64);
    match &done.error {
        None => {
            assert!(fits, "operation succeeded although its exact result is not representable");
            assert!(done.int(dest) as i64 == expected.unwrap(), "result is not exact");
            assert!(done.cpu.pc() == 8, "execution must continue at the next instruction");
        }
        Some((pc, message)) => {
            assert!(!fits, "operation failed although its exact result is representable");
            assert!(*pc == 7 && done.cpu.pc() == 7, "error reported at the wrong instruction");
            assert!(done.cpu.reg(L0 + dest) == before, "failed operation changed the destination");
            let mut known = false;
            for m in messages {
                known = known || message.as_bytes() == m.as_bytes();
            }
            assert!(known, "unexpected error message");
        }
    }
    done.forget();
}

/// Returns the register representation of an integer.
pub fn raw(i: i32) -> u64 {
    i as u64
}

/// Picks two integers.
pub fn two(n: &mut impl Nd) -> (i32, i32) {
    let a = n.i32();
    let b = n.i32();
    (a, b)
}

/// Stands in for the formatting of messages, which the verifier cannot afford to follow.
///
/// The text of the affected messages is only checked natively.
#[cfg(kani)]
pub fn opaque_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Stands in for the growth of the register file and proves that it does not happen.
#[cfg(kani)]
pub fn no_growth<T: Clone, A: std::alloc::Allocator>(_: &mut Vec<T, A>, _: usize, _: T) {
    panic!("unexpected growth of the register file");
}
