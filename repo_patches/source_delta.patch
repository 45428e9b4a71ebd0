From 3f1e6674f5e74051dd3e942983c9fa277672f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 01/31] core: Add verification hooks behind the verif feature

---
 core/Cargo.toml        |   4 +
 core/src/lib.rs        |   4 +
 core/src/verif.rs      | 829 +++++++++++++++++++++++++++++++++++++++++
 core/src/vm/context.rs |   4 +
 core/src/vm/mod.rs     |   2 +
 core/src/vm/verif.rs   | 323 ++++++++++++++++
 6 files changed, 1166 insertions(+)
 create mode 100644 core/src/verif.rs
 create mode 100644 core/src/vm/verif.rs

diff --git a/core/Cargo.toml b/core/Cargo.toml
index 40da8d0..d5ebf8e 100644
--- a/core/Cargo.toml
+++ b/core/Cargo.toml
@@ -14,6 +14,10 @@ edition = "2024"
 [lints]
 workspace = true
 
+[features]
+# Exposes private items to external verification tools.
+verif = []
+
 [dependencies]
 async-trait = "0.1"
 thiserror = "1.0"
diff --git a/core/src/lib.rs b/core/src/lib.rs
index e97ffba..84d306c 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -26,6 +26,8 @@ mod mem;
 mod num;
 mod parser;
 mod reader;
+#[cfg(feature = "verif")]
+pub mod verif;
 mod vm;
 
 pub use ast::{ArgSep, ExprType};
@@ -38,6 +40,8 @@ pub use image::Image;
 pub use mem::ConstantDatum;
 pub use num::U24;
 pub use reader::LineCol;
+#[cfg(feature = "verif")]
+pub use vm::verif as verif_vm;
 pub use vm::{GetGlobalError, GetGlobalResult, Limits, StopReason, Vm};
 
 #[cfg(test)]
diff --git a/core/src/verif.rs b/core/src/verif.rs
new file mode 100644
index 0000000..f6f2e59
--- /dev/null
+++ b/core/src/verif.rs
@@ -0,0 +1,829 @@
+// EndBASIC
+// Copyright 2026 Julio Merino
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Affero General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU Affero General Public License for more details.
+//
+// You should have received a copy of the GNU Affero General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+//! Hooks for external verification: a typed window onto the instruction encoding.
+//!
+//! Only built with the `verif` feature.  Fields are exchanged as raw `u32`s: registers and 16-bit
+//! immediates by value, expression types and error handler modes by discriminant, and packed array
+//! types as `subtype << 8 | ndims`.
+
+#![allow(missing_docs)]
+
+use crate::ExprType;
+use crate::bytecode::{self, ErrorHandlerMode, Opcode, PackedArrayType, Register};
+
+/// Kinds of the fields that an instruction may carry.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Field {
+    /// No field in this position.
+    None,
+    /// A register number.
+    Reg,
+    /// A 16-bit immediate.
+    Imm16,
+    /// An expression type.
+    Type,
+    /// An array type.
+    Packed,
+    /// An error handler mode.
+    Mode,
+}
+
+fn etype(v: u32) -> ExprType {
+    ExprType::try_from(v as u8).expect("Caller must provide a valid type")
+}
+
+fn packed(v: u32) -> PackedArrayType {
+    PackedArrayType::new(etype(v >> 8), (v & 0xff) as usize)
+        .expect("Caller must provide a valid number of dimensions")
+}
+
+fn unpacked(v: PackedArrayType) -> u32 {
+    ((v.subtype() as u32) << 8) | u32::from(v.ndims())
+}
+
+fn ehmode(v: u32) -> ErrorHandlerMode {
+    match v {
+        0 => ErrorHandlerMode::None,
+        1 => ErrorHandlerMode::ResumeNext,
+        2 => ErrorHandlerMode::Jump,
+        _ => panic!("Caller must provide a valid mode"),
+    }
+}
+
+/// Mirror of the internal opcodes.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Op {
+    AddDouble,
+    AddInteger,
+    Alloc,
+    AllocArray,
+    BitwiseAnd,
+    BitwiseNot,
+    BitwiseOr,
+    BitwiseXor,
+    Call,
+    Concat,
+    DivideDouble,
+    DivideInteger,
+    DoubleToInteger,
+    EqualBoolean,
+    EqualDouble,
+    EqualInteger,
+    EqualText,
+    End,
+    Eof,
+    Gosub,
+    GreaterDouble,
+    GreaterEqualDouble,
+    GreaterEqualInteger,
+    GreaterEqualText,
+    GreaterInteger,
+    GreaterText,
+    IntegerToDouble,
+    Jump,
+    JumpIfFalse,
+    LessDouble,
+    LessEqualDouble,
+    LessEqualInteger,
+    LessEqualText,
+    LessInteger,
+    LessText,
+    LoadArray,
+    LoadConstant,
+    LoadInteger,
+    LoadRegisterPointer,
+    ModuloDouble,
+    ModuloInteger,
+    Move,
+    MultiplyDouble,
+    MultiplyInteger,
+    NegateDouble,
+    NegateInteger,
+    NotEqualBoolean,
+    NotEqualDouble,
+    NotEqualInteger,
+    NotEqualText,
+    Nop,
+    PowerDouble,
+    PowerInteger,
+    Return,
+    SetErrorHandler,
+    ShiftLeft,
+    ShiftRight,
+    StoreArray,
+    SubtractDouble,
+    SubtractInteger,
+    Upcall,
+    UpcallAsync,
+}
+
+impl Op {
+    /// All known opcodes.
+    pub const ALL: &'static [Op] = &[
+        Op::AddDouble,
+        Op::AddInteger,
+        Op::Alloc,
+        Op::AllocArray,
+        Op::BitwiseAnd,
+        Op::BitwiseNot,
+        Op::BitwiseOr,
+        Op::BitwiseXor,
+        Op::Call,
+        Op::Concat,
+        Op::DivideDouble,
+        Op::DivideInteger,
+        Op::DoubleToInteger,
+        Op::EqualBoolean,
+        Op::EqualDouble,
+        Op::EqualInteger,
+        Op::EqualText,
+        Op::End,
+        Op::Eof,
+        Op::Gosub,
+        Op::GreaterDouble,
+        Op::GreaterEqualDouble,
+        Op::GreaterEqualInteger,
+        Op::GreaterEqualText,
+        Op::GreaterInteger,
+        Op::GreaterText,
+        Op::IntegerToDouble,
+        Op::Jump,
+        Op::JumpIfFalse,
+        Op::LessDouble,
+        Op::LessEqualDouble,
+        Op::LessEqualInteger,
+        Op::LessEqualText,
+        Op::LessInteger,
+        Op::LessText,
+        Op::LoadArray,
+        Op::LoadConstant,
+        Op::LoadInteger,
+        Op::LoadRegisterPointer,
+        Op::ModuloDouble,
+        Op::ModuloInteger,
+        Op::Move,
+        Op::MultiplyDouble,
+        Op::MultiplyInteger,
+        Op::NegateDouble,
+        Op::NegateInteger,
+        Op::NotEqualBoolean,
+        Op::NotEqualDouble,
+        Op::NotEqualInteger,
+        Op::NotEqualText,
+        Op::Nop,
+        Op::PowerDouble,
+        Op::PowerInteger,
+        Op::Return,
+        Op::SetErrorHandler,
+        Op::ShiftLeft,
+        Op::ShiftRight,
+        Op::StoreArray,
+        Op::SubtractDouble,
+        Op::SubtractInteger,
+        Op::Upcall,
+        Op::UpcallAsync,
+    ];
+
+    /// Returns the kinds of the fields carried by the instruction.
+    pub fn fields(self) -> [Field; 3] {
+        use Field::*;
+        match self {
+            Op::AddDouble => [Reg, Reg, Reg],
+            Op::AddInteger => [Reg, Reg, Reg],
+            Op::Alloc => [Reg, Type, None],
+            Op::AllocArray => [Reg, Packed, Reg],
+            Op::BitwiseAnd => [Reg, Reg, Reg],
+            Op::BitwiseNot => [Reg, None, None],
+            Op::BitwiseOr => [Reg, Reg, Reg],
+            Op::BitwiseXor => [Reg, Reg, Reg],
+            Op::Call => [Reg, Imm16, None],
+            Op::Concat => [Reg, Reg, Reg],
+            Op::DivideDouble => [Reg, Reg, Reg],
+            Op::DivideInteger => [Reg, Reg, Reg],
+            Op::DoubleToInteger => [Reg, None, None],
+            Op::EqualBoolean => [Reg, Reg, Reg],
+            Op::EqualDouble => [Reg, Reg, Reg],
+            Op::EqualInteger => [Reg, Reg, Reg],
+            Op::EqualText => [Reg, Reg, Reg],
+            Op::End => [Reg, None, None],
+            Op::Eof => [None, None, None],
+            Op::Gosub => [Imm16, None, None],
+            Op::GreaterDouble => [Reg, Reg, Reg],
+            Op::GreaterEqualDouble => [Reg, Reg, Reg],
+            Op::GreaterEqualInteger => [Reg, Reg, Reg],
+            Op::GreaterEqualText => [Reg, Reg, Reg],
+            Op::GreaterInteger => [Reg, Reg, Reg],
+            Op::GreaterText => [Reg, Reg, Reg],
+            Op::IntegerToDouble => [Reg, None, None],
+            Op::Jump => [Imm16, None, None],
+            Op::JumpIfFalse => [Reg, Imm16, None],
+            Op::LessDouble => [Reg, Reg, Reg],
+            Op::LessEqualDouble => [Reg, Reg, Reg],
+            Op::LessEqualInteger => [Reg, Reg, Reg],
+            Op::LessEqualText => [Reg, Reg, Reg],
+            Op::LessInteger => [Reg, Reg, Reg],
+            Op::LessText => [Reg, Reg, Reg],
+            Op::LoadArray => [Reg, Reg, Reg],
+            Op::LoadConstant => [Reg, Imm16, None],
+            Op::LoadInteger => [Reg, Imm16, None],
+            Op::LoadRegisterPointer => [Reg, Type, Reg],
+            Op::ModuloDouble => [Reg, Reg, Reg],
+            Op::ModuloInteger => [Reg, Reg, Reg],
+            Op::Move => [Reg, Reg, None],
+            Op::MultiplyDouble => [Reg, Reg, Reg],
+            Op::MultiplyInteger => [Reg, Reg, Reg],
+            Op::NegateDouble => [Reg, None, None],
+            Op::NegateInteger => [Reg, None, None],
+            Op::NotEqualBoolean => [Reg, Reg, Reg],
+            Op::NotEqualDouble => [Reg, Reg, Reg],
+            Op::NotEqualInteger => [Reg, Reg, Reg],
+            Op::NotEqualText => [Reg, Reg, Reg],
+            Op::Nop => [None, None, None],
+            Op::PowerDouble => [Reg, Reg, Reg],
+            Op::PowerInteger => [Reg, Reg, Reg],
+            Op::Return => [None, None, None],
+            Op::SetErrorHandler => [Mode, Imm16, None],
+            Op::ShiftLeft => [Reg, Reg, Reg],
+            Op::ShiftRight => [Reg, Reg, Reg],
+            Op::StoreArray => [Reg, Reg, Reg],
+            Op::SubtractDouble => [Reg, Reg, Reg],
+            Op::SubtractInteger => [Reg, Reg, Reg],
+            Op::Upcall => [Imm16, Reg, None],
+            Op::UpcallAsync => [Imm16, Reg, None],
+        }
+    }
+
+    /// Encodes an instruction.
+    pub fn make(self, f: [u32; 3]) -> u32 {
+        match self {
+            Op::AddDouble => bytecode::make_add_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::AddInteger => bytecode::make_add_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Alloc => bytecode::make_alloc(Register(f[0] as u8), etype(f[1])),
+            Op::AllocArray => {
+                bytecode::make_alloc_array(Register(f[0] as u8), packed(f[1]), Register(f[2] as u8))
+            }
+            Op::BitwiseAnd => bytecode::make_bitwise_and(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::BitwiseNot => bytecode::make_bitwise_not(Register(f[0] as u8)),
+            Op::BitwiseOr => bytecode::make_bitwise_or(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::BitwiseXor => bytecode::make_bitwise_xor(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Call => bytecode::make_call(Register(f[0] as u8), f[1] as u16),
+            Op::Concat => bytecode::make_concat(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::DivideDouble => bytecode::make_divide_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::DivideInteger => bytecode::make_divide_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::DoubleToInteger => bytecode::make_double_to_integer(Register(f[0] as u8)),
+            Op::EqualBoolean => bytecode::make_equal_boolean(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::EqualDouble => bytecode::make_equal_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::EqualInteger => bytecode::make_equal_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::EqualText => bytecode::make_equal_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::End => bytecode::make_end(Register(f[0] as u8)),
+            Op::Eof => bytecode::make_eof(),
+            Op::Gosub => bytecode::make_gosub(f[0] as u16),
+            Op::GreaterDouble => bytecode::make_greater_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::GreaterEqualDouble => bytecode::make_greater_equal_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::GreaterEqualInteger => bytecode::make_greater_equal_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::GreaterEqualText => bytecode::make_greater_equal_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::GreaterInteger => bytecode::make_greater_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::GreaterText => bytecode::make_greater_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::IntegerToDouble => bytecode::make_integer_to_double(Register(f[0] as u8)),
+            Op::Jump => bytecode::make_jump(f[0] as u16),
+            Op::JumpIfFalse => bytecode::make_jump_if_false(Register(f[0] as u8), f[1] as u16),
+            Op::LessDouble => bytecode::make_less_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LessEqualDouble => bytecode::make_less_equal_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LessEqualInteger => bytecode::make_less_equal_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LessEqualText => bytecode::make_less_equal_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LessInteger => bytecode::make_less_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LessText => bytecode::make_less_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LoadArray => bytecode::make_load_array(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::LoadConstant => bytecode::make_load_constant(Register(f[0] as u8), f[1] as u16),
+            Op::LoadInteger => bytecode::make_load_integer(Register(f[0] as u8), f[1] as u16),
+            Op::LoadRegisterPointer => bytecode::make_load_register_ptr(
+                Register(f[0] as u8),
+                etype(f[1]),
+                Register(f[2] as u8),
+            ),
+            Op::ModuloDouble => bytecode::make_modulo_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::ModuloInteger => bytecode::make_modulo_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Move => bytecode::make_move(Register(f[0] as u8), Register(f[1] as u8)),
+            Op::MultiplyDouble => bytecode::make_multiply_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::MultiplyInteger => bytecode::make_multiply_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::NegateDouble => bytecode::make_negate_double(Register(f[0] as u8)),
+            Op::NegateInteger => bytecode::make_negate_integer(Register(f[0] as u8)),
+            Op::NotEqualBoolean => bytecode::make_not_equal_boolean(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::NotEqualDouble => bytecode::make_not_equal_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::NotEqualInteger => bytecode::make_not_equal_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::NotEqualText => bytecode::make_not_equal_text(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Nop => bytecode::make_nop(),
+            Op::PowerDouble => bytecode::make_power_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::PowerInteger => bytecode::make_power_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Return => bytecode::make_return(),
+            Op::SetErrorHandler => bytecode::make_set_error_handler(ehmode(f[0]), f[1] as u16),
+            Op::ShiftLeft => bytecode::make_shift_left(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::ShiftRight => bytecode::make_shift_right(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::StoreArray => bytecode::make_store_array(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::SubtractDouble => bytecode::make_subtract_double(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::SubtractInteger => bytecode::make_subtract_integer(
+                Register(f[0] as u8),
+                Register(f[1] as u8),
+                Register(f[2] as u8),
+            ),
+            Op::Upcall => bytecode::make_upcall(f[0] as u16, Register(f[1] as u8)),
+            Op::UpcallAsync => bytecode::make_upcall_async(f[0] as u16, Register(f[1] as u8)),
+        }
+    }
+
+    /// Decodes an instruction that was encoded for this opcode.
+    pub fn parse(self, instr: u32) -> [u32; 3] {
+        match self {
+            Op::AddDouble => {
+                let (a, b, c) = bytecode::parse_add_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::AddInteger => {
+                let (a, b, c) = bytecode::parse_add_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Alloc => {
+                let (a, b) = bytecode::parse_alloc(instr);
+                [u32::from(a.0), b as u32, 0]
+            }
+            Op::AllocArray => {
+                let (a, b, c) = bytecode::parse_alloc_array(instr);
+                [u32::from(a.0), unpacked(b), u32::from(c.0)]
+            }
+            Op::BitwiseAnd => {
+                let (a, b, c) = bytecode::parse_bitwise_and(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::BitwiseNot => {
+                let a = bytecode::parse_bitwise_not(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::BitwiseOr => {
+                let (a, b, c) = bytecode::parse_bitwise_or(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::BitwiseXor => {
+                let (a, b, c) = bytecode::parse_bitwise_xor(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Call => {
+                let (a, b) = bytecode::parse_call(instr);
+                [u32::from(a.0), u32::from(b), 0]
+            }
+            Op::Concat => {
+                let (a, b, c) = bytecode::parse_concat(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::DivideDouble => {
+                let (a, b, c) = bytecode::parse_divide_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::DivideInteger => {
+                let (a, b, c) = bytecode::parse_divide_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::DoubleToInteger => {
+                let a = bytecode::parse_double_to_integer(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::EqualBoolean => {
+                let (a, b, c) = bytecode::parse_equal_boolean(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::EqualDouble => {
+                let (a, b, c) = bytecode::parse_equal_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::EqualInteger => {
+                let (a, b, c) = bytecode::parse_equal_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::EqualText => {
+                let (a, b, c) = bytecode::parse_equal_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::End => {
+                let a = bytecode::parse_end(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::Eof => {
+                bytecode::parse_eof(instr);
+                [0, 0, 0]
+            }
+            Op::Gosub => {
+                let a = bytecode::parse_gosub(instr);
+                [u32::from(a), 0, 0]
+            }
+            Op::GreaterDouble => {
+                let (a, b, c) = bytecode::parse_greater_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::GreaterEqualDouble => {
+                let (a, b, c) = bytecode::parse_greater_equal_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::GreaterEqualInteger => {
+                let (a, b, c) = bytecode::parse_greater_equal_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::GreaterEqualText => {
+                let (a, b, c) = bytecode::parse_greater_equal_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::GreaterInteger => {
+                let (a, b, c) = bytecode::parse_greater_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::GreaterText => {
+                let (a, b, c) = bytecode::parse_greater_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::IntegerToDouble => {
+                let a = bytecode::parse_integer_to_double(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::Jump => {
+                let a = bytecode::parse_jump(instr);
+                [u32::from(a), 0, 0]
+            }
+            Op::JumpIfFalse => {
+                let (a, b) = bytecode::parse_jump_if_false(instr);
+                [u32::from(a.0), u32::from(b), 0]
+            }
+            Op::LessDouble => {
+                let (a, b, c) = bytecode::parse_less_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LessEqualDouble => {
+                let (a, b, c) = bytecode::parse_less_equal_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LessEqualInteger => {
+                let (a, b, c) = bytecode::parse_less_equal_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LessEqualText => {
+                let (a, b, c) = bytecode::parse_less_equal_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LessInteger => {
+                let (a, b, c) = bytecode::parse_less_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LessText => {
+                let (a, b, c) = bytecode::parse_less_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LoadArray => {
+                let (a, b, c) = bytecode::parse_load_array(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::LoadConstant => {
+                let (a, b) = bytecode::parse_load_constant(instr);
+                [u32::from(a.0), u32::from(b), 0]
+            }
+            Op::LoadInteger => {
+                let (a, b) = bytecode::parse_load_integer(instr);
+                [u32::from(a.0), u32::from(b), 0]
+            }
+            Op::LoadRegisterPointer => {
+                let (a, b, c) = bytecode::parse_load_register_ptr(instr);
+                [u32::from(a.0), b as u32, u32::from(c.0)]
+            }
+            Op::ModuloDouble => {
+                let (a, b, c) = bytecode::parse_modulo_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::ModuloInteger => {
+                let (a, b, c) = bytecode::parse_modulo_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Move => {
+                let (a, b) = bytecode::parse_move(instr);
+                [u32::from(a.0), u32::from(b.0), 0]
+            }
+            Op::MultiplyDouble => {
+                let (a, b, c) = bytecode::parse_multiply_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::MultiplyInteger => {
+                let (a, b, c) = bytecode::parse_multiply_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::NegateDouble => {
+                let a = bytecode::parse_negate_double(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::NegateInteger => {
+                let a = bytecode::parse_negate_integer(instr);
+                [u32::from(a.0), 0, 0]
+            }
+            Op::NotEqualBoolean => {
+                let (a, b, c) = bytecode::parse_not_equal_boolean(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::NotEqualDouble => {
+                let (a, b, c) = bytecode::parse_not_equal_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::NotEqualInteger => {
+                let (a, b, c) = bytecode::parse_not_equal_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::NotEqualText => {
+                let (a, b, c) = bytecode::parse_not_equal_text(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Nop => {
+                bytecode::parse_nop(instr);
+                [0, 0, 0]
+            }
+            Op::PowerDouble => {
+                let (a, b, c) = bytecode::parse_power_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::PowerInteger => {
+                let (a, b, c) = bytecode::parse_power_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Return => {
+                bytecode::parse_return(instr);
+                [0, 0, 0]
+            }
+            Op::SetErrorHandler => {
+                let (a, b) = bytecode::parse_set_error_handler(instr);
+                [a as u32, u32::from(b), 0]
+            }
+            Op::ShiftLeft => {
+                let (a, b, c) = bytecode::parse_shift_left(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::ShiftRight => {
+                let (a, b, c) = bytecode::parse_shift_right(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::StoreArray => {
+                let (a, b, c) = bytecode::parse_store_array(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::SubtractDouble => {
+                let (a, b, c) = bytecode::parse_subtract_double(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::SubtractInteger => {
+                let (a, b, c) = bytecode::parse_subtract_integer(instr);
+                [u32::from(a.0), u32::from(b.0), u32::from(c.0)]
+            }
+            Op::Upcall => {
+                let (a, b) = bytecode::parse_upcall(instr);
+                [u32::from(a), u32::from(b.0), 0]
+            }
+            Op::UpcallAsync => {
+                let (a, b) = bytecode::parse_upcall_async(instr);
+                [u32::from(a), u32::from(b.0), 0]
+            }
+        }
+    }
+
+    /// Returns whether `instr` decodes as this opcode.
+    pub fn is(self, instr: u32) -> bool {
+        bytecode::opcode_of(instr) as u32 == self.opcode() as u32
+    }
+
+    fn opcode(self) -> Opcode {
+        match self {
+            Op::AddDouble => Opcode::AddDouble,
+            Op::AddInteger => Opcode::AddInteger,
+            Op::Alloc => Opcode::Alloc,
+            Op::AllocArray => Opcode::AllocArray,
+            Op::BitwiseAnd => Opcode::BitwiseAnd,
+            Op::BitwiseNot => Opcode::BitwiseNot,
+            Op::BitwiseOr => Opcode::BitwiseOr,
+            Op::BitwiseXor => Opcode::BitwiseXor,
+            Op::Call => Opcode::Call,
+            Op::Concat => Opcode::Concat,
+            Op::DivideDouble => Opcode::DivideDouble,
+            Op::DivideInteger => Opcode::DivideInteger,
+            Op::DoubleToInteger => Opcode::DoubleToInteger,
+            Op::EqualBoolean => Opcode::EqualBoolean,
+            Op::EqualDouble => Opcode::EqualDouble,
+            Op::EqualInteger => Opcode::EqualInteger,
+            Op::EqualText => Opcode::EqualText,
+            Op::End => Opcode::End,
+            Op::Eof => Opcode::Eof,
+            Op::Gosub => Opcode::Gosub,
+            Op::GreaterDouble => Opcode::GreaterDouble,
+            Op::GreaterEqualDouble => Opcode::GreaterEqualDouble,
+            Op::GreaterEqualInteger => Opcode::GreaterEqualInteger,
+            Op::GreaterEqualText => Opcode::GreaterEqualText,
+            Op::GreaterInteger => Opcode::GreaterInteger,
+            Op::GreaterText => Opcode::GreaterText,
+            Op::IntegerToDouble => Opcode::IntegerToDouble,
+            Op::Jump => Opcode::Jump,
+            Op::JumpIfFalse => Opcode::JumpIfFalse,
+            Op::LessDouble => Opcode::LessDouble,
+            Op::LessEqualDouble => Opcode::LessEqualDouble,
+            Op::LessEqualInteger => Opcode::LessEqualInteger,
+            Op::LessEqualText => Opcode::LessEqualText,
+            Op::LessInteger => Opcode::LessInteger,
+            Op::LessText => Opcode::LessText,
+            Op::LoadArray => Opcode::LoadArray,
+            Op::LoadConstant => Opcode::LoadConstant,
+            Op::LoadInteger => Opcode::LoadInteger,
+            Op::LoadRegisterPointer => Opcode::LoadRegisterPointer,
+            Op::ModuloDouble => Opcode::ModuloDouble,
+            Op::ModuloInteger => Opcode::ModuloInteger,
+            Op::Move => Opcode::Move,
+            Op::MultiplyDouble => Opcode::MultiplyDouble,
+            Op::MultiplyInteger => Opcode::MultiplyInteger,
+            Op::NegateDouble => Opcode::NegateDouble,
+            Op::NegateInteger => Opcode::NegateInteger,
+            Op::NotEqualBoolean => Opcode::NotEqualBoolean,
+            Op::NotEqualDouble => Opcode::NotEqualDouble,
+            Op::NotEqualInteger => Opcode::NotEqualInteger,
+            Op::NotEqualText => Opcode::NotEqualText,
+            Op::Nop => Opcode::Nop,
+            Op::PowerDouble => Opcode::PowerDouble,
+            Op::PowerInteger => Opcode::PowerInteger,
+            Op::Return => Opcode::Return,
+            Op::SetErrorHandler => Opcode::SetErrorHandler,
+            Op::ShiftLeft => Opcode::ShiftLeft,
+            Op::ShiftRight => Opcode::ShiftRight,
+            Op::StoreArray => Opcode::StoreArray,
+            Op::SubtractDouble => Opcode::SubtractDouble,
+            Op::SubtractInteger => Opcode::SubtractInteger,
+            Op::Upcall => Opcode::Upcall,
+            Op::UpcallAsync => Opcode::UpcallAsync,
+        }
+    }
+}
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..d43a597 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -26,6 +26,10 @@ use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
+#[cfg(feature = "verif")]
+#[path = "verif.rs"]
+pub mod verif;
+
 /// Default max call stack.
 const DEFAULT_MAX_CALL_STACK: usize = 4096;
 
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..78cc004 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -30,6 +30,8 @@ use std::collections::HashMap;
 use std::rc::Rc;
 
 mod context;
+#[cfg(feature = "verif")]
+pub use context::verif;
 use context::{Context, ErrorHandler, InternalStopReason};
 
 /// Default maximum number of call stack frames.
diff --git a/core/src/vm/verif.rs b/core/src/vm/verif.rs
new file mode 100644
index 0000000..a536f98
--- /dev/null
+++ b/core/src/vm/verif.rs
@@ -0,0 +1,323 @@
+// EndBASIC
+// Copyright 2026 Julio Merino
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Affero General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU Affero General Public License for more details.
+//
+// You should have received a copy of the GNU Affero General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+//! Hooks for external verification: a machine whose state can be set up and inspected directly.
+//!
+//! Only built with the `verif` feature.
+
+#![allow(missing_docs)]
+
+use super::{Context, ErrorHandler, InternalStopReason};
+use crate::ConstantDatum;
+use crate::image::{DebugInfo, Image, InstrMetadata};
+use crate::mem::{ArrayData, DatumPtr, Heap, HeapDatum};
+use crate::num::U24;
+use crate::reader::LineCol;
+use crate::verif::Op;
+use std::collections::HashMap;
+
+/// Reason for which `Machine::run` returned.
+#[derive(Debug)]
+pub enum Stop {
+    End(i32),
+    Eof,
+    Exception(usize, String),
+    Upcall(u16, u8, usize),
+    UpcallAsync(u16, u8, usize),
+    Yield,
+}
+
+impl From<InternalStopReason> for Stop {
+    fn from(reason: InternalStopReason) -> Self {
+        match reason {
+            InternalStopReason::End(code) => Self::End(code.to_i32()),
+            InternalStopReason::Eof => Self::Eof,
+            InternalStopReason::Exception(pc, msg) => Self::Exception(pc, msg),
+            InternalStopReason::Upcall(i, r, pc) => Self::Upcall(i, r.0, pc),
+            InternalStopReason::UpcallAsync(i, r, pc) => Self::UpcallAsync(i, r.0, pc),
+            InternalStopReason::Yield => Self::Yield,
+        }
+    }
+}
+
+/// Mirror of the error handler configuration.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Handler {
+    None,
+    Jump(bool, usize),
+    ResumeNext,
+}
+
+macro_rules! state_accessors {
+    () => {
+        pub fn pc(&self) -> usize {
+            self.ctx.pc
+        }
+
+        pub fn set_pc(&mut self, pc: usize) {
+            self.ctx.set_pc(pc);
+        }
+
+        pub fn fp(&self) -> usize {
+            self.ctx.fp
+        }
+
+        pub fn set_fp(&mut self, fp: usize) {
+            self.ctx.fp = fp;
+        }
+
+        /// Returns the value at the absolute position `i` of the register file.
+        pub fn reg(&self, i: usize) -> u64 {
+            self.ctx.regs.get(i).copied().unwrap_or(0)
+        }
+
+        /// Sets the value at the absolute position `i` of the register file.
+        pub fn set_reg(&mut self, i: usize, value: u64) {
+            if i >= self.ctx.regs.len() {
+                self.ctx.regs.resize(i + 1, 0);
+            }
+            self.ctx.regs[i] = value;
+        }
+
+        pub fn depth(&self) -> usize {
+            self.ctx.call_stack.len()
+        }
+
+        pub fn yield_pending(&self) -> bool {
+            self.ctx.yield_pending
+        }
+
+        pub fn handler(&self) -> Handler {
+            match self.ctx.error_handler() {
+                ErrorHandler::None => Handler::None,
+                ErrorHandler::Jump { active, addr } => Handler::Jump(active, addr),
+                ErrorHandler::ResumeNext => Handler::ResumeNext,
+            }
+        }
+
+        pub fn heap_len(&self) -> usize {
+            self.heap.len()
+        }
+
+        /// Allocates a string and returns the pointer to it, or none if the heap is full.
+        pub fn push_text(&mut self, text: &str) -> Option<u64> {
+            self.heap.push(HeapDatum::Text(text.to_owned())).ok()
+        }
+
+        /// Allocates an array and returns the pointer to it, or none if the heap is full.
+        pub fn push_array(&mut self, dimensions: Vec<usize>, values: Vec<u64>) -> Option<u64> {
+            self.heap.push(HeapDatum::Array(ArrayData { dimensions, values })).ok()
+        }
+    };
+}
+
+/// A processor, its heap, and the image it executes.
+pub struct Machine {
+    ctx: Context,
+    heap: Heap,
+    image: Image,
+}
+
+impl Machine {
+    /// Number of registers that exist before any call.
+    pub const GLOBALS: usize = super::Register::MAX_GLOBAL as usize;
+
+    /// Creates a machine for `code`, where `stmts` tells which instructions start a statement.
+    pub fn new(
+        code: Vec<u32>,
+        stmts: &[bool],
+        constants: Vec<ConstantDatum>,
+        max_call_stack: usize,
+        max_heap_entries: u32,
+    ) -> Self {
+        let mut instrs = Vec::with_capacity(code.len());
+        for i in 0..code.len() {
+            instrs.push(InstrMetadata {
+                linecol: LineCol { line: 1, col: i + 1 },
+                is_stmt_start: stmts.get(i).copied().unwrap_or(true),
+                arg_linecols: vec![],
+            });
+        }
+        let debug_info = DebugInfo {
+            instrs,
+            callables: HashMap::default(),
+            global_vars: HashMap::default(),
+            program_vars: HashMap::default(),
+        };
+        Self {
+            ctx: Context::new(max_call_stack),
+            heap: Heap::new(U24::try_from(max_heap_entries).expect("Limit too large")),
+            image: Image::new(code, vec![], constants, vec![], debug_info),
+        }
+    }
+
+    state_accessors!();
+
+    /// Executes until there is a reason to stop.
+    pub fn run(&mut self) -> Stop {
+        Stop::from(self.ctx.exec(&self.image, &mut self.heap))
+    }
+
+    /// Returns the text that the pointer `raw` refers to.
+    pub fn text(&self, raw: u64) -> &str {
+        DatumPtr::from(raw).resolve_string(&self.image.constants, &self.heap)
+    }
+
+    /// Returns the dimensions and values of the array that the pointer `raw` refers to.
+    pub fn array(&self, raw: u64) -> (&[usize], &[u64]) {
+        match self.heap.get(DatumPtr::from(raw).heap_index()) {
+            HeapDatum::Array(a) => (&a.dimensions, &a.values),
+            HeapDatum::Text(_) => panic!("Not an array"),
+        }
+    }
+}
+
+/// A processor and its heap, without any program: instructions are fed one by one.
+pub struct Cpu {
+    ctx: Context,
+    heap: Heap,
+}
+
+impl Cpu {
+    /// Creates a processor with the given limits.
+    pub fn new(max_call_stack: usize, max_heap_entries: u32) -> Self {
+        Self {
+            ctx: Context::new(max_call_stack),
+            heap: Heap::new(U24::try_from(max_heap_entries).expect("Limit too large")),
+        }
+    }
+
+    state_accessors!();
+
+    /// Executes the single instruction `instr`, which must be an encoding of `op`.
+    ///
+    /// Returns the position and message of the exception raised by the instruction, if any, and
+    /// leaves any other reason to stop for `take_stop`.
+    pub fn step(
+        &mut self,
+        op: Op,
+        instr: u32,
+        constants: &[ConstantDatum],
+    ) -> Option<(usize, String)> {
+        match op {
+            Op::AddDouble => self.ctx.do_add_double(instr),
+            Op::AddInteger => self.ctx.do_add_integer(instr),
+            Op::Alloc => self.ctx.do_alloc(instr, &mut self.heap),
+            Op::AllocArray => self.ctx.do_alloc_array(instr, &mut self.heap),
+            Op::BitwiseAnd => self.ctx.do_bitwise_and(instr),
+            Op::BitwiseNot => self.ctx.do_bitwise_not(instr),
+            Op::BitwiseOr => self.ctx.do_bitwise_or(instr),
+            Op::BitwiseXor => self.ctx.do_bitwise_xor(instr),
+            Op::Call => self.ctx.do_call(instr),
+            Op::Concat => self.ctx.do_concat(instr, constants, &mut self.heap),
+            Op::DivideDouble => self.ctx.do_divide_double(instr),
+            Op::DivideInteger => self.ctx.do_divide_integer(instr),
+            Op::DoubleToInteger => self.ctx.do_double_to_integer(instr),
+            Op::EqualBoolean => self.ctx.do_equal_boolean(instr),
+            Op::EqualDouble => self.ctx.do_equal_double(instr),
+            Op::EqualInteger => self.ctx.do_equal_integer(instr),
+            Op::EqualText => self.ctx.do_equal_text(instr, constants, &self.heap),
+            Op::End => self.ctx.do_end(instr),
+            Op::Eof => self.ctx.do_eof(instr),
+            Op::Gosub => self.ctx.do_gosub(instr),
+            Op::GreaterDouble => self.ctx.do_greater_double(instr),
+            Op::GreaterEqualDouble => self.ctx.do_greater_equal_double(instr),
+            Op::GreaterEqualInteger => self.ctx.do_greater_equal_integer(instr),
+            Op::GreaterEqualText => self.ctx.do_greater_equal_text(instr, constants, &self.heap),
+            Op::GreaterInteger => self.ctx.do_greater_integer(instr),
+            Op::GreaterText => self.ctx.do_greater_text(instr, constants, &self.heap),
+            Op::IntegerToDouble => self.ctx.do_integer_to_double(instr),
+            Op::Jump => self.ctx.do_jump(instr),
+            Op::JumpIfFalse => self.ctx.do_jump_if_false(instr),
+            Op::LessDouble => self.ctx.do_less_double(instr),
+            Op::LessEqualDouble => self.ctx.do_less_equal_double(instr),
+            Op::LessEqualInteger => self.ctx.do_less_equal_integer(instr),
+            Op::LessEqualText => self.ctx.do_less_equal_text(instr, constants, &self.heap),
+            Op::LessInteger => self.ctx.do_less_integer(instr),
+            Op::LessText => self.ctx.do_less_text(instr, constants, &self.heap),
+            Op::LoadArray => self.ctx.do_load_array(instr, &self.heap),
+            Op::LoadConstant => self.ctx.do_load_constant(instr, constants),
+            Op::LoadInteger => self.ctx.do_load_integer(instr),
+            Op::LoadRegisterPointer => self.ctx.do_load_register_ptr(instr),
+            Op::ModuloDouble => self.ctx.do_modulo_double(instr),
+            Op::ModuloInteger => self.ctx.do_modulo_integer(instr),
+            Op::Move => self.ctx.do_move(instr),
+            Op::MultiplyDouble => self.ctx.do_multiply_double(instr),
+            Op::MultiplyInteger => self.ctx.do_multiply_integer(instr),
+            Op::NegateDouble => self.ctx.do_negate_double(instr),
+            Op::NegateInteger => self.ctx.do_negate_integer(instr),
+            Op::NotEqualBoolean => self.ctx.do_not_equal_boolean(instr),
+            Op::NotEqualDouble => self.ctx.do_not_equal_double(instr),
+            Op::NotEqualInteger => self.ctx.do_not_equal_integer(instr),
+            Op::NotEqualText => self.ctx.do_not_equal_text(instr, constants, &self.heap),
+            Op::Nop => self.ctx.do_nop(instr),
+            Op::PowerDouble => self.ctx.do_power_double(instr),
+            Op::PowerInteger => self.ctx.do_power_integer(instr),
+            Op::Return => self.ctx.do_return(instr),
+            Op::SetErrorHandler => self.ctx.do_set_error_handler(instr),
+            Op::ShiftLeft => self.ctx.do_shift_left(instr),
+            Op::ShiftRight => self.ctx.do_shift_right(instr),
+            Op::StoreArray => self.ctx.do_store_array(instr, &mut self.heap),
+            Op::SubtractDouble => self.ctx.do_subtract_double(instr),
+            Op::SubtractInteger => self.ctx.do_subtract_integer(instr),
+            Op::Upcall => self.ctx.do_upcall(instr),
+            Op::UpcallAsync => self.ctx.do_upcall_async(instr),
+        }
+        match self.ctx.stop.take() {
+            Some(InternalStopReason::Exception(pc, msg)) => Some((pc, msg)),
+            other => {
+                self.ctx.stop = other;
+                None
+            }
+        }
+    }
+
+    /// Returns and clears the reason to stop.
+    pub fn take_stop(&mut self) -> Option<Stop> {
+        self.ctx.stop.take().map(Stop::from)
+    }
+}
+
+/// Computes the position of an element in an array with the given `dimensions`.
+pub fn flat_index(dimensions: Vec<usize>, subscripts: &[i32]) -> Result<usize, String> {
+    ArrayData { dimensions, values: vec![] }.flat_index(subscripts)
+}
+
+/// Encodes a pointer to the heap entry `index` and returns the raw value and the entry that the
+/// raw value decodes to.
+pub fn heap_ptr_roundtrip(index: u32) -> (u64, usize) {
+    let raw = DatumPtr::for_heap(index);
+    (raw, DatumPtr::from(raw).heap_index())
+}
+
+/// Returns whether `raw` decodes to a constant and, if so, which one.
+pub fn constant_ptr(raw: u64) -> Option<u32> {
+    match DatumPtr::from(raw) {
+        DatumPtr::Constant(index) => Some(u32::from(index)),
+        DatumPtr::Heap(_) => None,
+    }
+}
+
+/// Decodes a tagged register reference built for `reg` in a frame that starts at `fp`.
+pub fn tagged_ref_roundtrip(
+    reg: u8,
+    fp: usize,
+    etype: crate::ExprType,
+) -> (usize, crate::ExprType) {
+    use crate::bytecode::{Register, TaggedRegisterRef};
+    let raw = TaggedRegisterRef::new(Register(reg), fp, etype).as_u64();
+    TaggedRegisterRef::from_u64(raw).parse()
+}
-- 
2.43.0


From fea253cb833faf4c32280204f3d2d4b023b3c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 02/31] std: Add verification hooks feature

---
 std/Cargo.toml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/Cargo.toml b/std/Cargo.toml
index 65a4737..caef976 100644
--- a/std/Cargo.toml
+++ b/std/Cargo.toml
@@ -14,6 +14,10 @@ edition = "2024"
 [lints]
 workspace = true
 
+[features]
+# Exposes private items to external verification tools.
+verif = ["endbasic-core/verif"]
+
 [dependencies]
 async-channel = "2.2"
 async-trait = "0.1"
-- 
2.43.0


From f9c6778ac39e4cccbddb9329d4e572cd416a8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 03/31] fix: Reject arrays whose size overflows or cannot be
 allocated

DIM multiplied all dimensions without checking for overflow, which crashed the
interpreter (or allocated a smaller array than requested in release builds).
---
 core/src/vm/context.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index d43a597..b70e02c 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,7 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -623,7 +623,7 @@ impl Context {
 
         let (_, first_idx) = first_dim_reg.to_parts();
         let mut dimensions = Vec::with_capacity(ndims);
-        let mut total: usize = 1;
+        let mut total: Option<usize> = Some(1);
         for i in 0..ndims {
             let dim_reg = Register::local(first_idx + i as u8).unwrap();
             let dim = match usize::try_from(self.get_reg(dim_reg) as i32) {
@@ -634,15 +634,21 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = total.and_then(|total| total.checked_mul(dim));
         }
 
-        let values = match subtype {
-            ExprType::Boolean | ExprType::Double | ExprType::Integer => {
-                vec![0; total]
-            }
-            ExprType::Text => vec![heap.empty_text_ptr(); total],
+        let default = match subtype {
+            ExprType::Boolean | ExprType::Double | ExprType::Integer => 0,
+            ExprType::Text => heap.empty_text_ptr(),
         };
+        let mut values = vec![];
+        match total {
+            Some(total) if values.try_reserve_exact(total).is_ok() => values.resize(total, default),
+            _ => {
+                self.set_exception(HeapOverflowError.to_string());
+                return;
+            }
+        }
         let array = ArrayData { dimensions, values };
         let ptr = match heap.push(HeapDatum::Array(array)) {
             Ok(ptr) => ptr,
-- 
2.43.0


From ff2de736828396efe0d4e9e1e2b178ba9b7646dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 04/31] fix: Reject dimension 0 in LBOUND and UBOUND

Dimensions are 1-indexed but 0 passed the validation, so UBOUND(x, 0) crashed
the interpreter with an out of bounds access.
---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..19ccff2 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i <= 0 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From 5f95f42ab66e082f2ef62a8eef5cc037b8d7d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 05/31] fix: Do not clobber variables with calls to argless
 functions

---
 core/src/compiler/exprs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..58c2c11 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,21 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
+                    // The callee's frame starts at the register that receives the result, so that
+                    // register must be the last one in use or else the call would clobber any
+                    // variables and temporaries that follow it.
+                    let mut scope = symtable.temp_scope();
+                    let temp = scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?;
+                    let (_, temp_index) = temp.to_parts();
+                    let (is_global, reg_index) = reg.to_parts();
+                    let is_last = !is_global && reg_index + 1 == temp_index;
+                    let ret_reg = if is_last { reg } else { temp };
+
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
+                    if reg != ret_reg {
+                        codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
-- 
2.43.0


From 641065dc798482d4e39bc5a80e278e7ef0af26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 06/31] fix: Do not let functions see partial results in the
 shared variable being assigned

---
 core/src/compiler/top.rs | 67 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..adfc2e1 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -155,6 +155,65 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
     false
 }
 
+/// Returns true if `expr` calls any user-defined function.
+fn expr_calls_user_callable(expr: &Expr, symtable: &LocalSymtable<'_>) -> bool {
+    let is_user_callable = |vref: &VarRef| {
+        symtable
+            .get_callable(&SymbolKey::from(&vref.name))
+            .is_some_and(|metadata| metadata.is_user_defined())
+    };
+
+    let mut stack = vec![expr];
+    while let Some(expr) = stack.pop() {
+        match expr {
+            Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
+
+            Expr::Symbol(span) => {
+                if is_user_callable(&span.vref) {
+                    return true;
+                }
+            }
+
+            Expr::Negate(span) | Expr::Not(span) => {
+                stack.push(&span.expr);
+            }
+
+            Expr::Call(span) => {
+                if is_user_callable(&span.vref) {
+                    return true;
+                }
+                for arg in &span.args {
+                    if let Some(arg_expr) = &arg.expr {
+                        stack.push(arg_expr);
+                    }
+                }
+            }
+
+            Expr::Add(span)
+            | Expr::And(span)
+            | Expr::Divide(span)
+            | Expr::Equal(span)
+            | Expr::Greater(span)
+            | Expr::GreaterEqual(span)
+            | Expr::Less(span)
+            | Expr::LessEqual(span)
+            | Expr::Modulo(span)
+            | Expr::Multiply(span)
+            | Expr::NotEqual(span)
+            | Expr::Or(span)
+            | Expr::Power(span)
+            | Expr::ShiftLeft(span)
+            | Expr::ShiftRight(span)
+            | Expr::Subtract(span)
+            | Expr::Xor(span) => {
+                stack.push(&span.lhs);
+                stack.push(&span.rhs);
+            }
+        }
+    }
+    false
+}
+
 /// Compiles an assignment statement `span` into the `codegen` block.
 fn compile_assignment(
     codegen: &mut Codegen,
@@ -190,7 +249,13 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // User-defined functions can access global variables, so an expression that calls any of them
+    // as an operand cannot be computed in place into a global variable.
+    let (is_global, _) = reg.to_parts();
+    let is_operation = !matches!(expr, Expr::Call(..) | Expr::Symbol(..));
+    let has_self_reference = was_defined
+        && (expr_references_symbol(&expr, &key)
+            || (is_global && is_operation && expr_calls_user_callable(&expr, symtable)));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
-- 
2.43.0


From ef709fb77270fa0068a3ecbd81e81740cf96bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 07/31] fix: Resume at the end of the block after errors in its
 last statement

---
 core/src/compiler/top.rs | 138 +++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 63 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index adfc2e1..62fd713 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -453,6 +453,28 @@ fn compile_case_guard(
     }
 }
 
+/// Compiles the statements in `body`, which are followed by the code that terminates the block
+/// as emitted by `end`.
+///
+/// The code that terminates the block is a statement on its own so that, when errors are ignored
+/// with `ON ERROR RESUME NEXT`, the failure of the last statement in `body` resumes there.
+fn compile_block<T>(
+    ctx: &mut Context,
+    symtable: &mut LocalSymtable<'_>,
+    body: Vec<Statement>,
+    end: impl FnOnce(&mut Context, &mut LocalSymtable<'_>) -> Result<T>,
+) -> Result<T> {
+    for stmt in body {
+        compile_stmt(ctx, symtable, stmt)?;
+    }
+    let end_pc = ctx.codegen.next_pc();
+    let result = end(ctx, symtable)?;
+    if end_pc != ctx.codegen.next_pc() {
+        ctx.codegen.mark_statement_start(end_pc);
+    }
+    Ok(result)
+}
+
 /// Compiles a `SELECT` statement and emits bytecode into `ctx`.
 fn compile_select(
     ctx: &mut Context,
@@ -537,13 +559,12 @@ fn compile_select(
             ctx.codegen.patch(jump_body_pc, bytecode::make_jump(target));
         }
 
-        for stmt in case.body {
-            compile_stmt(ctx, symtable, stmt)?;
-        }
-
-        if case.has_next_case {
-            end_jumps.push(ctx.codegen.emit(bytecode::make_nop(), end_pos));
-        }
+        compile_block(ctx, symtable, case.body, |ctx, _| {
+            if case.has_next_case {
+                end_jumps.push(ctx.codegen.emit(bytecode::make_nop(), end_pos));
+            }
+            Ok(())
+        })?;
     }
 
     let end_addr = ctx.codegen.next_pc();
@@ -577,13 +598,13 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
     let end_addr = match span.guard {
         DoGuard::Infinite => {
             let start_pc = ctx.codegen.next_pc();
-            for stmt in span.body {
-                compile_stmt(ctx, symtable, stmt)?;
-            }
-            let end_pos = LineCol { line: 0, col: 0 };
-            let target =
-                u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(end_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            compile_block(ctx, symtable, span.body, |ctx, _| {
+                let end_pos = LineCol { line: 0, col: 0 };
+                let target =
+                    u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(end_pos, start_pc))?;
+                ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+                Ok(())
+            })?;
             ctx.codegen.next_pc()
         }
 
@@ -597,12 +618,12 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
                 u16::try_from(body_addr).map_err(|_| Error::TargetTooFar(guard_pos, body_addr))?;
             ctx.codegen.patch(jump_body_pc, bytecode::make_jump_if_false(cond_reg, body_target));
 
-            for stmt in span.body {
-                compile_stmt(ctx, symtable, stmt)?;
-            }
-            let start_target =
-                u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            compile_block(ctx, symtable, span.body, |ctx, _| {
+                let start_target = u16::try_from(start_pc)
+                    .map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
+                ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+                Ok(())
+            })?;
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -615,12 +636,12 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
             let jump_end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
 
-            for stmt in span.body {
-                compile_stmt(ctx, symtable, stmt)?;
-            }
-            let start_target =
-                u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            compile_block(ctx, symtable, span.body, |ctx, _| {
+                let start_target = u16::try_from(start_pc)
+                    .map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
+                ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+                Ok(())
+            })?;
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -630,10 +651,10 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
 
         DoGuard::PostUntil(guard) => {
             let start_pc = ctx.codegen.next_pc();
-            for stmt in span.body {
-                compile_stmt(ctx, symtable, stmt)?;
-            }
-            let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            let (cond_reg, guard_pos) =
+                compile_block(ctx, symtable, span.body, |ctx, symtable| {
+                    compile_guard(ctx, symtable, guard)
+                })?;
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
             ctx.codegen.emit(bytecode::make_jump_if_false(cond_reg, start_target), guard_pos);
@@ -642,10 +663,10 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
 
         DoGuard::PostWhile(guard) => {
             let start_pc = ctx.codegen.next_pc();
-            for stmt in span.body {
-                compile_stmt(ctx, symtable, stmt)?;
-            }
-            let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            let (cond_reg, guard_pos) =
+                compile_block(ctx, symtable, span.body, |ctx, symtable| {
+                    compile_guard(ctx, symtable, guard)
+                })?;
             let jump_end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
@@ -712,15 +733,10 @@ fn compile_for(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: ForSpa
 
     ctx.for_exit_stack.push(vec![]);
 
-    for stmt in span.body {
-        compile_stmt(ctx, symtable, stmt)?;
-    }
-
-    compile_assignment(
-        &mut ctx.codegen,
-        symtable,
-        AssignmentSpan { vref: span.iter, vref_pos: span.iter_pos, expr: span.next },
-    )?;
+    let next = AssignmentSpan { vref: span.iter, vref_pos: span.iter_pos, expr: span.next };
+    compile_block(ctx, symtable, span.body, |ctx, symtable| {
+        compile_assignment(&mut ctx.codegen, symtable, next)
+    })?;
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(cond_pos, start_pc))?;
@@ -763,14 +779,13 @@ fn compile_if(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: IfSpan)
             (ctx.codegen.emit(bytecode::make_nop(), guard_pos), reg)
         };
 
-        for stmt in branch.body {
-            compile_stmt(ctx, symtable, stmt)?;
-        }
-
-        if !is_last {
-            let end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
-            end_pcs.push(end_pc);
-        }
+        compile_block(ctx, symtable, branch.body, |ctx, _| {
+            if !is_last {
+                let end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
+                end_pcs.push(end_pc);
+            }
+            Ok(())
+        })?;
 
         let next_addr = ctx.codegen.next_pc();
         let target =
@@ -805,13 +820,12 @@ fn compile_while(
         (ctx.codegen.emit(bytecode::make_nop(), guard_pos), reg, guard_pos)
     };
 
-    for stmt in span.body {
-        compile_stmt(ctx, symtable, stmt)?;
-    }
-
-    let start_target =
-        u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-    ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    compile_block(ctx, symtable, span.body, |ctx, _| {
+        let start_target =
+            u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
+        ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+        Ok(())
+    })?;
 
     let end_addr = ctx.codegen.next_pc();
     let end_target =
@@ -1233,11 +1247,9 @@ fn compile_user_callable(
             .map_err(|e| Error::from_syms(e, key_pos))?;
     }
 
-    for stmt in callable.body {
-        compile_stmt(ctx, &mut symtable, stmt)?;
-    }
-
-    let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
+    let return_addr = compile_block(ctx, &mut symtable, callable.body, |ctx, _| {
+        Ok(ctx.codegen.emit(bytecode::make_return(), callable.end_pos))
+    })?;
     for (addr, pos) in ctx.callable_exit_jumps.drain(..) {
         let target =
             u16::try_from(return_addr).map_err(|_| Error::TargetTooFar(pos, return_addr))?;
-- 
2.43.0


From c5d15491442646b54a3d99bba186b56a91c9eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 08/31] fix: Run error handlers in the scope that configured
 them

---
 core/src/vm/context.rs | 17 +++++++++++++++++
 core/src/vm/mod.rs     |  1 +
 2 files changed, 18 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index b70e02c..f592734 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -183,6 +183,9 @@ pub(super) struct Context {
     /// Current error handler configuration.
     err_handler: ErrorHandler,
 
+    /// Depth of the call stack in the scope that configured the current error handler.
+    err_handler_depth: usize,
+
     /// Register values.  The first N registers hold global variables.  After those, we find
     /// the registers for all local variables and for all scopes.
     regs: Vec<u64>,
@@ -211,6 +214,7 @@ impl Context {
             fp: usize::from(Register::MAX_GLOBAL),
             stop: None,
             err_handler: ErrorHandler::None,
+            err_handler_depth: 0,
             regs: vec![0; usize::from(Register::MAX)],
             call_stack: vec![],
             max_call_stack,
@@ -272,6 +276,16 @@ impl Context {
         };
     }
 
+    /// Leaves all functions and subroutines called since the current error handler was configured
+    /// so that the handler runs in the scope that configured it.
+    pub(super) fn unwind_to_error_handler(&mut self) {
+        let mut calls = self.call_stack.iter().enumerate().skip(self.err_handler_depth);
+        if let Some((depth, frame)) = calls.find(|(_, f)| f.ret_reg.is_some()) {
+            self.fp = frame.old_fp;
+            self.call_stack.truncate(depth);
+        }
+    }
+
     /// Dereferences a pointer register as a string.
     fn deref_string<'b>(
         &self,
@@ -394,6 +408,7 @@ impl Context {
         self.fp = usize::from(Register::MAX_GLOBAL);
         self.stop = None;
         self.err_handler = ErrorHandler::None;
+        self.err_handler_depth = 0;
         self.call_stack.clear();
         self.yield_pending = false;
     }
@@ -1068,6 +1083,7 @@ impl Context {
                 return;
             }
         };
+        self.err_handler_depth = self.err_handler_depth.min(self.call_stack.len());
         if let Some(ret_reg) = frame.ret_reg {
             let return_value = self.get_reg(Register::local(0).unwrap());
             self.pc = frame.old_pc + 1;
@@ -1083,6 +1099,7 @@ impl Context {
     /// Implements the `SetErrorHandler` opcode.
     pub(super) fn do_set_error_handler(&mut self, instr: u32) {
         let (mode, target) = bytecode::parse_set_error_handler(instr);
+        self.err_handler_depth = self.call_stack.len();
         self.err_handler = match mode {
             ErrorHandlerMode::None => ErrorHandler::None,
             ErrorHandlerMode::Jump => {
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 78cc004..8c5f5aa 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -348,6 +348,7 @@ impl Vm {
             ErrorHandler::Jump { active: true, .. } => false,
             ErrorHandler::Jump { active: false, addr } => {
                 self.context.set_error_handler_active();
+                self.context.unwind_to_error_handler();
                 self.context.set_pc(addr);
                 true
             }
-- 
2.43.0


From 7ec1a1edf39173e8d6777787d0b4b91c545306de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 09/31] fix: Return zero from DOUBLE functions that do not set
 their result

---
 core/src/compiler/top.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 62fd713..9e7cf24 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1230,7 +1230,12 @@ fn compile_user_callable(
         // of the result to properly allocate it.
         let value = match vtype {
             ExprType::Boolean | ExprType::Integer => 0,
-            ExprType::Double => ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?,
+            ExprType::Double => {
+                // Doubles are stored as raw bits in the register, not as a pointer to a constant,
+                // and the representation of zero is the same as that of the integer.
+                ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?;
+                0
+            }
             ExprType::Text => {
                 ctx.codegen.get_constant(ConstantDatum::Text(String::new()), key_pos)?
             }
-- 
2.43.0


From c77ebc35b88d02a138e485a0558c918a1a9a2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 10/31] fix: Do not crash after resuming from an error in the
 last statement

With ON ERROR RESUME NEXT, an error in the last statement of the program made
execution continue past the end of the code instead of at its EOF.
---
 core/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 8c5f5aa..9938ffe 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -353,7 +353,7 @@ impl Vm {
                 true
             }
             ErrorHandler::ResumeNext => {
-                let mut next_pc = image.code.len();
+                let mut next_pc = image.code.len() - 1;
                 for (idx, meta) in image.debug_info.instrs.iter().enumerate().skip(pc + 1) {
                     if meta.is_stmt_start {
                         next_pc = idx;
-- 
2.43.0


From ba7ee1ca6ce056aa4530f5141f1db4db48820d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 11/31] fix: Leave calls in progress when execution stops

Errors, breaks and END within functions, subroutines or GOSUBs left the machine
in their scope, so later code in the same session saw wrong variables.
---
 core/src/vm/context.rs | 7 +++++++
 core/src/vm/mod.rs     | 1 +
 2 files changed, 8 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index f592734..17b765d 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -286,6 +286,13 @@ impl Context {
         }
     }
 
+    /// Leaves all functions, subroutines and GOSUBs that are in progress.
+    pub(super) fn unwind_calls(&mut self) {
+        self.fp = usize::from(Register::MAX_GLOBAL);
+        self.call_stack.clear();
+        self.err_handler_depth = 0;
+    }
+
     /// Dereferences a pointer register as a string.
     fn deref_string<'b>(
         &self,
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 9938ffe..641eef4 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -300,6 +300,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
+        self.context.unwind_calls();
         self.context.set_pc(image.code.len() - 1);
     }
 
-- 
2.43.0


From 4a92fe1bd8136499dbc07a9adb443f1828453c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 12/31] fix: Allow interrupting programs while they return from
 functions

Loops and GOSUBs check for breaks, but recursion did not, so programs whose
calls branch out could run for practically forever without any way to stop.
---
 core/src/vm/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 17b765d..9bace53 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -1091,6 +1091,7 @@ impl Context {
             }
         };
         self.err_handler_depth = self.err_handler_depth.min(self.call_stack.len());
+        self.yield_pending = true;
         if let Some(ret_reg) = frame.ret_reg {
             let return_value = self.get_reg(Register::local(0).unwrap());
             self.pc = frame.old_pc + 1;
@@ -1099,7 +1100,6 @@ impl Context {
         } else {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
-            self.yield_pending = true;
         }
     }
 
-- 
2.43.0


From da2a5c673279c5c236186abb960e2729a603b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 13/31] fix: Do not crash after writing up to the edge of
 graphical consoles

The cursor lies outside of the console until the next write wraps, and drawing
it there asks the backing surface for pixels that do not exist.
---
 std/src/console/graphics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..d9319fe 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -389,6 +389,12 @@ where
             return Ok(());
         }
 
+        if self.cursor_pos.x >= self.size_chars.x {
+            // The last write ended right at the edge of the console so the cursor is not visible
+            // until the next write wraps to the following line.
+            return Ok(());
+        }
+
         let x1y1 = self.cursor_pos.clamped_mul(self.glyph_size);
 
         assert!(self.cursor_backup.is_none());
-- 
2.43.0


From ac17c906b0a584e3bd510c571c77cf6c7b842f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 14/31] fix: Do not overflow when filling polygons with distant
 vertices

---
 std/src/console/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..3b39ff5 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -315,7 +315,9 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product of two coordinate differences does not fit in 32 bits.
+    let offset = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + offset as i32)
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From eb68d70e69566c0fe000b6a60214b071c76fabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 15/31] fix: Do not hang when filling a region with another
 number of its color

---
 std/src/console/drawing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 3b39ff5..3a87fb1 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,11 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // Different color numbers may denote the same color, in which case there is nothing
+            // to fill and the region would never be exhausted.
+            return Ok(());
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From a3effafe6c9f5390e9c5926d44b932e9d1a10c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 16/31] fix: Do not overflow when drawing circles close to the
 coordinate limits

---
 std/src/console/drawing.rs | 49 +++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 3a87fb1..e6ffd46 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -173,8 +173,12 @@ pub fn draw_circle<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> io::Resu
 where
     R: RasterOps,
 {
-    fn point<R: RasterOps>(rasops: &mut R, x: i16, y: i16) -> io::Result<()> {
-        rasops.draw_pixel(PixelsXY { x, y })
+    // Points that do not fit in the coordinate space cannot be visible.
+    fn point<R: RasterOps>(rasops: &mut R, x: i32, y: i32) -> io::Result<()> {
+        match (i16::try_from(x), i16::try_from(y)) {
+            (Ok(x), Ok(y)) => rasops.draw_pixel(PixelsXY { x, y }),
+            _ => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -197,15 +201,18 @@ where
     let mut ty: i16 = 1;
     let mut e: i16 = tx - diameter;
 
+    let cx = i32::from(center.x);
+    let cy = i32::from(center.y);
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        let (dx, dy) = (i32::from(x), i32::from(y));
+        point(rasops, cx + dx, cy - dy)?;
+        point(rasops, cx + dx, cy + dy)?;
+        point(rasops, cx - dx, cy - dy)?;
+        point(rasops, cx - dx, cy + dy)?;
+        point(rasops, cx + dy, cy - dx)?;
+        point(rasops, cx + dy, cy + dx)?;
+        point(rasops, cx - dy, cy - dx)?;
+        point(rasops, cx - dy, cy + dx)?;
 
         if e <= 0 {
             y += 1;
@@ -231,8 +238,15 @@ pub fn draw_circle_filled<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> i
 where
     R: RasterOps,
 {
-    fn line<R: RasterOps>(rasops: &mut R, x1: i16, y1: i16, x2: i16, y2: i16) -> io::Result<()> {
-        rasops.draw_line(PixelsXY { x: x1, y: y1 }, PixelsXY { x: x2, y: y2 })
+    // Points that do not fit in the coordinate space cannot be visible.
+    fn line<R: RasterOps>(rasops: &mut R, x: i32, y1: i32, y2: i32) -> io::Result<()> {
+        match i16::try_from(x) {
+            Ok(x) => rasops.draw_line(
+                PixelsXY { x, y: y1.clamped_into() },
+                PixelsXY { x, y: y2.clamped_into() },
+            ),
+            Err(_) => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -256,11 +270,14 @@ where
     let mut ty: i16 = 1;
     let mut e: i16 = tx - diameter;
 
+    let cx = i32::from(center.x);
+    let cy = i32::from(center.y);
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        let (dx, dy) = (i32::from(x), i32::from(y));
+        line(rasops, cx + dx, cy - dy, cy + dy)?;
+        line(rasops, cx - dx, cy - dy, cy + dy)?;
+        line(rasops, cx + dy, cy - dx, cy + dx)?;
+        line(rasops, cx - dy, cy - dx, cy + dx)?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From ab4d6f0363fddf9464df2ae22961c231d264e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 17/31] fix: Do not paint the edge of the LCD for rectangles
 beyond it

---
 std/src/gfx/lcd/buffered/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..ee5dff3 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,15 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        if size.width == 0
+            || size.height == 0
+            || i64::from(xy.x) >= self.size_pixels.width as i64
+            || i64::from(xy.y) >= self.size_pixels.height as i64
+        {
+            // Nothing of the rectangle is visible.
+            return Ok(());
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 2cc8e7359d6a8dc7519de7710a8b059dcd366795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 18/31] std: Add verification hooks for graphics

---
 std/src/console/drawing.rs      | 12 ++++++++
 std/src/console/graphics.rs     | 20 ++++++++++++++
 std/src/gfx/lcd/buffered/mod.rs | 49 +++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e6ffd46..04b4e7a 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -1205,3 +1205,15 @@ mod tests {
         );
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+pub mod verif {
+    //! Verification hooks.
+
+    use super::*;
+
+    pub fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
+        super::edge_intersection(y, p1, p2)
+    }
+}
diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index d9319fe..a53a0d7 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -1029,3 +1029,23 @@ mod tests {
         ));
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+pub mod verif {
+    //! Verification hooks.
+
+    use super::*;
+
+    pub fn poly_points(points: &[PixelsXY]) -> bool {
+        super::poly_points(points)
+    }
+
+    pub fn rect_points(x1y1: PixelsXY, x2y2: PixelsXY) -> Option<(PixelsXY, SizeInPixels)> {
+        super::rect_points(x1y1, x2y2)
+    }
+
+    pub fn tri_points(x1y1: PixelsXY, x2y2: PixelsXY, x3y3: PixelsXY) -> bool {
+        super::tri_points(x1y1, x2y2, x3y3)
+    }
+}
diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index ee5dff3..5476617 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -516,3 +516,52 @@ where
         self.without_sync(|self2| drawing::draw_tri_filled(self2, x1y1, x2y2, x3y3))
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+impl<L> BufferedLcd<L>
+where
+    L: Lcd,
+{
+    pub fn verif_new(lcd: L, font: &'static Font, colors: HashMap<Vec<u8>, u8>) -> Self {
+        let (size_pixels, stride) = lcd.info();
+        let draw_color = lcd.encode((255, 255, 255));
+        Self {
+            lcd,
+            font,
+            fb: vec![],
+            stride,
+            sync: true,
+            damage: None,
+            size_pixels,
+            size_chars: CharsXY::new(1, 1),
+            ansi_colors: colors,
+            draw_color,
+            row_buffer: vec![],
+        }
+    }
+
+    pub fn verif_damage(&mut self, a: (LcdXY, LcdXY), b: (LcdXY, LcdXY)) -> (LcdXY, LcdXY) {
+        self.sync = false;
+        self.damage = None;
+        self.damage(a.0, a.1);
+        self.damage(b.0, b.1);
+        self.damage.take().unwrap()
+    }
+
+    pub fn verif_clip_xy(&self, xy: PixelsXY) -> Option<LcdXY> {
+        self.clip_xy(xy)
+    }
+
+    pub fn verif_clamp_xy(&self, xy: PixelsXY) -> LcdXY {
+        self.clamp_xy(xy)
+    }
+
+    pub fn verif_clip_x2y2(&self, xy: PixelsXY, size: SizeInPixels) -> Option<LcdXY> {
+        self.clip_x2y2(xy, size)
+    }
+
+    pub fn verif_fb_addr(&self, x: usize, y: usize) -> usize {
+        self.fb_addr(x, y)
+    }
+}
-- 
2.43.0


From 2c79ccc27b30afe0148985cb723f70d205de6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 19/31] fix: Reject NOT after an operand in expressions

An operator that needs no left operand was accepted right after a value, which
was then silently dropped: PRINT 1 NOT 2 printed -3.
---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..ecde9a2 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -897,6 +897,12 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(
+                            ts.pos,
+                            format!("Unexpected {} in expression", ts.token),
+                        ));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From 52b7a83781b28a965a411fb4dd5d443fed89e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 20/31] fix: Mark edits as unsaved even if drawing them fails

The editor recorded that the program had changed only after writing the new
text to the console, so an error of the console lost track of the change.
---
 repl/src/editor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..9db1c51 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -431,14 +431,13 @@ impl Editor {
                     }
 
                     line.insert(self.file_pos.col, ch);
+                    self.dirty = true;
                     self.file_pos.col += 1;
                     self.insert_col = self.file_pos.col;
 
                     if cursor_pos.x < console_size.x - 1 && refresh == RefreshKind::None {
                         console.write(ch.encode_utf8(&mut buf))?;
                     }
-
-                    self.dirty = true;
                 }
 
                 Key::End => {
@@ -494,12 +493,12 @@ impl Editor {
                         new_text.push(' ');
                     }
                     line.insert_str(self.file_pos.col, &new_text);
+                    self.dirty = true;
                     self.file_pos.col = new_pos;
                     self.insert_col = self.file_pos.col;
                     if refresh == RefreshKind::None {
                         console.write(&new_text)?;
                     }
-                    self.dirty = true;
                 }
 
                 // TODO(jmmv): Should do something smarter with unknown keys.
-- 
2.43.0


From c0fa68f3d3e6469a91f5e2e819651aed987a1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 21/31] fix: Place the cursor by characters after copying an
 indentation

The indentation of a line may contain whitespace that takes more than one
byte, and the column of the cursor is a number of characters.
---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 9db1c51..fdf31b1 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -457,7 +457,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From 5ed15791e3ce36eef5f74879e0bfa2a26a9fed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 22/31] fix: Measure and shorten input prompts by characters

---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..d5ef676 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let start: String = prompt.chars().take(console_width - 5).collect();
+                prompt = Cow::from(format!("{}...", start));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From e0e543a969fb071daf278b3b82b073d3681cd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 23/31] fix: Keep lines that were not entered out of the
 history

---
 std/src/console/readline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index d5ef676..f667c17 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -441,7 +441,18 @@ async fn read_line_interactive(
     mut history: Option<&mut Vec<String>>,
     echo: bool,
 ) -> io::Result<String> {
-    Readline::new(console, prompt, previous, history.take(), echo)?.run().await
+    let old_len = history.as_deref().map_or(0, Vec::len);
+    let result = match Readline::new(console, prompt, previous, history.as_deref_mut(), echo) {
+        Ok(readline) => readline.run().await,
+        Err(e) => Err(e),
+    };
+    if result.is_err()
+        && let Some(history) = history
+    {
+        // The line was not entered, so it does not belong in the history.
+        history.truncate(old_len);
+    }
+    result
 }
 
 /// Reads a line of text interactively from the console, which is not expected to be a TTY.
-- 
2.43.0


From fa89c88cdc8fe62fd416b80c90cb3fb15db0f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 24/31] fix: Align PRINT zones by characters

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From 92ed126cfa72e0699c33a482a269b65ad4daa891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 25/31] fix: Let MAX and MIN return infinities

---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..5494a2d 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From 191c487d3e1f584320d2f1c31c7efb61b099242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 26/31] fix: Keep the cursor in place when there is no room for
 input

---
 std/src/console/readline.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index f667c17..f4d713f 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -46,9 +46,7 @@ struct Readline<'a, 'h> {
 impl<'a, 'h> Readline<'a, 'h> {
     /// Adjusts the viewport start to ensure `pos` remains visible.
     fn adjust_view(&self, pos: usize, view_start: usize) -> usize {
-        if self.input_width == 0 {
-            0
-        } else if pos < view_start {
+        if pos < view_start {
             pos
         } else if pos > view_start + self.input_width {
             pos - self.input_width
@@ -81,8 +79,7 @@ impl<'a, 'h> Readline<'a, 'h> {
 
     /// Moves the viewport so that the end of the line is visible.
     fn reset_view_to_end(&mut self) {
-        self.view_start =
-            if self.input_width == 0 { 0 } else { self.pos.saturating_sub(self.input_width) };
+        self.view_start = self.pos.saturating_sub(self.input_width);
         self.sync_rendered();
     }
 
@@ -369,7 +366,7 @@ impl<'a, 'h> Readline<'a, 'h> {
 
         let line = LineBuffer::from(previous);
         let pos = line.len();
-        let view_start = if input_width == 0 { 0 } else { pos.saturating_sub(input_width) };
+        let view_start = pos.saturating_sub(input_width);
         let history_pos = match history.as_mut() {
             Some(history) => {
                 history.push(line.to_string());
-- 
2.43.0


From 097058a8fa2da2a70646a6c0951a85b5be6752f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 27/31] fix: Move within lines longer than 32767 characters

---
 std/src/console/readline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index f4d713f..f6b93f7 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -266,7 +266,7 @@ impl<'a, 'h> Readline<'a, 'h> {
         let old_pos = self.current_pos();
         let new_view_start = self.adjust_view(new_pos, self.view_start);
         if new_view_start == self.view_start {
-            let delta = new_pos as i16 - self.pos as i16;
+            let delta = (new_pos - self.view_start) as i16 - old_pos as i16;
             self.console.move_within_line(delta)?;
             self.pos = new_pos;
         } else {
-- 
2.43.0


From 8ec828b82b30116f9cd2f7fa9fc3baa1cfc5d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 28/31] fix: Reject negated literals that overflow

---
 core/src/parser.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index ecde9a2..26ed50c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -478,10 +478,18 @@ impl<'a> Parser<'a> {
                             value: -d,
                             pos: token_span.pos,
                         }))),
-                        Token::Integer(i) => values.push(Some(Expr::Integer(IntegerSpan {
-                            value: -i,
-                            pos: token_span.pos,
-                        }))),
+                        Token::Integer(i) => {
+                            let Some(value) = i.checked_neg() else {
+                                return Err(Error::Bad(
+                                    token_span.pos,
+                                    "Integer overflow".to_owned(),
+                                ));
+                            };
+                            values.push(Some(Expr::Integer(IntegerSpan {
+                                value,
+                                pos: token_span.pos,
+                            })));
+                        }
                         _ => {
                             return Err(Error::Bad(
                                 token_span.pos,
@@ -1240,9 +1248,12 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
+                        let Some(value) = i.checked_neg() else {
+                            return Err(Error::Bad(peeked.pos, "Integer overflow".to_owned()));
+                        };
                         Ok((
-                            Expr::Integer(IntegerSpan { value: -i, pos: peeked.pos }),
-                            (-i).cmp(&0),
+                            Expr::Integer(IntegerSpan { value, pos: peeked.pos }),
+                            value.cmp(&0),
                             false,
                         ))
                     }
-- 
2.43.0


From 02382ec77a8a20979dbbd2f07b5382f32dbefb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 29/31] fix: Round to digits that are far away

---
 std/src/numerics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 5494a2d..7bdc5b9 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,16 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            if !scaled.is_finite() {
+                // The number has no digits that far after the decimal point.
+                scope.return_double(value)
+            } else if factor == 0.0 {
+                // All digits of the number are dropped.
+                scope.return_double(0.0)
+            } else {
+                scope.return_double(scaled.round() / factor)
+            }
         }
     }
 }
-- 
2.43.0


From 4e33c6942d16615e817acdd3fadc5db06e7ac95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 30/31] fix: Lay out text on narrow consoles by characters

---
 std/src/console/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..26b0928 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -43,7 +43,7 @@ fn refill(paragraph: &str, width: usize) -> Vec<String> {
                 1
             };
 
-            if (line.len() + word.len() + spaces) >= width {
+            if (line.chars().count() + word.chars().count() + spaces) >= width {
                 lines.push(line);
                 line = String::new();
             } else {
@@ -89,7 +89,8 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        // If there is no room for the indentation, put every word in its own line.
+        let lines = refill(paragraph, width.saturating_sub(4 + indent.len() + extra_indent.len()));
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From bf06f1e03a80a354bbfc3f11f5566d5fd83f8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 31/31] fix: Count the columns of paged lines by characters

---
 std/src/console/pager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/console/pager.rs b/std/src/console/pager.rs
index 2d2eda7..e4bae02 100644
--- a/std/src/console/pager.rs
+++ b/std/src/console/pager.rs
@@ -88,7 +88,7 @@ impl<'a> Pager<'a> {
                 yielder.yield_now().await;
             }
 
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
             self.cur_lines += (self.cur_columns / usize::from(self.size.x)) + 1;
 
             if self.cur_lines >= usize::from(self.size.y) - 1 {
@@ -110,7 +110,7 @@ impl<'a> Pager<'a> {
     pub(crate) fn write(&mut self, text: &str) -> io::Result<()> {
         self.console.write(text)?;
         if self.console.is_interactive() {
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
         }
         Ok(())
     }
-- 
2.43.0

